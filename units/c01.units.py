_b = "tiny: all keys with n<=4 and edge keys otherwise, 6^3 leading generator answers x 5 mask patterns, all messages; shipped sets: 4^2 answers x 5 patterns; 65536 phases; all bit strings up to 8 bits"
UNITS["C01"] = [U("c01_" + c, "c01.cpp", c, opt="-O1", bounds=_b if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_cb", "tiny_tern", "real", "concrete", "tfhers", "compress", "cggi16", "cggi19")]
