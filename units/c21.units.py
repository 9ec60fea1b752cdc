UNITS["C21"] = [U("c21_" + c, "c21.cpp", c, src=["key.cpp"], defs=d, **kw,
                  bounds="every element of every key type x 10 secret keys (60 thorough) x 5 mask families; all histories of two emplacements (three thorough) under different secret keys" if c == "tiny" else None)
                for c, d, kw in (("tiny", [], {}), ("tiny_k2", [], {}), ("tiny_tern", [], {}), ("tiny_cb", [], {}), ("tiny_bundle", [], {}), ("tiny_nh", [], {}), ("bundle", [], {}), ("cggi19", ["VP_NOKS2"], {}), ("tiny_sub", ["VP_SUBKEY"], {}),
                                 ("real", [], {}), ("concrete", ["VP_NOKS2"], {}), ("compress", [], {}), ("ternary", [], {}))]
UNITS["C21"] += [U("c21_rain", "c21.cpp", "tiny_cb27", src=["key.cpp"], opt="-O2", cxx="clang++", omp=False, defs=["VP_RAINTT"])]
