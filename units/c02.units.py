UNITS["C02"] = [U("c02_" + c, "c02.cpp", c, opt="-O2", bounds="every coefficient position x keys x generator-answer scripts (tiny: full product thorough, diagonal quick)" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_cb", "tiny_rs", "real", "concrete", "tfhers", "compress")]
UNITS["C02"] += [U("c02_rain_" + c, "c02.cpp", c, opt="-O2", cxx="clang++", omp=False, defs=["VP_RAINTT"])
                 for c in ("tiny_cb27", "compress")]
