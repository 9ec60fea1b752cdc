UNITS["C09"] = [U("c09_" + c, "c09.cpp", c, bounds="GSW plaintexts {0, +-1, +-2, 3, every monomial, dense} x edge keys x inputs with every digit value at carry boundaries and single-coefficient inputs at every position; rotations by every exponent 0..2N x every key value; every transform and in-place use" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_cb", "tiny_rs", "tiny_tern", "tiny_tern_cmux", "tiny_opt")]
UNITS["C09"] += [U("c09_" + c, "c09.cpp", c, workers=2, bounds="shipped dimensions and noise, edge inputs" if c == "real" else None) for c in ("real", "concrete", "tfhers", "ternary", "compress")]
UNITS["C09"] += [U("c09_rain_" + c, "c09.cpp", c, cxx="clang++", omp=False, defs=["VP_RAINTT"]) for c in ("tiny_cb27", "compress")]
