_b10 = "all monomial positions x 10 dense operands x extreme amplitudes, all dense pairs, monomial pairs (all for N<=64)"
UNITS["C10"] = [U("c10_" + c, "c10.cpp", c, bounds=_b10 if c == "real" else None) for c in ("real", "tiny", "tiny_rs", "concrete", "tfhers", "compress")]
UNITS["C10"] += [U("c10_ntt", "c10.cpp", "real", defs=["VP_NTT"], bounds="number-theoretic transforms of 2^4..2^11 points; Nussbaumer transforms 2^1..2^11, all {-1,0,1} polynomials up to degree 7"),
                 U("c10_rain31", "c10.cpp", "real", defs=["VP_RAINTT"], cxx="clang++", omp=False),
                 U("c10_rain27", "c10.cpp", "compress", defs=["VP_RAINTT"], cxx="clang++", omp=False)]
