UNITS["C05"] = [U("c05_tiny", "c05.cpp", "tiny", defs=["VP_STRIDE=2"], bounds="n0=2, N=32: every pair of mask classes at both sides of the rounding point x every body class at both ends x all domain keys x 4 test vectors; FFT, NTT, RAINTT, encrypted test vector, many-LUT 2/3/4/8, both key-switch orders at coarser strides")]
UNITS["C05"] += [U("c05_" + c, "c05.cpp", c, defs=["VP_STRIDE=%d" % st], bounds="as above, strided" if c == "tiny_k2" else None) for c, st in (("tiny_k2", 11), ("tiny_tern", 9), ("tiny_tern_cmux", 9), ("tiny_n4", 25), ("tiny_bundle", 9), ("tiny_bundle_k2", 19), ("tiny_opt", 17), ("tiny_cb", 11))]
UNITS["C05"] += [U("c05_tiny_rs", "c05.cpp", "tiny_rs", thorough_only=True)]
UNITS["C05"] += [U("c05_rain_cb27", "c05.cpp", "tiny_cb27", cxx="clang++", omp=False, defs=["VP_RAINTT"])]
