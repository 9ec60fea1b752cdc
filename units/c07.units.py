UNITS["C07"] = [U("c07_" + c, "c07.cpp", c, bounds="edge coordinates plus body x every digit value x carry neighbours, all coordinates at digit edges by rotation, 5 functions x edge keys (thorough: every coordinate, key and word of the kept digits)" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_cb", "tiny_sub")]
UNITS["C07"] += [U("c07_tiny_rs", "c07.cpp", "tiny_rs", thorough_only=True)]
UNITS["C07"] += [U("c07_tiny_o3", "c07.cpp", "tiny", opt="-O3"), U("c07_clang", "c07.cpp", "tiny_sub", cxx="clang++", omp=False)]
UNITS["C07"] += [U("c07_real", "c07.cpp", "real", workers=1, bounds="shipped TLWE-to-TRLWE switch: all coordinates at digit edges at once, rotated")]
