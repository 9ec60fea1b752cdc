UNITS["C06"] = [U("c06_" + c, "c06.cpp", c, bounds="every coordinate x every value of each digit x carry-boundary neighbours x rounding-boundary low bits x edge keys (thorough: every word of the kept digits)" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_cb", "tiny_rs", "tiny_sub")]
UNITS["C06"] += [U("c06_" + c, "c06.cpp", c, workers=1, bounds="shipped dimensions: all coordinates at digit edges at once, rotated" if c == "real" else None)
                for c in ("real", "concrete", "tfhers", "compress")]
