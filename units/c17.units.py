UNITS["C17"] = [U("c17_" + c, "c17.cpp", c, src=["key.cpp"], **({"workers": 4} if c == "real" else {}),
                  bounds="N=32: every odd automorphism index, every packed count 1..N, every edge key x 6 mask families; trace of 128 message families; every coefficient judged" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "real")]
