UNITS["C19"] = [U("c19_" + c, "c19.cpp", c, src=["key.cpp"], **({"workers": 2} if c == "real" else {}),
                  bounds="digit widths 1-4, 1 to 32 digits: every value up to 8 bits (thorough 12), else every digit value x carry boundary below it x rest patterns; noise at both edges of the lowest digit; mask families; N1=128" if c == "hd_tiny" else None)
                for c in ("hd_tiny", "real")]
