UNITS["C18"] = [U("c18_" + c, "c18.cpp", c, src=["key.cpp"], **({"workers": 4} if not c.startswith("bfv") else {}),
                  bounds="N=32, plaintext modulus 8: every pair of monomial positions x 4 value pairs (thorough: all 64), 120 dense pairs x 5 noise edges; every LWE plaintext pair x 16 mask families; edge keys" if c == "bfv_tiny" else None)
                for c in ("bfv_tiny", "bfv_bin", "real", "cggi19")]
