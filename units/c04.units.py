UNITS["C04"] = [U("c04_" + c, "c04.cpp", c, src=["key.cpp", "gate.cpp"], bounds="n0=2, N=32: every multiplexer form and level combination x 8 rows x 15 splits of the margin x 24 mask families x aliasing x all domain keys" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_tern", "tiny_bundle", "tiny_nh")]
