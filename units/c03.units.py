UNITS["C03"] = [U("c03_tiny", "c03.cpp", "tiny", bounds="n0=2, N=32: 10 gates x 4 rows x 25 splits of the worst-case margin x 16 mask families x 4 aliasings x both orders x all domain keys; all gate sequences of depth 2 (3 registers, every aliasing) from all 8 states")]
UNITS["C03"] += [U("c03_" + c, "c03.cpp", c) for c in ("tiny_k2", "tiny_tern", "tiny_tern_cmux", "tiny_bundle", "tiny_opt")]
