UNITS["C15"] = [U("c15_" + c, "c15.cpp", c, bounds="n0=2, N1=32, N2=128: every variant x both bits x 5 phases up to the edge of the margin x 8 mask families x all domain keys x edge target keys; all rows, columns and coefficients" if c == "cb_tiny" else None)
                for c in ("cb_tiny", "cb_k2", "cb_tern", "cb_bundle")]
