UNITS["C22"] = [U("c22_" + c, "c22.cpp", c, src=["key.cpp"], defs=d,
                  bounds="real dimensions: 10 gates x 4 rows x 5 splits of the largest output error x both orders, 100 ordered gate pairs, MUX/NMUX x 8 rows x 5 splits, at two or three level pairs" if c == "real" else None)
                for c, d in (("real", ["VP_LVLH", "VP_LVL2"]), ("cggi16", []), ("cggi19", []), ("concrete", ["VP_LVL2"]), ("tfhers", ["VP_LVL2"]),
                             ("ternary", ["VP_LVL2"]), ("compress", ["VP_LVL2"]), ("bundle", ["VP_LVL2"]), ("realopt", []))]
