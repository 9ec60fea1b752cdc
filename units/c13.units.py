UNITS["C13"] = [U("c13_" + c, "c13.cpp", c, opt="-O1", cflags=["-DVP_SER"], bounds="N=16..32: 25 object types x 3 fillings; all EvalKey component subsets with <=2 present or <=2 absent (thorough <=3 present), all IOpacket port subsets; every proper prefix of the small objects and of each single component's ends (every 61st byte in the middle)" if c == "tiny_ser" else None)
                for c in ("tiny_ser", "tiny_ser_k2")]
UNITS["C13"] += [U("c13_rec_" + c, "c13.cpp", c, opt="-O0", workers=1, defs=["VP_RECORDS"], bounds="default parameter records of the shipped sets" if c == "real" else None)
                 for c in ("real", "concrete", "tfhers", "ternary", "compress", "cggi16", "cggi19")]
