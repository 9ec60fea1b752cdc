UNITS["C08"] = [U("c08_real", "c08.cpp", "real", opt="-O3", defs=["VP_ALL"], bounds="32-bit levels: every 2^32 word (default set) or every value of the kept digits x edge remainders; 64-bit levels: all combinations of 6 edge digits per position x 6 edge remainders, every value of every single digit; with every rounding-bit pattern")]
UNITS["C08"] += [U("c08_" + c, "c08.cpp", c, opt="-O3") for c in ("concrete", "tfhers", "cggi16", "cggi19", "compress", "tiny", "tiny_opt", "tiny_rs")]
UNITS["C08"] += [U("c08_realopt", "c08.cpp", "realopt", opt="-O3", defs=["VP_ALL"])]
