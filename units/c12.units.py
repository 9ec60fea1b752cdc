UNITS["C12"] = [U("c12_" + c, "c12.cpp", c, bounds="all exponents 0..2N, all odd automorphism indices, all extraction indices, three polynomials with pairwise different coefficients" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_rs", "real", "concrete", "tfhers", "compress", "cggi16")]
