UNITS["C20"] = [U("c20_" + c, "c20.cpp", c, src=["key.cpp"], **({} if c.startswith("tiny") else {"workers": 2}),
                  bounds="every draw of an object (at most the stated number per object in quick) moved in several bits; mask coefficients driven over sixteen parts of their range; 512x512 grid (thorough 2048x2048) of answers for the Gaussian sampler; every bit of 8+ draws for the binomial one; every draw of a secret key over a 48-point grid" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_cb", "tiny_bundle", "tiny_tern", "real", "compress", "ternary")]
UNITS["C20"] += [U("c20_sub", "c20.cpp", "tiny_sub", src=["key.cpp"], defs=["VP_SUBKEY"])]
UNITS["C20"] += [U("c20_randen", "c20r.cpp", "real", src=["key.cpp"], real_randen=True, workers=1)]
