UNITS["C16"] = [U("c16_" + c, "c16.cpp", c, bounds="N=32: every address of RAMs of 2..5 bits and of packed ROMs (1 to nbit address bits within the polynomial) x 3 contents (thorough 6) x edge keys; every address of a 512-row RAM, read and written, rows at Hamming distance up to 1 and every 67th other (thorough all 512 x 512 and 1024 x 1024); every history of {read, write, copy} x address of depth 3 at 4 cells and depth 2 at 8 cells (thorough 4 and 3)" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_tern_cmux", "tiny_opt")]
