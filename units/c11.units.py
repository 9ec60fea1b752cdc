UNITS["C11"] = [U("c11_gcc", "c11.cpp", "real", bounds="all pairs of ~400 boundary operands (thorough ~800), all shifts 0..191 and the operations that consume their results, exponents 0..69, all bit reversals up to 14 bits; reduced field: boundary pairs, all residues (stride 64 quick) x 5 constants"),
                U("c11_clang", "c11.cpp", "real", cxx="clang++", omp=False),
                U("c11_clang27", "c11.cpp", "compress", cxx="clang++", omp=False)]
