_A = ["-fsanitize=address,alignment,null,return", "-fno-sanitize-recover=all", "-g1"]
UNITS["C23"] = [U("c23_" + c, "c23.cpp", c, src=["key.cpp", "gate.cpp"], opt="-O1", env={"ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:abort_on_error=1:detect_stack_use_after_return=0:handle_abort=1", "UBSAN_OPTIONS": "print_stacktrace=1"}, cflags=_A, libflags=_A, ldflags=_A, tag="asan",
                  bounds="every public operation: each operand at every address offset its type admits within 64 bytes with the others aligned, all operands at every common offset (thorough: every pair of offsets), over 3 (thorough 4) earlier contents of results and surroundings; red zones around every operand, key and buffer" if c == "tiny" else None)
                for c in ("tiny", "tiny_k2", "tiny_cb", "tiny_bundle", "tiny_tern")]
UNITS["C23"] += [U("c23_" + c, "c23.cpp", c, src=["key.cpp", "gate.cpp"], opt="-O1", env=UNITS["C23"][0]["env"], cflags=_A, libflags=_A, ldflags=_A, tag="asan", workers=3,
                   bounds="shipped dimensions: gates, bootstrapping, ring operations" if c == "real" else None) for c in ("real", "compress")]
