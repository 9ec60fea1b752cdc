_W = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free", "memcpy", "memmove", "memset", "fft", "ifft",
      "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "sched_yield", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast"))]
_T = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-DVF_RNG_OBJECT"]
UNITS["C14"] = [U("c14_" + c, "c14.cpp", c, src=["key.cpp", "gate.cpp"], opt="-O1", cflags=_T, libflags=_T, ldflags=_W, extra_src=["c14rt.cpp"], tag="sched",
                  bounds="29 groups of operations (every public operation): all pairs, 58 triples and parallel regions of 2-3 threads, cold and warm; all start orders, all schedules with one preemption (and pairs within the budget) at accesses to words shared with a writer" if c == "tiny" else None)
                for c in ("tiny", "tiny_bundle", "tiny_cb")]
