#!/usr/bin/env python3
"""Toolchain sanity: the compilers the checks use are present and work."""
import os, subprocess, sys, tempfile
d = tempfile.mkdtemp(prefix="vf_setup_")
try:
    s = os.path.join(d, "a.cpp")
    open(s, "w").write("#include <cstdint>\nint main(){return 0;}\n")
    for cxx in ("g++", "clang++"):
        subprocess.run([cxx, "-std=c++20", "-march=x86-64-v3", "-maes", s, "-o", os.path.join(d, "a")], check=True)
finally:
    import shutil
    shutil.rmtree(d)
print("setup ok")
