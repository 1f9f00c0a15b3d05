#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is there; builds every engine once."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vbuild, checks
done = set()
for p, parts in checks.PARTS.items():
    for eng, name, srcs, opt in parts:
        if name in done: continue
        done.add(name)
        print((vbuild.build_a if eng == "a" else vbuild.build_b)(name, srcs, **opt))
