#!/usr/bin/env python3
"""dev: build an engine B binary: bb.py NAME [nokanon|net] srcs... [-- extra flags]"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vbuild
t = time.time()
a = sys.argv[1:]; extra = []
if "--" in a: extra = a[a.index("--") + 1:]; a = a[:a.index("--")]
kw = {}
for x in [x for x in a if x.startswith("-Wl,")]: a.remove(x); kw.setdefault("ld", []).append(x)
if "nokanon" in a: a.remove("nokanon"); kw["kanon"] = False
if "net" in a: a.remove("net"); kw["net"] = True
if "pb" in a: a.remove("pb"); kw["pb"] = True
try: print(vbuild.build_b(a[0], ["enumer.cc"] + a[1:], extra, **kw), "%.1fs" % (time.time() - t))
except vbuild.BuildError as e: print(e); sys.exit(1)
