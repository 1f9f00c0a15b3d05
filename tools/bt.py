#!/usr/bin/env python3
"""dev: build an engine A binary: bt.py NAME [nonet] scen..."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vbuild
t = time.time()
a = sys.argv[1:]
net = True
if "nonet" in a: net = False; a.remove("nonet")
pb = "pb" in a
if pb: a.remove("pb")
extra = [x for x in a if x.startswith("-D")]
a = [x for x in a if not x.startswith("-D")]
try: print(vbuild.build_a(a[0], a[1:], net, extra, pb), "%.1fs" % (time.time() - t))
except vbuild.BuildError as e: print(e); sys.exit(1)
