#!/usr/bin/env python3
"""dbg.py PROP HARNESS [extra cbmc args]: build and show the phases of one harness"""
import sys, subprocess, os
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from vf import engine as E
ctx = E.Ctx(sys.argv[1], 'quick')
h = [h for h in E.load_spec(sys.argv[1]).HARNESSES if h['name'] == sys.argv[2]][0]
H = E.Harness(ctx, h); H.build(); H.loop_names = H.loops()
cmd = ["timeout", os.environ.get("T", "100"), "cbmc", H.goto, "--verbosity", "9", "--timestamp", "monotonic"] + H.flags() + sys.argv[3:]
print(" ".join(cmd)[:3000])
p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
open("/tmp/dbg.out", "w").write(p.stdout)
import re
for l in p.stdout.splitlines():
    if re.search(r"Runtime|Postproc|VERIF|variables|VCC|FAILURE|slicing", l): print(l[:300])
print(H.extra_srcs); ctx.cleanup()
