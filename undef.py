#!/usr/bin/env python3
"""undef.py PROP HARNESS: undefined functions after linking the listed sources, and where they are defined"""
import sys
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from vf import engine as E
ctx = E.Ctx(sys.argv[1], 'quick')
h = [h for h in E.load_spec(sys.argv[1]).HARNESSES if h['name'] == sys.argv[2]][0]
H = E.Harness(ctx, dict(h, autolink=False)); H.build()
rc, o, e, _ = E.run(["goto-instrument", "--list-undefined-functions", H.goto])
rc, g, e, _ = E.run(["goto-instrument", "--reachable-call-graph", H.goto])
import re
callers = {}
for l in g.splitlines():
    m = re.match(r"^\s*(\S+) -> (\S+)\s*$", l)
    if m: callers.setdefault(m.group(2), set()).add(m.group(1))
for f in o.split():
    if f not in callers or f.startswith('__CPROVER'): continue
    print(f, E.func_index().get(f), sorted(callers.get(f, []))[:4])
ctx.cleanup()
