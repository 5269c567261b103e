"""Solver-based checking driver: goto-cc -> CBMC (SAT/SMT) -> native replay of counterexamples.

A property's spec (props/<ID>/spec.py) lists harnesses.  For each harness the driver compiles the named
/repo sources with goto-cc (same macros and include path as the real build), links them with the harness,
unwinds every loop to a bound (with unwinding assertions, escalated automatically when a bound is too small),
and has the solver decide every assertion.  A counterexample is replayed on a native gcc build of the same
sources and reported only when it reproduces.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, glob, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
QUICK_S = int(os.environ.get("VERIF_QUICK_S", "680"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

BIG = 1000000


class Inconclusive(Exception):
    pass


def _macros():
    return [l.strip() for l in open(f"{VERIF}/config/macros.txt") if l.strip()]


def _include_dirs():
    secs, cur = {}, None
    for l in open(f"{VERIF}/config/include_dirs.txt"):
        l = l.strip()
        if l.startswith("#"):
            cur = l[1:].strip()
            secs[cur] = []
        elif l:
            secs[cur].append(l)
    return secs


MACROS = _macros()
INC = _include_dirs()


def inc_flags(src_rel):
    top = src_rel.split("/")[0] if src_rel else ""
    order = ([top] if top in INC else []) + [k for k in INC if k != top]
    seen, out = set(), []
    for k in order:
        for d in INC[k]:
            if d not in seen:
                seen.add(d)
                out.append("-I%s" % os.path.join(REPO, d))
    return out


def run(cmd, timeout=None, mem_gb=None, cwd=None, env=None):
    """Run and capture; returns (rc, stdout, stderr, secs); rc None on timeout."""
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd,
                         preexec_fn=lim, env=env, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout", time.time() - t0


# ---------------------------------------------------------------- source index (for auto-linking)
_index = None
_index_lock = threading.Lock()


def func_index():
    """function name -> source file, over the sources of the real build (by definition at column 0)."""
    global _index
    with _index_lock:
        if _index is None:
            idx = {}
            pat = re.compile(r"^(?!static\b|typedef\b|#|return\b|else\b)[A-Za-z_][\w \*]*?[\s\*]([A-Za-z_]\w*)\s*\([^;]*?\)\s*\{",
                             re.M | re.S)
            srcs = [l.strip() for l in open(f"{VERIF}/config/sources.txt") if l.strip().endswith(".c")]
            for s in srcs:
                p = os.path.join(REPO, s)
                if not os.path.exists(p):
                    continue
                txt = open(p, errors="replace").read()
                for m in pat.finditer(txt):
                    idx.setdefault(m.group(1), s)
            _index = idx
        return _index


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.born = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vf_{prop}_", dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.cache, self.lock = {}, threading.Lock()

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)

    def compile(self, path, rel, defs, native=None):
        """compile one source; goto (native None) or native with the given extra flags"""
        key = (path, tuple(defs), native)
        with self.lock:
            ev = self.cache.get(key)
            mine = ev is None
            if mine:
                ev = self.cache[key] = {"ev": threading.Event(), "out": None, "err": None}
        if not mine:
            ev["ev"].wait()
            if ev["err"]:
                raise Inconclusive(ev["err"])
            return ev["out"]
        try:
            out = os.path.join(self.work, "%s_%d.o" % (re.sub(r"\W", "_", rel or os.path.basename(path)),
                                                       abs(hash(key)) % (1 << 48)))
            base = ["-c", path, "-o", out, "-std=gnu11", "-w", "-D__FILENAME__=__FILE__", f"-I{VERIF}/common",
                    "-I" + os.path.dirname(path)]
            base += MACROS + ["-D" + d if not d.startswith("-") else d for d in defs] + inc_flags(rel)
            if native is None:
                cmd = ["goto-cc", "-DVF_CBMC"] + base
            else:
                cmd = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections",
                       "-fno-builtin-memcpy"] + list(native) + base
            rc, o, e, _ = run(cmd, timeout=300)
            if rc != 0:
                ev["err"] = "compile failed: %s\n%s" % (path, (o + e)[-3000:])
                raise Inconclusive(ev["err"])
            ev["out"] = out
            return out
        finally:
            ev["ev"].set()


def asset(prop, name):
    for d in (f"{VERIF}/props/{prop}", f"{VERIF}/common"):
        p = os.path.join(d, name)
        if os.path.exists(p):
            return p
    raise Inconclusive("missing asset " + name)


DEFAULT_UW = [(r"^nd_bytes$|^v_eq$|^v_copy$|^v_const", BIG)]


class Harness:
    def __init__(self, ctx, h):
        self.ctx, self.h = ctx, h
        self.name = h["name"]
        self.prop = h.get("home", ctx.prop)
        self.entry = h.get("entry", "harness")
        self.srcs = list(h.get("srcs", []))
        self.extra_srcs = []
        self.info = {"harness": self.name, "bounds": h.get("bounds", ""), "queries": 0, "solver_s": 0.0}
        self.bump = {}
        self.dir = os.path.join(ctx.work, self.name)
        os.makedirs(self.dir, exist_ok=True)

    # -- build
    def units(self):
        h = self.h
        lst = [(asset(self.prop, h.get("c", self.name + ".c")), "", h.get("defs", []))]
        if not h.get("no_vlib"):
            lst.append((f"{VERIF}/common/vlib.c", "", h.get("vlib_defs", [])))
        for s in h.get("stubs", []):
            lst.append((asset(self.prop, s), "", h.get("defs", [])))
        for s in self.srcs + self.extra_srcs:
            sdefs = h.get("src_defs", [])
            lst.append((os.path.join(REPO, s), s, sdefs))
        return lst

    def build(self, depth=0):
        objs = [self.ctx.compile(p, rel, list(d)) for p, rel, d in self.units()]
        out = os.path.join(self.dir, "prog.goto")
        rc, o, e, _ = run(["goto-cc", "-o", out, "--function", self.entry] + objs, timeout=300)
        if rc != 0:
            raise Inconclusive("link failed: " + (o + e)[-3000:])
        for f in self.h.get("remove", []):
            rc, o, e, _ = run(["goto-instrument", "--remove-function-body", f, out, out], timeout=300)
        if self.h.get("replace"):
            cmd = ["goto-instrument"]
            for a, b in self.h["replace"].items():
                cmd += ["--replace-calls", f"{a}:{b}"]
            rc, o, e, _ = run(cmd + [out, out], timeout=300)
            if rc != 0:
                raise Inconclusive("replace-calls failed: " + (o + e)[-2000:])
        out2 = os.path.join(self.dir, "prog2.goto")
        rc, o, e, _ = run(["goto-instrument", "--drop-unused-functions", out, out2], timeout=300)
        self.goto = out2 if rc == 0 else out
        # link the sources that define what is still undefined, before the first solver run
        if self.h.get("autolink", True) and depth < 8:
            rc, o, e, _ = run(["goto-instrument", "--list-undefined-functions", self.goto], timeout=300)
            add, called = [], set(self.functions())
            for fn in o.split():
                if fn not in called:
                    continue
                src = func_index().get(fn)
                if src and src not in self.srcs + self.extra_srcs + add and fn not in self.h.get("havoc", []):
                    add.append(src)
            if add:
                self.extra_srcs += add
                self.info["auto_linked"] = list(self.extra_srcs)
                return self.build(depth + 1)
        return self.goto

    def loops(self):
        rc, o, e, _ = run(["cbmc", "--json-ui", "--show-loops", self.goto], timeout=300)
        res = []
        try:
            for it in json.loads(o):
                for l in it.get("loops", []) if isinstance(it, dict) else []:
                    res.append(l["name"])
        except Exception:
            raise Inconclusive("cannot list loops: " + (o + e)[-1000:])
        return res

    def functions(self):
        rc, o, e, _ = run(["goto-instrument", "--reachable-call-graph", self.goto], timeout=300)
        fs = set()
        for l in o.splitlines():
            m = re.match(r"^\s*(\S+) -> (\S+)\s*$", l)
            if m:
                fs.update(m.groups())
        return sorted(f for f in fs if not f.startswith("__CPROVER") and not f.startswith("nondet_"))

    def flags(self, trace=False):
        h = self.h
        fl = ["--no-malloc-may-fail", "--object-bits", str(h.get("object_bits", 10) + (3 if trace else 0)), "--unwinding-assertions"]
        if h.get("slice", True) and not trace:
            fl.append("--slice-formula")
        solver = h.get("solver", "minisat")
        if solver in ("z3", "cvc5"):
            fl.append("--" + solver)
        elif solver == "kissat":
            fl += ["--external-sat-solver", "kissat"]
        elif solver == "cadical":
            fl += ["--sat-solver", "cadical"]
        fl += h.get("flags", [])
        uw = list(h.get("uw", {}).items()) + DEFAULT_UW
        dflt = h.get("unwind", 10)
        sets = []
        for l in self.loop_names:
            fn = l.rsplit(".", 1)[0]
            b = dflt
            for pat, n in uw:
                if re.search(pat, fn) or pat == l:
                    b = n
                    break
            b = self.bump.get(l, b)
            if b != dflt:
                sets.append(f"{l}:{b}")
        fl += ["--unwind", str(self.bump.get("*", dflt))]
        if sets:
            fl += ["--unwindset", ",".join(sets)]
        return fl

    def cbmc(self, extra, timeout, trace=False):
        cmd = ["cbmc", self.goto, "--json-ui", "--verbosity", "8"] + self.flags(trace) + extra
        self.last_cmd = " ".join(cmd)
        rc, o, e, secs = run(cmd, timeout=timeout, mem_gb=self.h.get("mem_gb", 24))
        if rc is None:
            raise Inconclusive(f"solver timeout after {timeout}s in {self.name}")
        try:
            data = json.loads(o)
        except Exception:
            raise Inconclusive(f"cbmc output unreadable rc={rc}: " + (o[-1500:] + e[-500:]))
        res, msgs = None, []
        for it in data:
            if "result" in it:
                res = it["result"]
            if "messageText" in it:
                msgs.append(it["messageText"])
                m = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", it["messageText"])
                if m:
                    self.info["solver_s"] += float(m.group(1))
                m = re.search(r"Runtime Solver: ([\d.e+-]+)s", it["messageText"])
                if m:
                    self.info["queries"] += 1
                m = re.search(r"(\d+) variables, (\d+) clauses", it["messageText"])
                if m:
                    self.info["cnf"] = [int(m.group(1)), int(m.group(2))]
        if res is None or rc not in (0, 10):
            raise Inconclusive(f"cbmc gave no result rc={rc} in {self.name}: " + " | ".join(msgs[-6:]))
        return res, msgs

    # -- decide
    def check(self):
        t0 = time.time()
        h = self.h
        timeout = h.get("timeout", 120)
        self.build()
        self.loop_names = self.loops()
        deadline = t0 + timeout * 1.6 + 60
        for rnd in range(14):
            left = max(20, min(timeout, deadline - time.time()))
            if self.ctx.tier == "quick":  # a slower harness may use what is left of the check's time
                left = max(left, self.ctx.born + QUICK_S - time.time())
            res, msgs = self.cbmc([], left)
            bad = [r for r in res if r["status"] == "FAILURE" and not r["description"].startswith("WITNESS")]
            unk = [r for r in res if r["status"] not in ("FAILURE", "SUCCESS")]
            nobody = [r for r in bad if ".no-body." in r["property"]]
            unw = [r for r in bad if ".unwind." in r["property"] or ".recursion" in r["property"]]
            rest = [r for r in bad if r not in nobody and r not in unw]
            if unk and not bad:
                raise Inconclusive(f"{self.name}: {len(unk)} properties undecided")
            if nobody:
                added = False
                for r in nobody:
                    fn = r["property"].split(".no-body.")[1].split(".")[0]
                    src = func_index().get(fn)
                    if src and src not in self.srcs + self.extra_srcs and fn not in h.get("havoc", []):
                        self.extra_srcs.append(src)
                        added = True
                if added:
                    self.info.setdefault("auto_linked", []).extend(
                        s for s in self.extra_srcs if s not in self.info.get("auto_linked", []))
                    self.build()
                    self.loop_names = self.loops()
                    continue
                left_nb = [r["property"].split(".no-body.")[1] for r in nobody
                           if r["property"].split(".no-body.")[1].split(".")[0] not in h.get("havoc", [])]
                if left_nb and not rest:
                    raise Inconclusive(f"{self.name}: calls without a body: {sorted(set(left_nb))}")
            if rest:
                v = self.confirm(rest, max(120, timeout))
                if v:
                    self.info["wall_s"] = round(time.time() - t0, 2)
                    return v
                raise Inconclusive(f"{self.name}: counterexample(s) did not reproduce natively: "
                                   + "; ".join(self.info.get("unreproduced", [])))
            if unw:
                for r in unw:
                    lid = r["property"].replace(".unwind.", ".")
                    if ".recursion" in r["property"]:
                        raise Inconclusive(f"{self.name}: recursion bound exceeded {r['property']}")
                    cur = self.cur_bound(lid)
                    if cur >= h.get("unwind_max", 4096):
                        raise Inconclusive(f"{self.name}: unwinding bound {cur} still too small for {lid}")
                    self.bump[lid] = cur * 2 if cur > 3 else cur + 3
                continue
            break
        else:
            raise Inconclusive(f"{self.name}: no verdict after 14 rounds")
        wit = [r for r in res if r["description"].startswith("WITNESS")]
        dead = [r["description"] for r in wit if r["status"] != "FAILURE"]
        if dead:
            raise Inconclusive(f"{self.name}: vacuous, witness unreachable: {dead}")
        if not wit and not h.get("no_witness"):
            raise Inconclusive(f"{self.name}: harness has no witness")
        user = [r for r in res if r["description"].startswith("V: ")]
        if not user and not h.get("safety_only"):
            raise Inconclusive(f"{self.name}: harness has no assertion")
        self.info.update({
            "obligations": len(res) - len(wit), "discharged": sum(1 for r in res if r["status"] == "SUCCESS"),
            "assertions": sorted({r["description"][3:] for r in user}), "witnesses": len(wit),
            "safety_obligations": len(res) - len(wit) - len(user),
            "functions": self.functions(), "unwind": {"default": h.get("unwind", 10), **{k: v for k, v in h.get("uw", {}).items()},
                                                      **{"escalated:" + k: v for k, v in self.bump.items()}},
            "sources": self.srcs + self.extra_srcs, "wall_s": round(time.time() - t0, 2),
            "solver": h.get("solver", "minisat"), "solver_s": round(self.info["solver_s"], 3)})
        return None

    def cur_bound(self, lid):
        if lid in self.bump:
            return self.bump[lid]
        fn = lid.rsplit(".", 1)[0]
        for pat, n in list(self.h.get("uw", {}).items()) + DEFAULT_UW:
            if re.search(pat, fn) or pat == lid:
                return n
        return self.h.get("unwind", 10)

    # -- counterexample handling
    def confirm(self, rest, timeout):
        rest = sorted(rest, key=lambda r: 0 if r["description"].startswith("V: ") else 1)
        t0 = time.time()
        for r in rest[:5]:
            if time.time() - t0 > 420:
                break
            if self.ctx.tier == "quick":
                timeout = min(timeout, max(40, self.ctx.born + 850 - time.time()))
            try:
                try:
                    res, _ = self.cbmc(["--property", r["property"], "--trace"], min(timeout, 300), trace=True)
                except Inconclusive as ex:
                    if "too large for flattening" not in str(ex):
                        raise
                    # values that cannot influence the property are then absent from the trace and read as zero
                    res, _ = self.cbmc(["--property", r["property"], "--trace", "--slice-formula"], min(timeout, 300), trace=True)
            except Inconclusive as ex:
                self.info.setdefault("unreproduced", []).append(f"{r['property']}: {str(ex)[:300]}")
                continue
            tr = [x for x in res if x["property"] == r["property"] and x["status"] == "FAILURE"]
            if not tr or "trace" not in tr[0]:
                continue
            vals = self.inputs(tr[0]["trace"])
            ok, how, path = self.replay(r, vals)
            if ok:
                return {"harness": self.name, "property": r["property"], "description": r["description"],
                        "location": r.get("sourceLocation", {}), "how": how, "replay": path, "inputs": vals[:400]}
            self.info.setdefault("unreproduced", []).append(f"{r['property']} [{r['description']}]: {how}")
        return None

    @staticmethod
    def inputs(trace):
        """the values returned by nd8/nd16/nd32/nd64, in call order (a declaration step may precede the assignment)"""
        vals = []
        for st in trace:
            if st.get("stepType") == "function-call" and \
                    re.match(r"^nd(8|16|32|64)$", str(st.get("function", {}).get("displayName", ""))):
                vals.append(0)
            elif st.get("stepType") == "assignment" and st.get("lhs") == "v_nd_value" and vals:
                v = st.get("value", {})
                if "binary" in v:
                    vals[-1] = int(v["binary"], 2)
                else:
                    try:
                        vals[-1] = int(re.sub(r"[uUlL]+$", "", v.get("data", "0")))
                    except ValueError:
                        pass
        return vals

    def native(self, san):
        objs = [self.ctx.compile(p, rel, list(d), native=tuple(san)) for p, rel, d in self.units()]
        drv = self.ctx.compile(f"{VERIF}/common/vnative.c", "", ["V_ENTRY=" + self.entry], native=tuple(san))
        exe = os.path.join(self.dir, "replay.bin")
        repl = []
        if self.h.get("replace") or self.h.get("remove"):
            # same substitution natively: rename calls through the linker
            for a, b in self.h.get("replace", {}).items():
                for i, ob in enumerate(objs):
                    ob2 = os.path.join(self.dir, "r%d.o" % i)
                    if ob != ob2:
                        shutil.copy(ob, ob2)
                        objs[i] = ob2
                    run(["objcopy", "--redefine-sym", f"{a}={b}", ob2]) if not self._defines(ob2, b) else None
        stub = None
        for _ in range(3):
            cmd = ["gcc", "-o", exe, *san, "-Wl,--gc-sections", "-Wl,--allow-multiple-definition", drv] + objs
            if stub:
                cmd.append(stub)
            cmd += ["-lpthread", "-ldl", "-lm"]
            rc, o, e, _ = run(cmd, timeout=300)
            if rc == 0:
                return exe
            und = sorted(set(re.findall(r"undefined reference to [`'‘](\w+)['’]", o + e)))
            if not und:
                raise Inconclusive("native link failed: " + (o + e)[-2000:])
            sc = os.path.join(self.dir, "undef.c")
            mode = "a" if stub else "w"
            with open(sc, mode) as f:
                if not stub:
                    f.write("#include <stdio.h>\n#include <stdlib.h>\n")
                for u in und:
                    f.write('void %s(void){printf("REPLAY-NOBODY %s\\n");fflush(stdout);_Exit(78);}\n' % (u, u))
            so = os.path.join(self.dir, "undef.o")
            run(["gcc", "-w", "-fno-builtin", "-c", sc, "-o", so])
            stub = so
        raise Inconclusive("native link failed")

    def _defines(self, obj, sym):
        rc, o, e, _ = run(["nm", "--defined-only", obj])
        return re.search(r"\b[TtWw] %s$" % re.escape(sym), o, re.M) is not None

    def replay(self, r, vals):
        d = r["description"]
        san = ["-fsanitize=address"]
        if re.search(r"overflow", d) and "pointer" not in d:
            san = ["-fsanitize=address,signed-integer-overflow", "-fno-sanitize-recover=all"]
        elif "shift" in d:
            san = ["-fsanitize=address,shift", "-fno-sanitize-recover=all"]
        elif "division by zero" in d:
            san = ["-fsanitize=address,integer-divide-by-zero", "-fno-sanitize-recover=all"]
        elif re.search(r"bound", d):
            san = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
        try:
            exe = self.native(san)
        except Inconclusive as ex:
            return False, str(ex)[-1500:], None
        out = os.path.join(VERIF, "evidence", "replay", self.ctx.prop, self.name)
        os.makedirs(out, exist_ok=True)
        inp = os.path.join(out, "input.txt")
        with open(inp, "w") as f:
            f.write("".join("%d\n" % v for v in vals))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
        rc, o, e, _ = run([exe, inp], timeout=60, env=env, cwd=self.dir)
        txt = (o + e)
        with open(os.path.join(out, "replay.log"), "w") as f:
            f.write(f"property: {r['property']}\ndescription: {d}\nlocation: {json.dumps(r.get('sourceLocation', {}))}\n"
                    f"rc: {rc}\n{txt[-20000:]}\n")
        shutil.copy(exe, os.path.join(out, "replay.bin"))
        if rc == 42 or "REPLAY-FAIL" in o:
            return True, [l for l in o.splitlines() if l.startswith("REPLAY-FAIL")][0], inp
        if "AddressSanitizer" in txt and "REPLAY-NOBODY" not in txt:
            m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", txt)
            return True, "AddressSanitizer: " + (m.group(1)[:200] if m else ""), inp
        if "runtime error:" in txt:
            return True, re.search(r"[^\n]*runtime error:[^\n]*", txt).group(0)[:300], inp
        if rc is not None and rc < 0:
            return True, f"killed by signal {-rc}", inp
        if rc is None:
            return True, "does not terminate (60 s)", inp
        return False, f"rc={rc} " + txt[-300:], None


def load_spec(prop):
    import importlib.util
    p = f"{VERIF}/props/{prop}/spec.py"
    spec = importlib.util.spec_from_file_location("spec_" + prop, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known_findings():
    p = f"{VERIF}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def check_property(prop, tier, only=None, verbose=False):
    t0 = time.time()
    spec = load_spec(prop)
    ctx = Ctx(prop, tier)
    hs = [h for h in spec.HARNESSES if tier == "thorough" or h.get("tier", "quick") == "quick"]
    if tier == "thorough":
        hs = [dict(h, **h.get("thorough", {})) for h in hs]
    if only:
        hs = [h for h in hs if re.search(only, h["name"])]
    infos, errors, viols = [], [], []

    def one(h):
        H = Harness(ctx, h)
        try:
            if "fn" in h:
                v = h["fn"](H)
            else:
                v = H.check()
            return H.info, v, None
        except Inconclusive as ex:
            return H.info, None, str(ex)
        except Exception as ex:  # noqa
            import traceback
            return H.info, None, "internal error: " + traceback.format_exc()[-2000:]

    try:
        hs.sort(key=lambda h: -h.get("cost", 1))
        with cf.ThreadPoolExecutor(max_workers=min(JOBS, getattr(spec, "JOBS", JOBS))) as ex:
            for info, v, err in ex.map(one, hs):
                infos.append(info)
                if err:
                    errors.append((info["harness"], err))
                if v:
                    viols.append(v)
                if verbose:
                    print(f"  [{info['harness']}] {'VIOLATED' if v else 'ERROR' if err else 'ok'} "
                          f"wall={info.get('wall_s')} solver={info.get('solver_s')} obligations={info.get('obligations')} "
                          f"cnf={info.get('cnf')} {info.get('auto_linked','')} {[k for k in info.get('unwind', {}) if 'escal' in k]}", flush=True)
    finally:
        ctx.cleanup()
    kf = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "open"]
    real, known = [], []
    for v in viols:
        hit = [k for k in kf if k["harness"] == v["harness"] and re.search(k["match"], v["description"])]
        (known if hit else real).append((v, hit[0] if hit else None))
    wall = time.time() - t0
    funcs = sorted({f for i in infos for f in i.get("functions", [])})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": getattr(spec, "EXPLANATION", "Bounded symbolic execution of the real C functions (goto-cc + CBMC); "
                           "each obligation is decided by the solver for every input value within the bounds listed per harness; "
                           "unwinding assertions prove the loop bounds sufficient."),
            "obligations": sum(i.get("obligations", 0) for i in infos),
            "discharged": sum(i.get("discharged", 0) for i in infos),
            "solver_queries": sum(i.get("queries", 0) for i in infos),
            "solver_s": round(sum(i.get("solver_s", 0) for i in infos), 2),
            "functions_encoded": len(funcs),
            "functions": funcs,
            "checker_cmd": f"python3 check.py {prop} {tier}",
            "trusted_base": ["CBMC 6.11 front end, symbolic execution and bit-vector encoding", "the SAT/SMT solver named per harness",
                             "the stubs and assumptions listed under assumptions"],
            "harnesses": infos,
            "outside": getattr(spec, "OUTSIDE", ""),
        },
        "assumptions": getattr(spec, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(real),
    }
    if errors:
        ev["coverage"]["errors"] = [f"{a}: {b[:500]}" for a, b in errors]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for v, k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v, _ in real:
        print(f"VIOLATION property={prop} replay={v['replay']}")
        print(f"  harness {v['harness']}: {v['description']} -- replay: {v['how']}")
        print(f"  at {json.dumps(v['location'])}")
    for a, b in errors:
        print(f"ERROR {a}: {b}")
    if real:
        return 1
    if errors:
        return 2
    print(f"OK property={prop} tier={tier} harnesses={len(infos)} obligations={ev['coverage']['obligations']} "
          f"discharged={ev['coverage']['discharged']} solver_s={ev['coverage']['solver_s']} wall_s={ev['wall_s']}")
    return 0
