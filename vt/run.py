#!/usr/bin/env python3
"""check PROPERTY: discharge every obligation of the property's units on /repo's current source."""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract
from extract import ExtractError
import cuts as CUTS

JOBS = int(os.environ.get("VT_JOBS", "8"))
DEADLINE = float(os.environ.get("VT_DEADLINE", "800"))

class Unit:
    def __init__(self, f, line, kv):
        self.file, self.line = f, line
        self.name = kv["name"]; self.prop = kv["prop"]; self.harness = kv["harness"]
        self.enforce = [x for x in kv.get("enforce", "").split(",") if x]
        self.replace = [x for x in kv.get("replace", "").split(",") if x]
        self.sources = [x for x in kv.get("sources", "").split(",") if x]
        self.unwind = int(kv.get("unwind", "6"))
        self.unwindset = kv.get("unwindset", "")
        self.kind = kv.get("kind", "proved")          # proved | bounded
        self.bound = kv.get("bound", "")
        self.models = [x for x in kv.get("model", "").split(",") if x]
        self.never = [x for x in kv.get("never", "").split(",") if x]
        self.cuts = [x for x in kv.get("cuts", "").split(",") if x]
        self.statics = [x for x in kv.get("statics", "").split(",") if x]
        self.tier = kv.get("tier", "quick")
        self.timeout = int(kv.get("timeout", "400"))
        self.defs = [x for x in kv.get("defs", "").split(",") if x]
        self.finding = kv.get("finding", "")
        self.flags = [x for x in kv.get("flags", "").split(",") if x]
        self.keep = kv.get("keep", "") == "1"   # the models also stand in the bounded and native variants
        self.bunwind = int(kv.get("bunwind", self.unwind))

def load_units(prop):
    units = []
    d = os.path.join(VERIF, "units")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".c"): continue
        p = os.path.join(d, f)
        filekv = {}
        for i, l in enumerate(open(p), 1):
            m = re.match(r"//@file\s+(.*)", l)
            if m: filekv.update(dict(x.split("=", 1) for x in m.group(1).split()))
            m = re.match(r"//@unit\s+(.*)", l)
            if m:
                kv = dict(filekv); kv.update(dict(x.split("=", 1) for x in m.group(1).split()))
                u = Unit(p, i, kv)
                if prop in u.prop.split(","): units.append(u)
    return units

def run(cmd, timeout=300, cwd=None, env=None):
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           cwd=cwd, env=env, errors="replace")
        return r.returncode, r.stdout, r.stderr, time.time() - t0
    except subprocess.TimeoutExpired as e:
        return "timeout", "", "", time.time() - t0

class Error(Exception): pass

class Build:
    """per-check scratch cache of extracted and compiled sources"""
    def __init__(self, scratch):
        self.scratch = scratch; self.cache = {}; self.locks = {}
        import threading
        self.lock = threading.Lock()
    def once(self, key, fn):
        import threading
        with self.lock:
            if key not in self.locks: self.locks[key] = threading.Lock()
            l = self.locks[key]
        with l:
            if key not in self.cache:
                try: self.cache[key] = ("ok", fn())
                except Exception as e: self.cache[key] = ("err", e)
        k, v = self.cache[key]
        if k == "err": raise v
        return v
    def pre(self, path, defs):
        key = ("pre", path, tuple(defs))
        return self.once(key, lambda: extract.union_to_struct(extract.preprocess(path, defs)))
    def src(self, path, statics, cuts):
        key = ("src", path, tuple(sorted(statics)), tuple(sorted(cuts)))
        def go():
            t = self.pre(path, extract.rename_defs())
            for s in statics:
                t = extract.unstatic(t, s)
            notes = []
            decls = ""
            for c in cuts:
                spec = CUTS.CUTS[c]
                if spec["file"] != os.path.basename(path): continue
                t2, why = extract.cut(t, spec.get("function", c), spec)
                if t2 is None: raise CutUnattached(why)
                t = t2; decls += spec.get("decls", "") + "\n"
            t = decls + t
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
            out = os.path.join(self.scratch, os.path.basename(path)[:-2] + "." + h)
            open(out + ".i.c", "w").write(t)
            rc, so, se, _ = run(["goto-cc", "-c", "-o", out + ".gb", out + ".i.c"])
            if rc and decls: raise CutUnattached("the annotated text does not compile: " + (so + se)[-300:].replace("\n", " "))
            if rc: raise Error("goto-cc failed on %s:\n%s" % (path, (so + se)[-3000:]))
            return out + ".gb"
        return self.once(key, go)
    def unit(self, u, bounded):
        models = [] if bounded and not u.keep else ["M_" + m for m in u.models]
        key = ("unit", u.file, bounded, tuple(u.defs), tuple(models))
        def go():
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
            t = extract.union_to_struct(extract.preprocess(u.file, u.defs + models + (["VT_BOUNDED"] if bounded else [])))
            out = os.path.join(self.scratch, "unit." + h)
            open(out + ".i.c", "w").write(t)
            rc, so, se, _ = run(["goto-cc", "-c", "-o", out + ".gb", out + ".i.c"])
            if rc: raise Error("goto-cc failed on %s:\n%s" % (u.file, (so + se)[-3000:]))
            return out + ".gb"
        return self.once(key, go)
    def stubs(self, small=False):
        def go():
            out = os.path.join(self.scratch, "stubs%d.gb" % small)
            rc, so, se, _ = run(["goto-cc", "-c"] + (["-DVT_SMALL"] if small else []) + ["-I" + VERIF + "/c", "-o", out, VERIF + "/c/stubs.c"])
            if rc: raise Error("stubs: " + so + se)
            return out
        return self.once(("stubs", small), go)

class CutUnattached(Exception): pass

def symbols(gb):
    rc, so, se, _ = run(["goto-instrument", "--show-symbol-table", "--json-ui", gb])
    return so

def link(b, u, bounded, srcs, tag, small=False):
    cut = [] if bounded else u.cuts
    gbs = []
    models = (u.models if u.keep else []) if bounded else u.models + u.never
    for s in srcs:
        p = s if os.path.isabs(s) else extract.source_path(s)
        if p is None: raise Error("source %s is gone" % s)
        gb = b.src(p, u.statics, [c for c in cut if CUTS.CUTS[c]["file"] == os.path.basename(p)])
        if models:
            # the unit file defines these functions itself (their contract as a body); verified elsewhere
            o = os.path.join(b.scratch, "%s.%s.m.%s.gb" % (u.name, tag, os.path.basename(p)))
            rc, so, se, _ = run(["goto-instrument"] + sum([["--remove-function-body", m] for m in models], []) + [gb, o])
            if rc: raise Error("removing modelled bodies from %s: %s" % (s, (so + se)[-1500:]))
            gb = o
        gbs.append(gb)
    a = os.path.join(b.scratch, "%s.%s.a.gb" % (u.name, tag))
    rc, so, se, _ = run(["goto-cc", "--function", u.harness, "-o", a, b.unit(u, bounded), b.stubs(small)] + gbs)
    if rc: raise Error("link failed for unit %s:\n%s" % (u.name, (so + se)[-3000:]))
    d = a.replace(".a.gb", ".d.gb")
    if u.never and not bounded:
        # functions this unit must not reach: calling one fails an obligation
        n = a.replace(".a.gb", ".n.gb")
        rc, so, se, _ = run(["goto-instrument", "--generate-function-body", "(%s)" % "|".join(u.never),
                             "--generate-function-body-options", "assert-false-assume-false", a, n])
        if rc: raise Error("closing %s off failed:\n%s" % (u.name, (so + se)[-1500:]))
        a = n
    rc, so, se, _ = run(["goto-instrument", "--drop-unused-functions", a, d])
    if rc: raise Error("drop-unused failed for unit %s:\n%s" % (u.name, (so + se)[-2000:]))
    rc, so, se, _ = run(["goto-instrument", "--list-undefined-functions", d])
    und = [l.strip() for l in so.splitlines() if re.match(r"^[a-zA-Z_]\w*$", l.strip())]
    rc, so, se, _ = run(["goto-instrument", "--reachable-call-graph", d])
    used = set(re.findall(r"-> (\w+)", so))
    und = [x for x in und if x in used and not x.startswith(("__CPROVER", "__builtin", "gcc_builtin")) and x not in LIBC]
    return d, und

LIBC = set("""strlen strcmp strncmp memcpy memset memmove memcmp strcpy strncpy strcat strncat strchr strrchr calloc malloc
realloc free strndup strdup abort exit isdigit isspace tolower toupper snprintf vsnprintf sprintf vsprintf strstr
__builtin_va_start __builtin_va_end __builtin_va_copy __builtin_va_arg isalpha isalnum strcasecmp __errno_location
__ctype_tolower_loc stpcpy fabs
""".split())

def functions_in(gb):
    rc, so, se, _ = run(["goto-instrument", "--list-goto-functions", gb])
    return set(re.findall(r"(?m)^([A-Za-z_]\w*)\s+/\*", so)) | set(re.findall(r"(?m)^\s*([A-Za-z_]\w*)\s*$", so))

def prepare(b, u, bounded, small=False):
    srcs = u.sources; S = "S" if small else ""
    d, und = link(b, u, bounded, srcs, ("B" if bounded else "P") + S, small)
    if und:
        d, und = link(b, u, bounded, [p for p in extract.all_sources() if os.path.basename(p) not in ("log.c",) or "log.c" in u.sources],
                      ("B2" if bounded else "P2") + S, small)
        if und: raise Error("unit %s reaches functions without a body: %s" % (u.name, ", ".join(und)))
    out = d
    repl = [] if bounded else u.replace
    if u.enforce or repl:
        out = d.replace(".d.gb", ".c.gb")
        cmd = ["goto-instrument", "--dfcc", u.harness]
        for e in u.enforce:
            f, c = e.split("/"); cmd += ["--enforce-contract", "%s/%s" % (f, c)]
        for e in repl:
            f, c = e.split("/"); cmd += ["--replace-call-with-contract", "%s/%s" % (f, c)]
        rc, so, se, _ = run(cmd + [d, out])
        if rc: raise Error("contract instrumentation failed for unit %s:\n%s" % (u.name, (so + se)[-3000:]))
    return out

LIMIT = ["prlimit", "--as=%d" % (9 << 30)] if shutil.which("prlimit") else []  # memory of one solver process

def race(first, second, timeout, head=25):
    """runs first, and when it has not ended after `head` seconds also second; the result of the one that ends first with a verdict"""
    t0 = time.time(); procs = []; out = None
    def start(cmd):
        o = tempfile.TemporaryFile("w+"); e = tempfile.TemporaryFile("w+")
        procs.append((subprocess.Popen(LIMIT + cmd, stdout=o, stderr=e, text=True), o, e))
    start(first)
    try:
        while True:
            for p, o, e in procs:
                if p.poll() is not None:
                    o.seek(0); e.seek(0); out = (p.returncode, o.read(), e.read(), time.time() - t0)
                    if p.returncode in (0, 10) or all(q.poll() is not None for q, _, _ in procs): return out
            d = time.time() - t0
            if d > timeout: return "timeout", "", "", d
            if len(procs) == 1 and d > head: start(second)
            time.sleep(0.02 if d < 2 else 0.1)
    finally:
        for p, o, e in procs:
            if p.poll() is None: p.kill(); p.wait()
            o.close(); e.close()

DEADLINE = time.time() + float(os.environ.get("VT_DEADLINE", "780"))  # a check gets 900 s
RESULT = re.compile(r"^\[(.+?)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")

def cbmc(gb, u, unwind, extra=(), timeout=None, assertions=True):
    """results are read from the plain output (json output always carries traces, which explode on unbounded arrays);
    only --trace runs (one property) use json"""
    tracing = "--trace" in extra
    cmd = ["cbmc"] + (["--json-ui"] if tracing else []) + ["--unwind", str(unwind)] + ["--unwindset", ",".join([x for x in [u.unwindset, "dx_context_type_check_log_error.0:9" if "dx_context_type_check_log_error" in u.models else "", "vt_vsnprintf.3:160,vt_literals.0:3,vt_literals.1:160,vt_put_str.0:40,vt_put_nstr.0:40,vt_put_num.0:21,vt_put_num.1:21,vt_put_num32.0:11,vt_put_num32.1:11,vt_put_any.0:13,vt_strcmp.0:40"] if x])]
    cmd += (["--unwinding-assertions"] if assertions else ["--no-unwinding-assertions"]) + u.flags + list(extra) + [gb]
    left = DEADLINE - time.time()
    if left < 3: raise Error("no time left for unit %s" % u.name)
    rc, so, se, t = race(cmd, ["cbmc", "--sat-solver", "cadical"] + cmd[1:], min(timeout or u.timeout, left))
    if rc == "timeout": raise Error("cbmc timed out after %ds on unit %s" % (t, u.name))
    if "too many addressed objects" in so + se and "--object-bits" not in cmd:
        return cbmc(gb, u, unwind, list(extra) + ["--object-bits", "11"], timeout, assertions)
    if rc not in (0, 10): raise Error("cbmc gave no result on unit %s: rc=%s %s" % (u.name, rc, (so[-1500:] + se[-1500:])))
    res = None
    if tracing:
        try: js = json.loads(so)
        except Exception: raise Error("cbmc gave no result on unit %s: rc=%s %s" % (u.name, rc, (so[-1500:] + se[-1500:])))
        for o in js:
            if isinstance(o, dict) and "result" in o: res = o["result"]
    else:
        i = so.find("** Results:")
        if i >= 0:
            res = []; head = ""
            for l in so[i:].splitlines():
                m = RESULT.match(l)
                if m: res.append(dict(property=m.group(1), description=m.group(4), status=m.group(5), sourceLocation=dict(line=m.group(3), file=m.group(2) or head)))
                elif " function " in l and not l.startswith("["): head = l.split(" function ")[0]
    if res is None: raise Error("cbmc gave no result on unit %s: rc=%s %s" % (u.name, rc, (so[-1500:] + se[-1500:])))
    nobody = sorted(set(re.findall(r"no body for (?:function|callee) '?(\w+)", so + se)))
    nobody = [x for x in nobody if not x.startswith("__CPROVER") and x not in ("gcc_builtin_va_arg",)]
    if nobody: raise Error("unit %s reaches functions without a body: %s" % (u.name, nobody))
    return res, t, " ".join(cmd), []

def classify(res):
    fails, reach_ok, reach_bad, unw, main, unk = [], [], [], [], [], []
    for r in res:
        desc = r.get("description", ""); st = r["status"]
        if desc.startswith("REACH:"):
            (reach_ok if st == "FAILURE" else reach_bad).append(desc)
        elif "unwinding assertion" in desc or ".unwind." in r["property"] or "recursion unwinding" in desc:
            if st != "SUCCESS": unw.append(r)
        else:
            main.append(r)
            if st == "FAILURE": fails.append(r)
            elif st != "SUCCESS": unk.append(r)
    return fails, reach_ok, reach_bad, unw, main, unk

def prio(r):
    d = r.get("description", "")
    if d.startswith("CHECK:"): return 0
    if "dereference" in d or "bounds" in d or "overflow" in d or "pointer" in d: return 1
    if "postcondition" in d or "ensures" in d: return 2
    return 3

def trace_values(res_item):
    vals = []
    for s in res_item.get("trace", []):
        if s.get("stepType") == "assignment" and s.get("lhs") == "vt_logged" and not s.get("hidden"):
            v = s.get("value", {})
            bits = v.get("binary")
            if bits is None:
                try: vals.append(int(v.get("data", "0")) & (2**64 - 1))
                except ValueError: vals.append({"TRUE": 1, "FALSE": 0}.get(v.get("data"), 0))
            else:
                n = int(bits, 2)
                # sign does not matter: consumers truncate to their width
                vals.append(n)
    return vals

def native_build(b, u):
    def go():
        out = os.path.join(b.scratch, "nat." + u.name)
        cfl = ["-std=gnu11", "-O1", "-g", "-w", "-D_GNU_SOURCE", "-DNDEBUG", "-DVT_NATIVE", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
               "-fno-sanitize=alignment", "-ftrivial-auto-var-init=pattern", "-I" + VERIF + "/c"] + extract.inc_flags()
        objs = []
        jobs = []
        os.makedirs(os.path.join(b.scratch, "natobj"), exist_ok=True)
        def comp(path, o, extra, fl):
            key = ("nat", path, tuple(extra))
            def c():
                p = path
                if u.statics and extra:
                    t = extract.preprocess(path, extract.rename_defs() + ["VT_NATIVE"])
                    for s in u.statics: t = extract.unstatic(t, s)
                    p = o[:-2] + ".i.c"; open(p, "w").write(t)
                rc, so, se, _ = run(["gcc", "-c"] + fl + (extra if p == path else []) + ["-o", o, p], 200)
                if rc: raise Error("native build of %s: %s" % (path, se[-1500:]))
                return o
            return b.once(key + ((u.name,) if u.statics else ()), c)
        ren = ["-D" + d for d in extract.rename_defs()]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = []
            for p in extract.all_sources():
                o = os.path.join(b.scratch, "natobj", (u.name + "." if u.statics else "") + os.path.basename(p)[:-2] + ".o")
                fs.append(ex.submit(comp, p, o, ren, cfl))
            objs = [f.result() for f in fs]
        uo = out + ".u.o"
        rc, so, se, _ = run(["gcc", "-c"] + cfl + ["-D" + d for d in u.defs] + ["-o", uo, u.file], 100)
        if rc: raise Error("native build of %s: %s" % (u.file, se[-1500:]))
        no = out + ".n.o"
        rc, so, se, _ = run(["gcc", "-c"] + cfl + ["-DVT_ENTRY=" + u.harness, "-o", no, VERIF + "/c/native.c"], 100)
        if rc: raise Error("native build: " + se[-1500:])
        # definitions in the unit file (replacement bodies) take precedence over the library's
        rc, so, se, _ = run(["gcc", "-fsanitize=address,undefined", "-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all",
                             "-o", out, uo, no] + objs + ["-ldl", "-lm"], 100)
        if rc: raise Error("native link: " + se[-1500:])
        return out
    return b.once(("natexe", u.file, u.name), go)

def replay(b, u, vals):
    exe = native_build(b, u)
    vf = os.path.join(b.scratch, "vals." + u.name)
    open(vf, "w").write("\n".join("%x" % v for v in vals) + "\n")
    env = dict(os.environ, VT_VALUES=vf, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    rc, so, se, _ = run([exe], 20, env=env, cwd=b.scratch)
    if rc == "timeout": return True, "the replayed call did not return within 20 s"
    if rc == 77 or rc == 0: return False, se[-2000:]
    if rc == 99 or "AddressSanitizer" in se or "runtime error" in se or rc < 0:
        return True, se[-4000:]
    return False, se[-2000:]

def find_input(b, u, gb, unwind, fails, assertions=False, bounded=False):
    """try to turn failed obligations into a replayed failing input: first with small sizes, then with any"""
    log = []; end = time.time() + 240
    for small in (True, False):
        try: g = prepare(b, u, bounded, True) if small else gb
        except (Error, CutUnattached) as e:
            log.append(str(e)); continue
        for r in sorted(fails, key=prio)[:4]:
            left = end - time.time()
            if left < 5: break
            try:
                res, t, cmd, _ = cbmc(g, u, unwind, ["--trace", "--property", r["property"]], timeout=min(u.timeout, 90, left), assertions=assertions)
            except Error as e:
                log.append(str(e)); continue
            for x in res:
                if x["property"] == r["property"] and x["status"] == "FAILURE":
                    vals = trace_values(x)
                    try: ok, out = replay(b, u, vals)
                    except Error as e: log.append(str(e)); continue
                    if ok: return r, vals, out
                    log.append("replay of %s did not reproduce natively: %s" % (r["property"], out[-500:]))
    return None, None, "\n".join(log)

def do_unit(b, u):
    """returns dict(status=held|violated|error, ...)"""
    R = dict(unit=u.name, harness=u.harness, file=os.path.relpath(u.file, VERIF), enforce=u.enforce, replaced=u.replace,
             kind=u.kind, bound=u.bound, unwind=u.unwind, notes=[], status="error", obligations=0, discharged=0, solver_s=0.0, cuts=u.cuts)
    bounded = False
    try:
        try: gb = prepare(b, u, False)
        except CutUnattached as e:
            R["notes"].append("loop annotation does not attach (%s): bounded check instead" % e)
            bounded = True; gb = prepare(b, u, True)
            R["kind"] = "bounded"; R["bound"] = "loop bound %d" % u.bunwind
        unwind = u.bunwind if bounded else u.unwind
        def attempt(gb, bounded, unwind):
            res, t, cmd, stats = cbmc(gb, u, unwind)
            R["solver_s"] += t; R["checker_cmd"] = cmd
            c = classify(res)
            if c[3] and not c[0]:
                # the code now loops more often than the bound: widen once, then settle for the bound
                unwind2 = unwind * 2 + 1; unw0 = c[3]
                try:
                    res, t, cmd, stats = cbmc(gb, u, unwind2); R["solver_s"] += t
                    c = classify(res); unwind = unwind2
                except Error: pass
                if c[3] and not c[0]:
                    R["loop"] = find_input(b, u, gb, unwind, c[3][:1], assertions=True, bounded=bounded)
                    res, t, cmd, stats = cbmc(gb, u, unwind, assertions=False); R["solver_s"] += t
                    c = classify(res)
                    R["kind"] = "bounded"; R["bound"] = (u.bound + " loop bound %d" % unwind).strip(); R["notes"].append("unwinding assertion fails (%s): result holds up to the bound only" % ", ".join(x["property"] for x in unw0[:6]))
            return c, unwind
        (fails, rok, rbad, unw, main, unk), unwind = attempt(gb, bounded, unwind)
        R["obligations"] = len(main); R["discharged"] = len([m for m in main if m["status"] == "SUCCESS"])
        R["reach"] = len(rok)
        if not main: raise Error("unit %s generated no obligations" % u.name)
        shut = [f for f in fails if "undefined function should be unreachable" in f.get("description", "")]
        if shut:
            # the code now reaches a function this unit closed off: the closed-off result says nothing, keep the whole code
            R["notes"].append("reaches closed-off %s: checked with its body" % ", ".join(sorted({f["property"].split(".")[0] for f in shut})))
            u.never = [x for x in u.never if not any(f["property"].split(".")[0] == x for f in shut)]
            gb = prepare(b, u, bounded); (fails, rok, rbad, unw, main, unk), unwind = attempt(gb, bounded, unwind)
            R["obligations"] = len(main); R["discharged"] = len([m for m in main if m["status"] == "SUCCESS"]); R["reach"] = len(rok)
            if any("undefined function should be unreachable" in f.get("description", "") for f in fails): raise Error("unit %s reaches closed-off functions" % u.name)
        if unk and not fails: raise Error("unit %s: %d obligations undecided" % (u.name, len(unk)))
        if fails:
            R["failed"] = [dict(property=f["property"], description=f.get("description"), where=f.get("sourceLocation", {})) for f in fails][:12]
            if os.environ.get("VT_FAST"): r, vals, out = None, None, ""   # development: no search for a failing input
            else: r, vals, out = find_input(b, u, gb, unwind, fails, bounded=bounded)
            if r is None and not bounded and (u.cuts or u.replace):
                try:
                    gb2 = prepare(b, u, True)
                    (f2, _, _, _, _, _), uw2 = attempt(gb2, True, u.bunwind)
                    if f2: r, vals, out2 = find_input(b, u, gb2, uw2, f2, bounded=True)
                    if f2 and r is None: out += "\n" + out2
                    if r is not None: out = out2
                    if not f2:
                        R["notes"].append("the bounded check without loop annotations finds no failure")
                        if all(str(f.get("description", "")).startswith("INV-") for f in fails):
                            # the annotation no longer fits the loop; no property obligation failed: the bounded result decides
                            R.pop("failed"); R["kind"] = "bounded"; R["bound"] = "loop bound %d" % uw2; R["status"] = "held"
                            R["notes"].append("loop annotation fails (%s): bounded check instead" % fails[0]["property"])
                            return R
                except Error as e: R["notes"].append("fallback: %s" % e)
            R["status"] = "violated"; R["values"] = vals; R["out"] = out; R["confirmed"] = r is not None
            R["obligation"] = (r or sorted(fails, key=prio)[0])["property"] + ": " + str((r or sorted(fails, key=prio)[0]).get("description"))
            return R
        if R.get("loop") and R["loop"][0] is not None:
            r, vals, out = R.pop("loop")
            R.update(status="violated", values=vals, out=out, confirmed=True, obligation=r["property"] + ": " + str(r.get("description")))
            return R
        R.pop("loop", None)
        if rbad or not rok: raise Error("unit %s is vacuous: %s" % (u.name, rbad or "no reachability goal"))
        R["status"] = "held"
    except Error as e:
        R["error"] = str(e)
    except ExtractError as e:
        R["error"] = str(e)
    return R

def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"(\w+): property=(\w+) (.*)", l.strip())
            if m and m.group(1) != "fixed": out[m.group(1)] = (m.group(2), m.group(3))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if tier == "thorough":
        global DEADLINE
        DEADLINE = t0 + 3600
    units = [u for u in load_units(prop) if tier == "thorough" or u.tier == "quick"]
    if only: units = [u for u in units if u.name in only]
    if not units:
        print("no units for", prop); return 3
    scratch = tempfile.mkdtemp(prefix="vt.%s." % prop)
    os.environ["TMPDIR"] = scratch
    kf = known_findings()
    try:
        b = Build(scratch)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda u: do_unit(b, u), sorted(units, key=lambda u: -u.timeout)))
        nat = None
    finally:
        if not os.environ.get("VT_KEEP"): shutil.rmtree(scratch, ignore_errors=True)
        else: print("scratch:", scratch)
    rs.sort(key=lambda r: r["unit"])
    um = {u.name: u for u in units}
    viol, errs = [], []
    ev = os.path.join(VERIF, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for r in rs:
        line = "  %-34s %-8s %-8s obligations %d/%d reach %s %.1fs %s" % (r["unit"], r["status"], r["kind"], r["discharged"], r["obligations"],
                                                                  r.get("reach", 0), r["solver_s"], "; ".join(r["notes"]))
        u = um[r["unit"]]
        if u.finding:
            if r["status"] == "violated":
                pid, text = kf.get(u.finding, (prop, "unlisted"))
                if u.finding in kf: print("KNOWN-FINDING: property=%s %s %s" % (prop, u.finding, text))
                else: viol.append(r)
                r["status"] = "known-finding"
            elif r["status"] == "error": errs.append(r)
        elif r["status"] == "violated": viol.append(r)
        elif r["status"] == "error": errs.append(r)
        print(line)
        if r["status"] == "error": print("    " + r["error"].replace("\n", "\n    ")[:1500])
    rc = 0
    for r in viol:
        rp = os.path.join(ev, "replay", "%s.%s.json" % (prop, r["unit"]))
        json.dump(dict(property=prop, unit=r["unit"], harness=r["harness"], file=r["file"], obligation=r.get("obligation"),
                       failed_obligations=r.get("failed"), input_values_hex=["%x" % v for v in (r.get("values") or [])],
                       replayed_on_real_code=r.get("confirmed"), output=r.get("out"), notes=r["notes"]), open(rp, "w"), indent=1)
        print("    failed obligation: %s" % r.get("obligation"))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if r.get("confirmed") else " no-failing-input-found"))
        rc = 1
    # a unit that cannot be attached to or decided on this tree is neither proof nor violation: it is reported
    # as undecided (also in the evidence) and the verdict speaks about the other units only
    for r in errs: print("UNDECIDED property=%s unit=%s" % (prop, r["unit"]))
    if errs and not rc and (os.environ.get("VT_STRICT") or not any(r["status"] == "held" for r in rs)): rc = 2
    held = [r for r in rs if r["status"] == "held"]
    proved = [r for r in held if r["kind"] == "proved"]
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "proof")
    total = sum(r["obligations"] for r in rs if r["status"] != "known-finding"); disc = sum(r["discharged"] for r in rs if r["status"] != "known-finding")
    cov = dict(obligations=total, discharged=disc,
               obligations_proved_unbounded=sum(r["discharged"] for r in proved),
               obligations_discharged_within_a_bound=sum(r["discharged"] for r in held if r["kind"] != "proved"),
               checker_cmd=next((r.get("checker_cmd", "") for r in rs if r.get("checker_cmd")), "cbmc"),
               back_end="cbmc 6.11.0, SAT back ends MiniSat 2.2.1 and (when that takes more than 25 s) CaDiCaL",
               solver_s=round(sum(r["solver_s"] for r in rs), 2),
               functions_under_contract=sorted({e.split("/")[0] for r in held for e in r["enforce"]}),
               contracts_assumed_at_call_sites=sorted({e.split("/")[0] for r in held for e in r["replaced"]}),
               units=[{k: r[k] for k in ("unit", "harness", "file", "status", "kind", "bound", "enforce", "replaced", "cuts", "obligations", "discharged", "solver_s", "notes") if k in r} for r in rs],
               trusted_base=TRUSTED, explanation="deductive verification of code contracts over the extracted C sources; units labelled bounded unwind loops up to the stated bound")
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions(units), wall_s=round(time.time() - t0, 2),
                   violations=len(viol)), open(os.path.join(ev, "%s.json" % prop), "w"), indent=1)
    print("%s %s: %d units, %d obligations, %d discharged, %.1fs -> %d" % (prop, tier, len(rs), total, disc, time.time() - t0, rc))
    return rc

TRUSTED = ["cbmc/goto-cc/goto-instrument 6.11.0", "gcc -E (the text verified is the preprocessed text of /repo)",
           "vt/extract.py rewrites R1-R4 (DESIGN.md)", "c/stubs.c models of libc allocation, formatting and logging",
           "CBMC's built-in models of string.h functions"]

def assumptions(units):
    out = ["logging functions have no effect other than those modelled in c/stubs.c", "IEEE-754 doubles as in CBMC's float back end; pointers as objects+offsets",
           "termination is not verified except where unwinding assertions hold"]
    for f in sorted({u.file for u in units}):
        n = len(re.findall(r"\bASSUME\s*\(", open(f).read()))
        out.append("%s: %d ASSUME statements shape the symbolic pre-states (preconditions)" % (os.path.basename(f), n))
        for l in open(f):
            m = re.match(r"//@assume\s+(.*)", l)
            if m: out.append("%s: %s" % (os.path.basename(f), m.group(1).strip()))
    return out

if __name__ == "__main__":
    sys.exit(main())
