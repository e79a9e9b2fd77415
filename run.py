#!/usr/bin/env python3
"""Solver-based checks of dieharder: driver.

  run.py --prop C01 [--tier quick|thorough] [--only QUERY] [-v]

For one property: compile the harness together with /repo's CURRENT sources by
goto-cc, let CBMC (SAT/SMT) decide every assertion for all values within the
stated bounds, replay every counterexample natively (gcc + sanitizers, same
harness, real code), print VIOLATION only for what reproduces, write
evidence/<id>.json.

exit 0  every query decided "holds" (witnesses reached, unwinding complete)
exit 1  VIOLATION (replayed)
exit 2  no verdict (compile failure, timeout, unwinding incomplete,
        counterexample that does not reproduce) -- never reported as success
"""
import argparse, concurrent.futures as cf, functools, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
import specs, spec_bits, spec_file, spec_out, spec_run, spec_kern, spec_rng, spec_cli, spec_parse, spec_stat, spec_tests, spec_tests2

LIBDIR, HARN = os.path.join(HERE, "lib"), os.path.join(HERE, "harness")
CPPFLAGS = ["-D_GNU_SOURCE", "-DVERSION=3.31.1", "-DLITTLE_ENDIAN=1",
            "-I", LIBDIR + "/inc", "-I", REPO + "/include", "-I", REPO + "/dieharder",
            "-I", REPO + "/libdieharder", "-I", LIBDIR, "-I", HARN]
DEFAULT_CHECKS = ["--bounds-check", "--pointer-check"]
print_lock = threading.Lock()

def log(*a):
    with print_lock:
        print(*a, flush=True)

def sh(cmd, timeout=None, env=None, mem_gb=None, group=None):
    def lim():
        import resource
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    if STOP.is_set():
        return -999, "", "stopped"
    left = DEADLINE[0] - time.time()
    timeout = max(1, min(timeout or left, left))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=env, preexec_fn=lim)
    with print_lock:
        PROCS.add(p)
        if group is not None:
            group.add(p)
    try:
        if STOP.is_set():
            raise subprocess.TimeoutExpired(cmd, 0)
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        kill(p)
        p.communicate()
        return -999, "", "timeout"
    finally:
        with print_lock:
            PROCS.discard(p)
            if group is not None:
                group.discard(p)

# the whole run stops early once a violation has been replayed, and at the deadline
STOP, PROCS, DEADLINE = threading.Event(), set(), [time.time() + 10 ** 7]
def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
def stop_all():
    STOP.set()
    with print_lock:
        for p in list(PROCS):
            kill(p)

def const_re(a):
    """a constant of a parameter reduction; 'A/B' are spellings of the same one, a leading '?' marks it optional"""
    return r"(?<![\w.])(?:%s)(?![\w.])" % "|".join(re.escape(x).replace(r"\ ", r"\s*") for x in a.lstrip("?").split("/"))

def src_path(s):
    if s.startswith("lib:"):
        return os.path.join(LIBDIR, s[4:])
    if s.startswith("h:"):
        return os.path.join(HARN, s[2:])
    if "|" in s:
        # parameter reduction: a size constant of the current source is replaced in a scratch copy
        f, subs = s.split("|", 1)
        dst = os.path.join(SCRATCH[0], "sub_%08x" % (hash(s) & 0xffffffff), os.path.basename(f))
        if not os.path.exists(dst):
            t = open(os.path.join(REPO, f)).read()
            for x in subs.split(";"):
                a, b = x.split("=>")
                t = re.sub(const_re(a), b, t)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            open(dst + ".%d" % threading.get_ident(), "w").write(t)
            os.replace(dst + ".%d" % threading.get_ident(), dst)
        return dst
    return os.path.join(REPO, s)
SCRATCH = [None]

class Build:
    """goto-cc objects, compiled once per (source, flags) in this run."""
    def __init__(self, d):
        self.d, self.cache, self.lock, self.n = d, {}, threading.Lock(), 0
    def obj(self, src, flags):
        key = (src, tuple(flags))
        with self.lock:
            if key not in self.cache:
                self.n += 1
                self.cache[key] = [os.path.join(self.d, "o%d_%s.gb" % (self.n, re.sub(r"\W", "_", os.path.basename(src)))), None, threading.Lock()]
            ent = self.cache[key]
        with ent[2]:
            if ent[1] is None:
                rc, o, e = sh(["goto-cc", "-c", "-o", ent[0]] + CPPFLAGS + list(flags) + [src_path(src)], timeout=120)
                ent[1] = (rc, o + e)
        return ent[0], ent[1]

def flags_for(q, src):
    f = ["-D" + d for d in q.get("defs", [])]
    if src.startswith("lib:"):
        f = ["-D" + d for d in q.get("ldefs", [])]
    elif not src.startswith("h:"):
        f = ["-D" + d for d in q.get("rdefs", [])]
    if src.startswith("h:") or src.startswith("lib:"):
        return f + ["-include", os.path.join(LIBDIR, "vp.h")]
    r = list(f)
    if src.endswith("/globals.c") and "VP_SMALL_SPLIT" in q.get("rdefs", []):
        r.append("-Dsplitbuf=vp_unused_splitbuf")
    if src.endswith("/parse.c"):
        r.append("-Dverbose=vp_parse_verbose")
    for s in q.get("shim", ["shim.h"]):
        r += ["-include", os.path.join(LIBDIR, s)]
    return r

def cbmc_cmd(q, gb, unwind, extra):
    c = ["cbmc", gb, "--function", q["func"], "--no-standard-checks", "--no-malloc-may-fail",
         "--drop-unused-functions", "--unwinding-assertions", "--unwind", str(unwind), "--json-ui",
         "--verbosity", "8", "--max-field-sensitivity-array-size", str(q.get("fieldsens", 64)), "--object-bits", str(q.get("objbits", 16))]
    c += q.get("checks", DEFAULT_CHECKS)
    if q.get("solver", "cadical") in ("z3", "cvc5"):
        c += ["--" + q["solver"]]
    else:
        c += ["--sat-solver", q.get("solver", "cadical")]
    for us in q.get("unwindset", []):
        c += ["--unwindset", us]
    c += q.get("opts", [])
    return c + extra

def run_cbmc(q, gb, unwind, extra, timeout):
    """one solver, or several raced against each other (first decided answer wins)"""
    sv = q.get("solver", "cadical")
    if isinstance(sv, str):
        return sh(cbmc_cmd(q, gb, unwind, extra), timeout=timeout, mem_gb=q.get("mem", 12))
    ans, done, group = [], threading.Event(), set()
    def one(s):
        r = sh(cbmc_cmd(dict(q, solver=s), gb, unwind, extra), timeout=timeout, mem_gb=q.get("mem", 12), group=group)
        res = parse_cbmc(r[1])[0] if r[0] != -999 else None
        good = res is not None and all(x["status"] in ("SUCCESS", "FAILURE") for x in res)
        if good and extra and not any(x.get("trace") for x in res):
            good = False
        with print_lock:
            ans.append((good, s, r))
            if good or len(ans) == len(sv):
                done.set()
    for s in sv:
        threading.Thread(target=one, args=(s,), daemon=True).start()
    done.wait()
    with print_lock:
        left = list(group)
        best = sorted(ans, key=lambda a: not a[0])[0]
    for p in left:
        kill(p)
    q["_decided_by"] = best[1]
    return best[2]

def parse_cbmc(out):
    try:
        js = json.loads(out)
    except Exception:
        # truncated output
        return None, [], {}
    res, msgs = None, []
    for e in js:
        if isinstance(e, dict):
            if "result" in e:
                res = e["result"]
            if "messageText" in e:
                msgs.append(e["messageText"])
    st = {}
    for m in msgs:
        for k, rx in (("symex_s", r"Runtime Symex: ([\d.e+-]+)s"), ("solver_s", r"Runtime decision procedure: ([\d.e+-]+)s"),
                      ("steps", r"size of program expression: (\d+) steps"), ("vccs", r"Generated (\d+) VCC"),
                      ("vars", r"(\d+) variables, \d+ clauses"), ("clauses", r"\d+ variables, (\d+) clauses")):
            mm = re.search(rx, m)
            if mm:
                st[k] = float(mm.group(1)) if "_s" in k else int(mm.group(1))
    return res, msgs, st

def is_witness(r):
    return r.get("description", "").startswith("WITNESS")

def is_unwind(r):
    d = r.get("description", "")
    return "unwinding assertion" in d or "recursion unwinding" in d

def inputs_from_trace(trace):
    lines = []
    for s in trace:
        if s.get("stepType") == "input":
            v = s["values"][0]
            b = v.get("binary")
            lines.append("%s %x" % (s["inputID"], int(b, 2)))
    return lines

def native_replay(q, lines, d):
    """Compile the same harness natively with the real sources and feed the
    assignment.  Returns (reproduced, text)."""
    os.makedirs(d, exist_ok=True)
    rf = os.path.join(d, "inputs.txt")
    open(rf, "w").write("\n".join(lines) + "\n")
    exe = os.path.join(d, "replay_exe")
    objs, txt = [], ""
    san = ["-fsanitize=address,bounds,object-size,null,integer-divide-by-zero", "-fno-sanitize-recover=all"]
    for i, s in enumerate(list(q["sources"]) + ["lib:native.c"]):
        o = os.path.join(d, "n%d.o" % i)
        fl = flags_for(q, s) if s != "lib:native.c" else ["-DVP_FUNC=" + q["func"]]
        rc, oo, ee = sh(["gcc", "-c", "-g", "-O0" if s in q.get("weak", []) else "-O1", "-w", "-fno-builtin", "-DVP_NATIVE", "-o", o] + san + CPPFLAGS + fl + [src_path(s)], timeout=120)
        if rc:
            return None, "native compile failed: " + ee[-800:]
        if s in q.get("_auto", []) or s in q.get("weak", []):
            sh(["objcopy", "--weaken", o], timeout=60)
        objs.append(o)
    link = lambda extra: sh(["gcc", "-o", exe] + san + objs + extra + ["-lgsl", "-lgslcblas", "-lm"], timeout=120)
    rc, oo, ee = link([])
    und = sorted(set(re.findall(r"undefined reference to `(\w+)'", ee)))
    if rc and und:
        # functions the replayed path does not call need no body; calling one means "not reproduced"
        sc = os.path.join(d, "stubs.c")
        open(sc, "w").write("#include <unistd.h>\n" + "".join("void %s(void){ _exit(77); }\n" % u for u in und))
        rc, oo, ee = link([sc])
    if rc:
        return None, "native link failed: " + ee[-1500:]
    for fill in ("190", "0", "255", "1"):
        env = dict(os.environ, VP_REPLAY=rf,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:max_malloc_fill_size=1000000:malloc_fill_byte=" + fill,
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=43")
        rc, oo, ee = sh([exe], timeout=q.get("replay_timeout", 60), env=env)
        txt = ("rc=%d fill=%s\n" % (rc, fill)) + oo[-1500:] + ee[-3000:]
        if rc in (42, 43) or (rc < 0 and rc != -999):
            return True, txt
        if rc == -999 and q.get("hang_is_violation") and not STOP.is_set() and time.time() < DEADLINE[0] - 5:
            return True, txt
    return False, txt

def where_of(r):
    loc = r.get("sourceLocation", {})
    return "%s:%s %s" % (loc.get("file", "?"), loc.get("line", "?"), loc.get("function", ""))

def report_violation(prop, q, R, replay_root, d, r, txt, t0):
    where = where_of(r)
    dst = os.path.join(replay_root, "%s_%s" % (prop, q["name"]))
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for fn in ("inputs.txt",):
        shutil.copy(os.path.join(d, fn), dst)
    open(os.path.join(dst, "report.txt"), "w").write(
        "property %s query %s\nfailed assertion: %s\nat %s\nnative replay:\n%s\n" % (prop, q["name"], r["description"], where, txt))
    with open(os.path.join(dst, "replay.sh"), "w") as fh:
        fh.write("#!/bin/sh\n# rebuilds the harness natively against /repo and feeds the counterexample\nexec python3 %s --replay %s --prop %s --only %s\n" % (os.path.join(HERE, "run.py"), os.path.join(dst, "inputs.txt"), prop, q["name"]))
    R.update(status="violation", why=r["description"] + " at " + where, replay=dst, t=time.time() - t0)
    return R

@functools.lru_cache(None)
def defining_source(fn):
    """the /repo source that defines a function (used when code under check calls a helper that lives in a file the query does not list)"""
    for d in ("libdieharder", "dieharder"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c"):
                t = open(os.path.join(REPO, d, f), errors="replace").read()
                if re.search(r"(?m)^(?!\s*(?:return|else|if|while|for)\b)[A-Za-z_][\w \t*]*\b%s\s*\([^;{}]*\)\s*\{" % re.escape(fn), t) or re.search(r"(?m)^%s\s*\([^;{}]*\)\s*\{" % re.escape(fn), t):
                    return d + "/" + f
    return None

def missing_constants(q):
    """constants of a parameter reduction that the current source no longer contains"""
    out = []
    for s in q["sources"]:
        if "|" in s:
            f, subs = s.split("|", 1)
            try:
                t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(os.path.join(REPO, f), errors="replace").read(), flags=re.S)
            except OSError:
                return []
            out += [x.split("=>")[0] for x in subs.split(";") if not x.startswith("?") and not re.search(const_re(x.split("=>")[0]), t)]
    return out

def run_query(prop, q, build, tier, scratch, replay_root, verbose):
    miss = missing_constants(q)
    if miss:
        return {"query": q["name"], "status": "skipped", "why": "the constant(s) %s of the parameter reduction do not occur any more: nothing is claimed by this query" % miss, "bounds": q.get("bounds", "")}
    R = run_query1(prop, q, build, tier, scratch, replay_root, verbose)
    for attempt in range(3):
        new = []
        for n in R.get("no_body") or []:
            s = defining_source(n)
            if s and s not in new and s not in [x.split("|")[0] for x in q["sources"]]:
                new.append(s)
        if not new:
            break
        q = dict(q, sources=list(q["sources"]) + new, _auto=q.get("_auto", []) + new)
        R = run_query1(prop, q, build, tier, scratch, replay_root, verbose)
    return R

def auto_obj(o, objs, scratch):
    """drop from an added object every function some listed object already defines"""
    def funcs(x):
        rc, out, err = sh(["goto-instrument", "--list-goto-functions", x], timeout=60)
        return set(l.split()[0] for l in out.splitlines() if l.strip() and "body not available" not in l and not l.startswith(("Reading", "__CPROVER")))
    have = set().union(*[funcs(x) for x in objs])
    cmd = ["goto-instrument"]
    for f in sorted(funcs(o) & have):
        cmd += ["--remove-function-body", f]
    if len(cmd) > 1:
        n = os.path.join(scratch, "auto%d_%s" % (threading.get_ident(), os.path.basename(o)))
        sh(cmd + [o, n], timeout=60)
        return n
    return o

def run_query1(prop, q, build, tier, scratch, replay_root, verbose):
    t0 = time.time()
    R = {"query": q["name"], "func": q["func"], "bounds": q.get("bounds", ""), "sources": [s for s in q["sources"] if not s.startswith(("h:", "lib:"))]}
    objs = []
    for s in q["sources"]:
        if s.startswith("native:"):
            continue
        o, (rc, msg) = build.obj(s, flags_for(q, s))
        if rc:
            R.update(status="error", why="goto-cc failed on %s: %s" % (s, msg[-1500:]))
            return R
        objs.append(auto_obj(o, objs, scratch) if s in q.get("_auto", []) or s in q.get("weak", []) else o)
    gb = os.path.join(scratch, q["name"] + ".gb")
    rc, o, e = sh(["goto-cc", "-o", gb] + objs, timeout=120)
    if rc:
        R.update(status="error", why="goto-cc link failed: " + (o + e)[-1500:])
        return R
    budget = q.get("timeout", 300 if tier == "quick" else 2400)
    unwind = q["unwind"]
    for attempt in range(3):
        rc, out, err = run_cbmc(q, gb, unwind, [], budget)
        if rc == -999:
            R.update(status="error", why="solver timeout after %ds (unwind %d)" % (budget, unwind))
            return R
        res, msgs, st = parse_cbmc(out)
        if res is None:
            R.update(status="error", why="cbmc gave no result rc=%d: %s" % (rc, "; ".join(msgs[-4:]) + err[-500:]))
            return R
        R.update(stats=st, unwind=unwind)
        bad = [r for r in res if r["status"] != "SUCCESS" and not is_witness(r)]
        real = [r for r in bad if not is_unwind(r)]
        if bad and not real:
            unwind = unwind * 3
            continue
        break
    nobody = sorted(set(r["property"].split(".no-body.")[1] for r in res if ".no-body." in r["property"] and r["status"] == "FAILURE"))
    R["no_body"] = [n for n in nobody]
    wit = [r for r in res if is_witness(r)]
    R["assertions"] = len([r for r in res if not is_witness(r)])
    R["witnesses"] = len(wit)
    real = [r for r in res if r["status"] == "FAILURE" and not is_witness(r) and not is_unwind(r)]
    for r in list(real):
        for kf in specs.known_findings(prop):
            if re.fullmatch(kf["query"], q["name"]) and re.search(kf["assertion"], r["description"]):
                R.setdefault("known", set()).add(kf["what"])
                real.remove(r)
                break
    if R["no_body"] and any(defining_source(n) and defining_source(n) not in [x.split("|")[0] for x in q["sources"]] for n in R["no_body"]):
        R.update(status="error", why="calls functions outside the listed sources: %s" % R["no_body"], t=time.time() - t0)
        return R
    if real:
        # VP assertions first, then generic memory checks
        real.sort(key=lambda r: (not r["description"].startswith("VP:"),))
        notes = []
        for r in real[:6]:
            tb = min(budget, 400)
            rc, out, err = run_cbmc(q, gb, unwind, ["--trace", "--property", r["property"]], tb)
            res2, _, _ = parse_cbmc(out)
            tr = None
            for x in res2 or []:
                if x["property"] == r["property"] and x["status"] == "FAILURE":
                    tr = x.get("trace")
            if tr is None:
                notes.append("%s: no trace" % r["property"])
                continue
            lines = inputs_from_trace(tr)
            d = os.path.join(scratch, "replay_" + q["name"])
            ok, txt = native_replay(q, lines, d)
            where = where_of(r)
            if ok:
                return report_violation(prop, q, R, replay_root, d, r, txt, t0)
            notes.append("%s (%s) did not reproduce natively: %s" % (r["description"], where, txt[-600:]))
        R.update(status="error", why="counterexample(s) not reproduced: " + " || ".join(notes), t=time.time() - t0)
        return R
    if any(is_unwind(r) and r["status"] != "SUCCESS" for r in res):
        # does the real code fail to terminate on the input that exceeds the bound?
        r = [r for r in res if is_unwind(r) and r["status"] != "SUCCESS"][0]
        rc, out, err = run_cbmc(q, gb, unwind, ["--trace", "--property", r["property"]], min(budget, 200))
        for x in (parse_cbmc(out)[0] or []):
            if x["property"] == r["property"] and x["status"] == "FAILURE":
                d = os.path.join(scratch, "replay_" + q["name"])
                ok, txt = native_replay(dict(q, hang_is_violation=True, replay_timeout=20), inputs_from_trace(x.get("trace") or []), d)
                if ok:
                    return report_violation(prop, q, R, replay_root, d, r, txt, t0)
        R.update(status="error", why="unwinding incomplete at %d: %s" % (unwind, [r["property"] for r in res if is_unwind(r) and r["status"] != "SUCCESS"][:4]))
        return R
    if any(r["status"] not in ("SUCCESS", "FAILURE") for r in res):
        R.update(status="error", why="undecided assertions: %s" % [r["property"] for r in res if r["status"] not in ("SUCCESS", "FAILURE")][:5])
        return R
    if not wit or any(w["status"] != "FAILURE" for w in wit):
        R.update(status="error", why="vacuous: witness not reached %s" % [w["description"] for w in wit if w["status"] != "FAILURE"])
        return R
    R.update(status="ok", t=time.time() - t0)
    R["functions"] = reachable_functions(q, gb, scratch, build)
    return R

repo_funcs_cache = {}
def reachable_functions(q, gb, scratch, build):
    names = set()
    for s in q["sources"]:
        if s.startswith(("h:", "lib:")):
            continue
        if s not in repo_funcs_cache:
            o, _ = build.obj(s, flags_for(q, s))
            rc, out, err = sh(["goto-instrument", "--list-goto-functions", o], timeout=60)
            repo_funcs_cache[s] = set(l.split()[0] for l in out.splitlines() if l.strip() and "body not available" not in l and not l.startswith(("Reading", "__CPROVER")))
        names |= repo_funcs_cache[s]
    ep = gb + ".ep"
    rc, out, err = sh(["goto-cc", "--function", q["func"], "-o", ep, gb], timeout=60)
    rc, out, err = sh(["goto-instrument", "--reachable-call-graph", ep], timeout=60)
    reach = set()
    for l in out.splitlines():
        if "->" in l:
            for x in l.split("->"):
                reach.add(x.strip())
    return sorted(names & reach)

def on_term(sig, frm):
    stop_all()
    os._exit(3)

def main():
    import signal
    signal.signal(signal.SIGTERM, on_term)
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=0)
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    P = specs.PROPS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    qs = [q for q in P["queries"] if tier in q.get("tiers", ("quick", "thorough"))]
    if a.only:
        qs = [q for q in P["queries"] if q["name"] == a.only]
    t0 = time.time()
    DEADLINE[0] = t0 + (820 if tier == "quick" else 5 * 3600)
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % a.prop)
    SCRATCH[0] = scratch
    try:
        if a.replay:
            ok, txt = native_replay(qs[0], open(a.replay).read().split("\n"), scratch)
            print(txt)
            return 1 if ok else 0
        replay_root = os.path.join(HERE, "evidence", "replay")
        os.makedirs(replay_root, exist_ok=True)
        build = Build(scratch)
        results = []
        workers = a.j or P.get("workers", min(8, os.cpu_count() or 4))
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(run_query, a.prop, q, build, tier, scratch, replay_root, a.v) for q in sorted(qs, key=lambda q: -q.get("cost", 1))]
            for f in cf.as_completed(futs):
                r = f.result()
                if STOP.is_set() and r["status"] == "error":
                    continue
                results.append(r)
                if r["status"] == "violation" and not a.all:
                    stop_all()
                if a.v or r["status"] != "ok":
                    log("[%s] %s %s %.1fs %s" % (a.prop, r["query"], r["status"], r.get("t", 0), "" if r["status"] == "ok" else r.get("why", "")[:3000]))
                    if a.v and r["status"] == "ok":
                        log("    ", r.get("stats"), "asserts", r["assertions"], "nobody", r.get("no_body"), "unwind", r.get("unwind"))
        viol = [r for r in results if r["status"] == "violation"]
        errs = [r for r in results if r["status"] == "error"]
        write_evidence(a.prop, P, tier, results, viol, errs, time.time() - t0)
        for kf in sorted(set().union(*[r.get("known", set()) for r in results])):
            print("KNOWN-FINDING: property=%s %s" % (a.prop, kf))
        for r in viol:
            print("VIOLATION property=%s replay=%s" % (a.prop, r["replay"]))
            print("  %s: %s" % (r["query"], r["why"]))
        if viol:
            return 1
        if errs:
            return 2
        print("%s: %d queries hold within their bounds (%.1fs)" % (a.prop, sum(r["status"] == "ok" for r in results), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def write_evidence(prop, P, tier, results, viol, errs, wall):
    results.sort(key=lambda r: r["query"])
    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "bounded symbolic execution of the real C code (goto-cc + CBMC) with SAT/SMT decision of every assertion for all values within the per-query bounds; unwinding assertions on; one reachability witness at least per query; counterexamples are replayed natively before being reported",
            "functions_encoded": funcs,
            "bounds": {r["query"]: r["bounds"] for r in results},
            "queries_discharged": sum(1 for r in results if r["status"] == "ok"),
            "queries_total": len(results),
            "assertions_decided": sum(r.get("assertions", 0) for r in results),
            "reachability_witnesses": sum(r.get("witnesses", 0) for r in results),
            "solver_seconds": round(sum(r.get("stats", {}).get("solver_s", 0) for r in results), 3),
            "symex_seconds": round(sum(r.get("stats", {}).get("symex_s", 0) for r in results), 3),
            "queries": [{k: r.get(k) for k in ("query", "status", "why", "stats", "unwind", "assertions", "sources", "no_body")} for r in results],
        },
        "assumptions": specs.COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if viol:
        ev["coverage"]["violations"] = [{"query": r["query"], "what": r["why"], "replay": r["replay"]} for r in viol]
    if errs:
        ev["coverage"]["undecided"] = [r["query"] for r in errs]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

if __name__ == "__main__":
    sys.exit(main())
