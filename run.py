#!/usr/bin/env python3
"""Decides one property:  run.py C01   (tier from VERIF_TIER, seed from VERIF_SEED)
   Replays one counterexample:  run.py --replay FILE
Each harness (harness/cNN*.cpp) is compiled with /repo's current headers to LLVM bitcode, executed symbolically by
build/sxe (engine/), and every candidate counterexample is replayed against the natively compiled library."""
import sys, os, re, copy, json, glob, subprocess, time, threading, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SEQ_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARN = os.path.join(HERE, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 8
INC = ["-I" + REPO, "-I" + REPO + "/seq", "-I" + HARN]
COMMON = ["-std=c++17", "-DNDEBUG", "-w"] + INC + (["-DSX_THOROUGH=1"] if THOROUGH else [])
CLANG = ["clang++-18"] + COMMON + ["-DSX_ENGINE", "-O2", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-march=x86-64-v3",
         "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsized-deallocation", "-emit-llvm", "-c"]
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "aligned_alloc", "memalign", "posix_memalign"))
NATIVE = ["g++"] + COMMON + ["-O2", "-g1", "-march=native", "-fno-lifetime-dse", "-fno-builtin-malloc", "-fno-builtin-free"]
ASAN = ["g++"] + COMMON + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-lifetime-dse"]
T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Unit:
    def __init__(self, src):
        self.src = src
        self.name = os.path.basename(src)[:-4]
        self.cfgs, self.flags, self.engine, self.native = [], [], [], []
        self.bounds, self.outside, self.assume = [], [], []
        self.tag, self.parts = self.name, 1
        for l in open(src, encoding="utf-8"):
            m = re.match(r"//@(\w+)\s+(.*)", l)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == "cfg":
                h, _, d = v.partition(":")
                h = h.split()
                opt = {}
                for o in h[1:]:
                    a, _, b = o.partition("=")
                    opt[a] = b
                if "thorough" in opt and not THOROUGH or "quickonly" in opt and THOROUGH:
                    continue
                a, _, b = h[0].partition("-")
                for n in range(int(a), int(b or a) + 1):
                    self.cfgs.append((n, opt, d.strip()))
            elif k in ("flags", "engine", "native"):
                getattr(self, k).extend(v.split())
            elif k == "engine_quick":
                if not THOROUGH: self.engine.extend(v.split())
            elif k == "engine_thorough":
                if THOROUGH: self.engine.extend(v.split())
            elif k == "parts":
                self.parts = int(v)
            elif k in ("bounds", "outside", "assume"):
                getattr(self, k).append(v)

    def split(self, only=None):
        """One unit per part: the configurations of a part are compiled on their own, to use the processors."""
        cfgs = [c for c in self.cfgs if only is None or c[0] in only]
        if self.parts == 1:
            self.cfgs = cfgs
            return [self] if cfgs else []
        out = []
        for p in sorted({c[0] % self.parts for c in cfgs}):
            u = copy.copy(self)
            u.tag = "%s.p%d" % (self.name, p)
            u.flags = self.flags + ["-DSX_PARTS=%d" % self.parts, "-DSX_PART=%d" % p]
            u.cfgs = [c for c in cfgs if c[0] % self.parts == p]
            if out:
                u.bounds, u.outside, u.assume = [], [], []
            out.append(u)
        return out

    @property
    def threads(self):
        return "--threads" in self.native


def lookup_desc(u, cfg):
    for n, o, d in u.cfgs:
        if n == cfg:
            return d
    return ""


def ensure_engine():
    r = sh(["bash", os.path.join(HERE, "engine", "build.sh")])
    if r.returncode or not os.path.exists(BUILD + "/sxe"):
        print(r.stdout)
        print("engine build failed")
        sys.exit(2)


def compile_native(u, work, asan):
    exe = os.path.join(work, u.tag + (".asan" if asan else ".nat"))
    if u.threads:
        cmd = ["clang++-18"] + COMMON + ["-O2", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-march=x86-64-v3", "-fsized-deallocation", "-fsanitize=thread", "-DSX_THREADS"] + u.flags + ["-c", u.src, "-o", exe + ".o"]
        r = sh(cmd)
        if r.returncode == 0:
            rt = exe + ".rt.o"
            r = sh(["clang++-18"] + COMMON + ["-O2", "-DSX_THREADS", "-c", HARN + "/sx_tsanrt.cpp", "-o", rt])
            if r.returncode == 0:
                nat = exe + ".n.o"
                r = sh(["clang++-18"] + COMMON + ["-O2", "-DSX_THREADS", "-c", HARN + "/sx_native.cpp", "-o", nat])
                if r.returncode == 0:
                    r = sh(["clang++-18", exe + ".o", rt, nat, WRAP, "-lpthread", "-o", exe])
        return (exe if r.returncode == 0 else None), r.stdout
    base = ASAN if asan else NATIVE
    fl = [f for f in u.flags]
    r = sh(base + fl + [u.src, HARN + "/sx_native.cpp", WRAP, "-o", exe])
    return (exe if r.returncode == 0 else None), r.stdout


def write_input(path, u, v, head=""):
    with open(path, "w") as f:
        f.write("# harness=%s cfg=%d tier=%s %s\n" % (u.name, v["cfg"], TIER, head))
        if v.get("sched"):
            f.write("#sched " + ",".join(map(str, v["sched"])) + "\n")
        for n, x in v["inputs"]:
            f.write("%s %d\n" % (n, x))


def run_native(exe, cfg, path, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1", LC_ALL="C")
    try:
        r = subprocess.run([exe, str(cfg), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "hang", [], "no termination within %d s" % timeout
    out = r.stdout.decode(errors="replace")
    obs = [int(l[4:]) for l in out.splitlines() if l.startswith("obs ")]
    tail = [l for l in out.splitlines() if not l.startswith("obs ")]
    msg = (tail[-1] if tail else "") 
    if r.returncode == 0:
        return "ok", obs, msg
    if r.returncode == 77:
        return "fail", obs, msg
    if r.returncode in (78, 79):
        return "diverged", obs, msg
    err = r.stderr.decode(errors="replace")
    m = re.search(r"ERROR: AddressSanitizer: .*", err)
    return "crash", obs, (m.group(0) if m else "exit status %d" % r.returncode)


def merge(parts):
    R = dict(cfg={}, violations=[], samples=[], reach=set(), functions=set(), lines={}, incomplete_why={}, lost=0)
    num = ("forks", "steps", "asserts", "asserts_sym", "queries", "cache_hits", "model_hits", "order_hits", "sat", "unsat", "unknown", "solver_s")
    for k in num:
        R[k] = 0
    R["solver_max_s"] = 0
    for p in parts:
        d = json.load(open(p))
        for k in num:
            R[k] += d[k]
        R["solver_max_s"] = max(R["solver_max_s"], d["solver_max_s"])
        for c, s in d["cfg"].items():
            t = R["cfg"].setdefault(int(c), {})
            for k, v in s.items():
                t[k] = max(t.get(k, 0), v) if k == "maxsteps" else t.get(k, 0) + v
        for k, v in d["incomplete_why"].items():
            R["incomplete_why"][k] = R["incomplete_why"].get(k, 0) + v
        R["violations"] += d["violations"]
        R["samples"] += d["samples"]
        R["reach"] |= set(d["reach"])
        R["functions"] |= set(d["functions"])
        for f, l in d["lines"].items():
            R["lines"].setdefault(f, set()).update(l)
    return R


def lines_ranges(s):
    out, a, b = [], None, None
    for x in sorted(s):
        if a is None:
            a = b = x
        elif x <= b + 1:
            b = x
        else:
            out.append("%d-%d" % (a, b) if b > a else str(a))
            a = b = x
    if a is not None:
        out.append("%d-%d" % (a, b) if b > a else str(a))
    return ",".join(out)


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def is_known(kf, u, v):
    return kf.get("harness") == u.name.split(".")[0] and kf.get("cfg") == v["cfg"] and kf.get("msg") == v["msg"]


def main():
    args = [a for a in sys.argv[1:]]
    only, keep, verbose, tlim = None, False, False, None
    pid = None
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--replay":
            return replay(args[i + 1])
        if a == "--cfg":
            only = set()
            for x in args[i + 1].split(","):
                p, _, q = x.partition("-")
                only |= set(range(int(p), int(q or p) + 1))
            i += 1
        elif a == "--time":
            tlim = float(args[i + 1])
            i += 1
        elif a == "--keep":
            keep = True
        elif a == "-v":
            verbose = True
        else:
            pid = a
        i += 1
    ensure_engine()
    unitname = None
    if "." in pid or "_" in pid:
        unitname = pid.split(".")[0].lower()
        pid = pid[:3].upper()
    units = [Unit(s) for s in sorted(glob.glob(os.path.join(HARN, pid.lower() + "*.cpp")))]
    if unitname:
        units = [u for u in units if u.name == unitname]
    if not units:
        print("no harness for", pid)
        return 2
    units = [p for u in units for p in u.split(only)]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replaydir = os.path.join(BUILD, "replay")
    os.makedirs(replaydir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run_%s_" % pid, dir=BUILD)
    try:
        return decide(pid, units, work, replaydir, verbose, tlim, partial=only is not None or unitname)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(pid, units, work, replaydir, verbose, tlim, partial):
    budget = tlim or (3300 if THOROUGH else 420)
    pool = ThreadPoolExecutor(NCPU)

    def bc(u):
        o = os.path.join(work, u.tag + ".bc")
        r = sh(CLANG + u.flags + [u.src, "-o", o])
        return r
    bcs = {u.tag: pool.submit(bc, u) for u in units}
    nats = {u.tag: pool.submit(compile_native, u, work, False) for u in units}
    sem = threading.Semaphore(3)
    results, errors = {}, []

    def explore(u):
        r = bcs[u.tag].result()
        if r.returncode:
            errors.append("harness %s does not compile:\n%s" % (u.tag, r.stdout[-3000:]))
            return
        with sem:
            left = max(20.0, budget - (time.time() - T0))
            out = os.path.join(work, u.tag)
            cmd = [BUILD + "/sxe", os.path.join(work, u.tag + ".bc"), "--cfg", ",".join(str(c[0]) for c in u.cfgs), "--time", "%.0f" % left,
                   "--workers", str(NCPU), "--out", out, "--seed", str(SEED), "--samples", "6", "--maxviol", "8"] + u.engine + (["-v"] if verbose else [])
            t = time.time()
            r = subprocess.run(cmd, stdout=None if verbose else subprocess.PIPE, stderr=None if verbose else subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                errors.append("engine failed on %s (status %d): %s" % (u.tag, r.returncode, (r.stdout or "")[-2000:]))
                return
            R = merge(sorted(glob.glob(out + ".part*.json")))
            R["lost"] = int(open(out + ".lost").read()) if os.path.exists(out + ".lost") else 0
            R["wall"] = time.time() - t
            results[u.tag] = R
    th = [threading.Thread(target=explore, args=(u,)) for u in units]
    [t.start() for t in th]
    [t.join() for t in th]
    if errors and not results:
        print("\n".join(errors))
        return 2

    # ---- replay against the natively compiled library
    confirmed, unconfirmed, validated, mismatches, sampleout = [], [], 0, [], []
    knownhit = {}
    kfs = known(pid)
    asans = {}
    for u in units:
        R = results.get(u.tag)
        if not R:
            continue
        if R["violations"] and not u.threads:
            asans[u.tag] = pool.submit(compile_native, u, work, True)
    seen = set()
    for u in units:
        R = results.get(u.tag)
        if not R:
            continue
        exe, log = nats[u.tag].result()
        if not exe:
            errors.append("native harness %s does not compile:\n%s" % (u.tag, log[-3000:]))
            continue
        aexe = asans[u.tag].result()[0] if u.tag in asans else None
        # samples: symbolic outcome and observations must match the compiled code's
        by = {}
        for s in sorted(R["samples"], key=lambda s: s["key"]):
            l = by.setdefault(s["cfg"], [])
            if len(l) < 4:
                l.append(s)
        todo = [s for l in by.values() for s in l]

        def one(ix_s):
            ix, s = ix_s
            p = os.path.join(work, "%s_s%d.in" % (u.tag, ix))
            write_input(p, u, s)
            return s, run_native(exe, s["cfg"], p)
        for s, (st, obs, msg) in pool.map(one, list(enumerate(todo))):
            if st == "ok" and obs == s["obs"]:
                validated += 1
                if len([x for x in sampleout if x["harness"] == u.name]) < 3:
                    sampleout.append(dict(harness=u.name, cfg=s["cfg"], inputs=s["inputs"][:24], observed=s["obs"][:12]))
            elif st in ("fail", "crash", "hang"):
                # the compiled code breaks the property where the encoded code did not: a real failing input all the same
                v = dict(cfg=s["cfg"], what="assert" if st == "fail" else st, msg=msg, loc="", inputs=s["inputs"], sched=s["sched"], native=msg)
                confirmed.append((u, v))
            else:
                mismatches.append(dict(harness=u.name, cfg=s["cfg"], inputs=s["inputs"][:40], engine=s["obs"][:40], native=obs[:40], status=st, msg=msg))
        vs = []
        for v in R["violations"]:
            k = (u.name, v["cfg"], v["what"], v["msg"])
            if k in seen:
                continue
            seen.add(k)
            vs.append(v)

        def conf(ix_v):
            ix, v = ix_v
            p = os.path.join(work, "%s_v%d.in" % (u.tag, ix))
            write_input(p, u, v)
            res = []
            for e in (exe, aexe):
                if not e:
                    continue
                st, obs, msg = run_native(e, v["cfg"], p)
                res.append("%s: %s" % (st, msg))
                if st in ("fail", "crash", "hang"):
                    return v, st, msg, res
            return v, None, None, res
        for v, st, msg, res in pool.map(conf, list(enumerate(vs[:24]))):
            if st:
                v["native"] = "%s: %s" % (st, msg)
                confirmed.append((u, v))
            else:
                v["native"] = "; ".join(res)
                unconfirmed.append((u, v))

    alarms = []
    for u, v in confirmed:
        k = next((k for k in kfs if is_known(k, u, v)), None)
        if k:
            knownhit[json.dumps(k, sort_keys=True)] = k
        else:
            alarms.append((u, v))
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    nrep = 0
    for u, v in alarms[:10]:
        p = os.path.join(replaydir, "%s-%s-%d.txt" % (pid, u.tag, nrep))
        nrep += 1
        write_input(p, u, v, "property=%s what=%s msg=%r loc=%r native=%r" % (pid, v["what"], v["msg"], v["loc"], v.get("native")))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  harness %s cfg %d (%s): %s: %s\n  at %s\n  native: %s\n  inputs: %s" % (u.name, v["cfg"], lookup_desc(u, v["cfg"]), v["what"], v["msg"], v["loc"], v.get("native"),
              " ".join("%s=%d" % (a, b) for a, b in v["inputs"])[:600]))
    for u, v in unconfirmed:
        print("unconfirmed candidate (not reproduced natively, not reported): %s cfg %d %s: %s at %s [%s] inputs %s" % (u.name, v["cfg"], v["what"], v["msg"], v["loc"], v["native"], str(v["inputs"])[:400]))
    for m in mismatches:
        print("translation mismatch: %s" % json.dumps(m)[:800])
    for e in errors:
        print(e)

    # ---- evidence
    paths = sum(c["ok"] + c["violations"] for R in results.values() for c in R["cfg"].values())
    incomplete = sum(c["incomplete"] for R in results.values() for c in R["cfg"].values())
    steps = sum(R["steps"] for R in results.values())
    why = {}
    fns, lines = set(), {}
    for R in results.values():
        for k, n in R["incomplete_why"].items():
            why[k] = why.get(k, 0) + n
        fns |= R["functions"]
        for f, l in R["lines"].items():
            lines.setdefault(f, set()).update(l)
    lost = sum(R["lost"] for R in results.values())
    scen = []
    vacuous = []
    for u in units:
        R = results.get(u.tag)
        if not R:
            continue
        for n, o, d in u.cfgs:
            c = R["cfg"].get(n, {})
            if not c.get("ok") and not c.get("violations"):
                vacuous.append("%s:%d" % (u.name, n))
            scen.append("%s:%d %s | paths %d, discarded %d, incomplete %d, instr %d" % (u.name, n, d, c.get("ok", 0), c.get("discarded", 0), c.get("incomplete", 0), c.get("steps", 0)))
    fl = sorted(fns)
    cov = dict(
        states=paths, transitions=steps, traces_validated_against_impl=validated, samples=sampleout[:12],
        exhaustive=bool(incomplete == 0 and lost == 0 and not errors and not alarms),
        rule="states: completed symbolic paths, each covering every input vector that satisfies its path condition; transitions: LLVM IR instructions executed symbolically; traces_validated: solver-chosen inputs of completed paths "
             "replayed on the natively compiled library with identical observations",
        scenarios=scen, vacuous_scenarios=vacuous, incomplete_paths=incomplete, incomplete_reasons=why, workers_lost=lost,
        forks=sum(R["forks"] for R in results.values()), assertions_checked=sum(R["asserts"] for R in results.values()), assertions_symbolic=sum(R["asserts_sym"] for R in results.values()),
        solver=dict(queries=sum(R["queries"] for R in results.values()), sat=sum(R["sat"] for R in results.values()), unsat=sum(R["unsat"] for R in results.values()), unknown=sum(R["unknown"] for R in results.values()),
                    answered_from_cached_unsat=sum(R["cache_hits"] for R in results.values()), decided_by_order_procedure=sum(R["order_hits"] for R in results.values()), answered_from_models=sum(R["model_hits"] for R in results.values()),
                    seconds=round(sum(R["solver_s"] for R in results.values()), 3), slowest_query_s=round(max([R["solver_max_s"] for R in results.values()] or [0]), 3)),
        functions_encoded=len(fl), functions=fl[:400], source_lines_executed={f: lines_ranges(l) for f, l in sorted(lines.items())},
        reach=sorted(set().union(*[R["reach"] for R in results.values()])) if results else [],
        bounds=[b for u in units for b in u.bounds], outside_bounds=[b for u in units for b in u.outside],
        candidates_unconfirmed=[dict(harness=u.name, cfg=v["cfg"], what=v["what"], msg=v["msg"], loc=v["loc"], native=v["native"]) for u, v in unconfirmed][:10],
        translation_mismatches=mismatches[:5], errors=[e[:500] for e in errors], explore_wall_s={u: round(R["wall"], 1) for u, R in results.items()})
    ev = dict(property=pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level="model_checking", coverage=cov,
              assumptions=[a for u in units for a in u.assume] + ["allocation succeeds unless a fault is injected; heap blocks are disjoint objects at 16-byte aligned addresses",
                           "clang 18's LLVM IR at -O2 -march=x86-64-v3 stands for the source; agreement with g++ -O2 -march=native code is spot-checked by the replayed traces",
                           "Z3 4.8.12 and the engine in /verif/engine are trusted"],
              wall_s=round(time.time() - T0, 2), violations=len(alarms))
    while len(json.dumps(ev)) > 60000:
        if len(cov["functions"]) > 40:
            cov["functions"] = cov["functions"][:len(cov["functions"]) // 2]
        elif len(cov["scenarios"]) > 20:
            cov["scenarios"] = cov["scenarios"][:len(cov["scenarios"]) // 2]
        else:
            cov["source_lines_executed"] = {f: "%d lines" % len(lines[f]) for f in lines}
            if len(json.dumps(ev)) > 60000:
                cov["samples"] = cov["samples"][:2]
                break
    name = pid + (".partial" if partial else "")
    with open(os.path.join(HERE, "evidence", name + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d instructions, %d queries (%.1f s solver), %d assertions, %d traces validated, incomplete %d %s, lost %d, vacuous %s, %.1f s" % (pid, TIER, paths, steps, cov["solver"]["queries"], cov["solver"]["seconds"],
          cov["assertions_checked"], validated, incomplete, why or "", lost, vacuous, time.time() - T0))
    if alarms:
        return 1
    return 2 if errors else 0


def replay(path):
    head = open(path).readline()
    h = dict(re.findall(r"(harness|cfg|tier)=(\S+)", head))
    if h.get("tier") == "thorough":
        COMMON.append("-DSX_THOROUGH=1")
        NATIVE.append("-DSX_THOROUGH=1")
        ASAN.append("-DSX_THOROUGH=1")
    u = Unit(os.path.join(HARN, h["harness"] + ".cpp")).split([int(h["cfg"])])[0]
    with tempfile.TemporaryDirectory() as d:
        for asan in (False, True):
            exe, log = compile_native(u, d, asan)
            if not exe:
                print(log)
                return 2
            st, obs, msg = run_native(exe, int(h["cfg"]), path)
            print("asan" if asan else "native", st, msg)
    return 0


if __name__ == "__main__":
    sys.exit(main())
