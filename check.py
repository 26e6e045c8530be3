#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only SCENARIO]

Decides one property: builds every harness that has scenarios for it from /repo's working tree, explores
each of these scenarios exhaustively within its bounds, and writes evidence/<property>.json.
Exit 0: held on everything explored (known findings are printed). Exit 1: VIOLATION line. Else: error.
"""
import sys, os, re, json, time, hashlib, subprocess, threading, fcntl, shutil, argparse, random
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
NCPU = min(8, os.cpu_count() or 8)
MCFLAGS = ("-std=c++20 -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread --param tsan-instrument-func-entry-exit=0 "
           "-w -pthread").split()
SEQFLAGS = "-std=c++20 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -pthread".split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg, code=2):
    print("check.py: " + msg, flush=True)
    sys.exit(code)

# ---------------------------------------------------------------- building
def files_under(d):
    out = []
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            out.append(os.path.join(root, f))
    return sorted(out)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def gen_config():
    """stlab/config.hpp as CMake generates it in this sandbox, from the tree's own config.hpp.in."""
    src = open(os.path.join(R, "include/stlab/config.hpp.in")).read()
    on = {"STLAB_STD_COROUTINES", "STLAB_THREADS_PTHREAD", "STLAB_TASK_SYSTEM_PORTABLE", "STLAB_MAIN_EXECUTOR_NONE"}
    src = re.sub(r"@PROJECT_VERSION_\w+@", "0", src).replace("@STLAB_TASK_POOL_MAXIMUM@", "0")
    src = re.sub(r"#cmakedefine01 (\w+)(\(\))?", lambda m: "#define %s%s %d" % (m.group(1), m.group(2) or "", m.group(1) in on), src)
    return src

class Builder:
    def __init__(self):
        os.makedirs(B, exist_ok=True)
        self.repo_files = [f for d in ("include", "src") for f in files_under(os.path.join(R, d)) if not f.endswith("stlab/config.hpp")]
        self.cfg = gen_config()
        self.rkey = digest(self.repo_files, self.cfg)
        self.lock = threading.Lock()
        self.olocks = {}

    def engine(self):
        with open(os.path.join(B, ".lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            key = digest([os.path.join(V, "engine", f) for f in ("mcrt.cpp", "mc.h", "mkshadow.sh", "build_engine.sh")])
            stamp = os.path.join(B, ".engine")
            if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(B + "/libmcrt.so")):
                for p in ("libmcrt.so", "shadow"):
                    p = os.path.join(B, p)
                    if os.path.isdir(p): shutil.rmtree(p)
                    elif os.path.exists(p): os.unlink(p)
                r = sh(["bash", os.path.join(V, "engine/build_engine.sh"), B])
                if r.returncode: die("engine build failed:\n" + r.stdout[-4000:])
                open(stamp, "w").write(key)
            self.ekey = key

    def confdir(self):
        d = os.path.join(B, "conf", hashlib.sha256(self.cfg.encode()).hexdigest()[:12])
        p = os.path.join(d, "stlab/config.hpp")
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = p + ".%d.%d" % (os.getpid(), threading.get_ident())
            open(t, "w").write(self.cfg)
            os.replace(t, p)
        return d

    def obj(self, src, seq):
        flags = SEQFLAGS if seq else MCFLAGS
        hdrs = [os.path.join(V, "harness", f) for f in sorted(os.listdir(V + "/harness")) if f.endswith(".h")]
        key = digest([src] + hdrs + [V + "/engine/mc.h"], self.rkey + ("" if seq else self.ekey) + " ".join(flags))
        d = os.path.join(B, "obj", key)
        o = os.path.join(d, os.path.basename(src) + ".o")
        with self.lock: ol = self.olocks.setdefault(o, threading.Lock())
        with ol:
            return self._obj(src, seq, flags, d, o)

    def _obj(self, src, seq, flags, d, o):
        if os.path.exists(o): return o
        os.makedirs(d, exist_ok=True)
        t = o + ".%d" % os.getpid()
        inc = ["-I" + V + "/engine", "-I" + V + "/harness", "-I" + R + "/include"]
        # a generated config.hpp may lie in /repo/include: ours must win, whatever it says
        cmd = ["g++"] + flags + ([] if seq else ["-isystem", B + "/shadow"]) + ["-I" + self.confdir()] + inc + ["-c", src, "-o", t]
        r = sh(cmd)
        if r.returncode: raise RuntimeError("compiling %s failed:\n%s" % (src, r.stdout[:6000]))
        os.replace(t, o)
        return o

    def exe(self, name, pool):
        src = os.path.join(V, "harness", name + ".cpp")
        seq = name.startswith("seq_")
        lib = [] if seq and "USES_LIB" not in open(src).read() else [os.path.join(R, "src/pre_exit.cpp"), os.path.join(R, "src/concurrency/default_executor.cpp")]
        lib = [f for f in lib if os.path.exists(f)]
        if lib:  # any further library source a change may have added
            lib = [f for f in files_under(os.path.join(R, "src")) if f.endswith(".cpp") and not f.endswith(("main_executor.cpp",))]
        objs = list(pool.map(lambda s: self.obj(s, seq), [src] + lib + ([V + "/engine/seq.cpp"] if seq else [])))
        key = digest([], " ".join(objs) + ("" if seq else self.ekey))
        d = os.path.join(B, "exe", key)
        x = os.path.join(d, name)
        if os.path.exists(x): return x
        os.makedirs(d, exist_ok=True)
        t = x + ".%d" % os.getpid()
        if seq:
            cmd = ["g++", "-fsanitize=address,undefined", "-pthread"] + objs + ["-o", t]
        else:
            m = os.path.join(B, "main-%s.o" % self.ekey)
            with self.lock:
                if not os.path.exists(m):
                    tm = m + ".%d" % os.getpid()
                    r = sh(["g++", "-std=c++20", "-O1", "-c", V + "/engine/main.cpp", "-o", tm])
                    if r.returncode: raise RuntimeError(r.stdout)
                    os.replace(tm, m)
            cmd = ["g++", "-no-pie", "-Wl,-z,norelro,-z,now", m] + objs + ["-o", t, "-L", B, "-lmcrt", "-Wl,-rpath," + B, "-pthread"]
        r = sh(cmd)
        if r.returncode: raise RuntimeError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.replace(t, x)
        return x

    def prune(self, keep=60):
        for sub in ("obj", "exe"):
            d = os.path.join(B, sub)
            if not os.path.isdir(d): continue
            es = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime, reverse=True)
            for e in es[keep:]:
                if time.time() - os.path.getmtime(e) > 3600: shutil.rmtree(e, ignore_errors=True)

def props_of(src):
    """The properties a harness source has scenarios for: its first line says so."""
    m = re.match(r"// PROPS: ([C0-9 ]+)", open(src).read())
    return m.group(1).split() if m else []

# ---------------------------------------------------------------- running
def run_exe(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"

def symbolise(exe, replay):
    try:
        txt = open(replay).read()
        pcs = re.findall(r"\b0x[0-9a-f]+\b", "\n".join(l for l in txt.splitlines() if l.startswith("stack")))
        if not pcs: return
        r = sh(["addr2line", "-Cfpe", exe] + pcs, timeout=120)
        lines = r.stdout.splitlines()
        with open(replay, "a") as f:
            for pc, l in zip(pcs, lines): f.write("# %s %s\n" % (pc, l[:240]))
    except Exception:
        pass

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.prop
    hs = {}
    for f in sorted(os.listdir(V + "/harness")):
        if not f.endswith(".cpp"): continue
        if prop in props_of(V + "/harness/" + f): hs[f[:-4]] = 1
    if not hs: die("no scenarios for " + prop)
    b = Builder()
    if any(not h.startswith("seq_") for h in hs): b.engine()
    else: b.ekey = ""
    exes = {}
    with ThreadPoolExecutor(NCPU) as outer, ThreadPoolExecutor(NCPU) as inner:
        fut = {outer.submit(b.exe, h, inner): h for h in hs}
        try:
            for f in as_completed(fut): exes[fut[f]] = f.result()
        except RuntimeError as e:
            die(str(e))
    b.prune()
    tbuild = time.time() - t0
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop]
    open_k = [k for k in known if k.get("status") == "open"]
    # jobs
    jobs = []
    for h in hs:
        rc, out, err = run_exe([exes[h], "--list"], 60)
        if rc: die("%s --list failed (%d): %s" % (h, rc, (out + err)[-2000:]))
        for l in out.splitlines():
            w = l.split()
            if len(w) < 6 or prop not in w[1].split(",") or (a.only and not re.search(a.only, w[0])): continue
            name, props, tonly, budget, mode, mthor = w[0], w[1], int(w[2]), float(w[3]), int(w[4]), int(w[5])
            if tonly and tier == "quick": continue
            jobs.append(dict(h=h, name=name, budget=budget, mode=(mthor if tier == "thorough" and mthor >= 0 else mode)))
    if not jobs: die("no jobs for " + prop)
    total = a.budget or (float(os.environ.get("VERIF_QUICK_S", "45")) if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "600")))
    total = max(10.0, min(total, 840 - tbuild))
    deadline = t0 + tbuild + total
    default_b = 12.0 if tier == "quick" else max(60.0, total / max(1.0, len(jobs) / NCPU))
    os.makedirs(V + "/evidence", exist_ok=True)
    rdir = os.path.join(B, "replay", prop); os.makedirs(rdir, exist_ok=True)
    stop = threading.Event(); results = []; lk = threading.Lock()

    def run_mode(j, mode, bud, rp):
        cmd = [exes[j["h"]], "--run", j["name"], "--mode", str(mode), "--budget", "%.1f" % bud, "--replay-out", rp]
        if tier == "thorough": cmd.append("--thorough")
        for k in open_k:
            if re.fullmatch(k.get("scenario", ".*"), j["name"]): cmd += ["--ignore", k["match"]]
        rc, out, err = run_exe(cmd, bud * 3 + 120)
        res = None
        for l in out.splitlines():
            if l.startswith("{"):
                try: res = json.loads(l)
                except ValueError: pass
        return rc, res, (err or "")[-1500:]

    def one(j):
        """Iterated bounds: 0, 1, ... preemptions up to the scenario's bound; or unbounded DPOR, with 1 and 2
        preemptions as a fallback where that does not finish in time."""
        if stop.is_set(): return
        bud = j["budget"] or default_b
        if tier == "thorough": bud = max(bud, default_b)
        rp = os.path.join(rdir, j["name"] + ".replay")
        if os.path.exists(rp): os.unlink(rp)
        seq = j["h"].startswith("seq_")
        plan = [0] if seq or j["mode"] == 0 else list(range(1, j["mode"] + 1))
        r = dict(j); r["replay"] = rp; r["runs"] = []; t1 = time.time()
        while plan:
            m = plan.pop(0)
            b = max(3.0, min(bud, deadline - time.time()))
            rc, res, err = run_mode(j, m, b, rp)
            r["rc"] = rc; r["err"] = err
            if res is None: break
            r["runs"].append(dict(mode=m, complete=res.get("complete"), executions=res.get("executions"), states=res.get("states"), transitions=res.get("transitions")))
            old = r.get("res")
            if old:
                for k in ("executions", "states", "transitions"): res[k] = res.get(k, 0) + old.get(k, 0)
                for k in ("outcomes", "ignored"):
                    d = dict(old.get(k) or {}); 
                    for kk, vv in (res.get(k) or {}).items(): d[kk] = d.get(kk, 0) + vv
                    res[k] = d
                res["n_outcomes"] = max(res.get("n_outcomes") or 0, old.get("n_outcomes") or 0)
                if old.get("fallback"): res["complete"] = False; res["fallback"] = True
            r["res"] = res
            if rc or stop.is_set(): break
            if not res.get("complete"):
                if m == 0 and not seq and not res.get("fallback"): res["fallback"] = True; plan = [2, 3]
                elif not res.get("fallback"): break
            if time.time() > deadline: break
        if r.get("rc") == 1:
            # replay before report: the same schedule must fail again, twice, in fresh processes
            oks = []
            for _ in range(2):
                c, o, e = run_exe([exes[j["h"]], "--run", j["name"], "--mode", str(m), "--replay", rp] + (["--thorough"] if tier == "thorough" else []), 120)
                oks.append(c == 1 and "REPRODUCED" in o and "NOT REPRODUCED" not in o)
            r["confirmed"] = all(oks)
            if r["confirmed"]:
                symbolise(exes[j["h"]], rp)
                stop.set()
        with lk: results.append(r)
        if a.v:
            x = r.get("res", {})
            print("  %-36s rc=%d %s %s exec=%s states=%s trans=%s out=%s %.1fs %s" % (j["name"], r["rc"], "complete" if x.get("complete") else "CAPPED", "".join("%d%s " % (q["mode"], "" if q["complete"] else "!") for q in r["runs"]), x.get("executions"), x.get("states"), x.get("transitions"), x.get("n_outcomes"), time.time() - t1, x.get("violations") or r["err"][-300:] if r["rc"] else ""), flush=True)

    jobs.sort(key=lambda j: -(j["budget"] or default_b))
    with ThreadPoolExecutor(NCPU) as pool: list(pool.map(one, jobs))
    results.sort(key=lambda r: r["name"])
    viol = [r for r in results if r["rc"] == 1 and r.get("confirmed")]
    unconf = [r for r in results if r["rc"] == 1 and not r.get("confirmed")]
    errs = [r for r in results if r["rc"] not in (0, 1) or "res" not in r]
    # evidence
    S = lambda k: sum(int(r.get("res", {}).get(k, 0) or 0) for r in results)
    samples = []
    for r in results:
        x = r.get("res", {})
        oc = x.get("outcomes", {})
        if isinstance(oc, dict): oc = dict(list(oc.items())[:6])
        samples.append(dict(scenario=r["name"], harness=r["h"], target_mode=r["mode"], complete=x.get("complete"), runs=r["runs"], executions=x.get("executions"),
                            states=x.get("states"), transitions=x.get("transitions"), outcomes=oc, n_outcomes=x.get("n_outcomes"), threads=x.get("threads")))
    complete = [r["name"] for r in results if r.get("res", {}).get("complete")]
    capped = [r["name"] for r in results if r.get("res") and not r["res"].get("complete")]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=S("states"), transitions=S("transitions"), traces_validated_against_impl=S("executions"),
                            samples=samples, exhaustive=bool(results) and not capped and not errs and not viol,
                            scenarios_explored=len(results), scenarios_completed_within_bounds=len(complete), scenarios_capped_by_time=capped,
                            outcomes_distinct=S("n_outcomes"), build_s=round(tbuild, 1),
                            how="every execution is an execution of the implementation itself (compiled from the current working tree); "
                                "states = scheduling/choice points at which an alternative was decided, transitions = visible operations executed, traces = complete executions",
                            errors=[dict(scenario=r["name"], rc=r["rc"], err=r["err"]) for r in errs],
                            unconfirmed=[dict(scenario=r["name"], res=r.get("res")) for r in unconf]),
              assumptions=["sequentially consistent interleavings of the scenario's threads (data races are reported separately, by happens-before)",
                           "bounds: the scenario's threads, operations and, where mode > 0, mode-1 preemptions",
                           "libstdc++ and the compiler are trusted"],
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(V + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    for k in open_k:
        hits = [r["name"] for r in results if re.fullmatch(k.get("scenario", ".*"), r["name"]) and any(k["match"] in m for m in (r.get("res", {}).get("ignored") or {}))]
        if hits: print("KNOWN-FINDING: property=%s %s [%s]" % (prop, k["what"], ", ".join(hits)))
    for r in unconf: print("unconfirmed (not reported as a violation): %s %s" % (r["name"], r.get("res", {}).get("violations")))
    for r in errs: print("scenario error: %s rc=%d %s" % (r["name"], r["rc"], r["err"][-600:]))
    print("%s %s: %d scenarios (%d complete, %d capped%s), %d executions, %d states, %d transitions, %.1f s" % (
        prop, tier, len(results), len(complete), len(capped), (": " + ", ".join(capped)) if capped else "", S("executions"), S("states"), S("transitions"), time.time() - t0))
    if viol:
        r = viol[0]
        for v in r["res"].get("violations", [])[:3]: print("  %s: %s" % (v.get("kind"), v.get("message")))
        for l in open(r["replay"]).read().splitlines():
            if l.startswith("#"): print("  " + l)
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
        return 1
    if errs and len(errs) == len(results): return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
