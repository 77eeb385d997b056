#!/usr/bin/env python3
"""Deterministic simulation of susa: build, explore, minimise, replay.

  check.py C01 [--tier quick|thorough] [--seed N]   explore one property
  check.py --replay FILE                            repeat one recorded execution
  check.py --build                                  build every simulator
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SUSA_REPO", "/repo")
SIM, BUILD, REPLAYS, EVID = V + "/sim", V + "/build", V + "/replays", V + "/evidence"
JOBS = max(2, min(8, os.cpu_count() or 2))
CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-fsized-deallocation", "-fno-pie", "-w", "-I" + REPO + "/inc"]
FLAVOURS = {0: ["-DSUSA_NDEBUG", "-DSUSA_NASSERT"], 1: []}
RTF = ["-std=c++17", "-O2", "-g", "-fsized-deallocation", "-fno-pie", "-w"]
WRAP = "malloc calloc realloc free abort exit __assert_fail time clock_gettime gettimeofday clock localtime localtime_r gmtime rand srand pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit".split()
# simulated executions of the quick tier (thorough: twenty times as many)
RUNS = {"C01": 110000, "C02": 180000, "C03": 42000, "C04": 100000, "C05": 68000, "C06": 27000, "C07": 15000, "C08": 15000, "C09": 24000, "C10": 26000, "C11": 180000, "C12": 40000}
REAL = "all of /repo/src and /repo/inc (matrix, array, bitset, allocators, tracker, linear algebra, fft, signal, search, statistics, generators, codes, channel, modulation, clock, text), compiled from the working tree"
STUB = "operator new/delete and malloc family (simulated heap), thread scheduler, mutex/rwlock/once/guards, wall and monotonic clocks, time zone conversions' clock input, abort/exit/assert, stream devices of the harness"
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def error(msg):
    log("check error:", msg)
    sys.exit(3)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h


def flavours(prop):
    return [0, 1] if prop == "C02" else [0]


def sources(prop):
    out = ["core.cpp", "ops.cpp"] + sorted(os.path.basename(f) for f in glob.glob(SIM + "/w*.cpp") + glob.glob(SIM + "/calc_*.cpp"))
    return [SIM + "/" + f for f in out] + [SIM + "/scn_" + prop.lower() + ".cpp"] + sorted(glob.glob(REPO + "/src/*.cpp"))


def build(props):
    """Builds the simulators from the working tree; returns {(prop, flavour): binary}. Objects are reused only when every input is identical."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    ver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    heads = [f for f in glob.glob(REPO + "/inc/**/*", recursive=True) if os.path.isfile(f)] + glob.glob(SIM + "/*.h")
    common = digest(heads).hexdigest() + ver
    todo, bins = {}, {}
    for prop in props:
        for fl in flavours(prop):
            objs = []
            for s in sources(prop) + [SIM + "/rt.cpp"]:
                flags = RTF if s.endswith("/sim/rt.cpp") else BASE + FLAVOURS[fl]
                k = hashlib.sha256((common + s + " ".join(flags)).encode() + open(s, "rb").read()).hexdigest()[:24]
                o = BUILD + "/obj/" + os.path.basename(s) + "." + k + ".o"
                objs.append(o)
                if not os.path.exists(o):
                    todo[o] = [CXX] + flags + ["-c", s, "-o", o + ".part%d" % os.getpid()]
            bins[(prop, fl)] = (BUILD + "/%s-%d" % (prop.lower(), fl), objs)

    def cc(item):
        o, cmd = item
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return cmd[-3] + ":\n" + r.stderr[-3000:]
        os.rename(cmd[-1], o)
        return None

    def ld(item):
        key, (b, objs) = item
        r = subprocess.run([CXX, "-no-pie", "-pthread"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-o", b] + objs, capture_output=True, text=True)
        return r.stderr[-3000:] if r.returncode else None

    with cf.ThreadPoolExecutor(JOBS) as ex:
        big = sorted(todo.items(), key=lambda i: 0 if "/calc_" in i[0] or "/w" in i[0] or "/scn_" in i[0] else 1)
        for bad in list(ex.map(cc, big)) + list(ex.map(ld, bins.items())):
            if bad:
                error("build failed: " + bad)
    used = {o for _, objs in bins.values() for o in objs}
    stale = sorted((f for f in glob.glob(BUILD + "/obj/*.o") if f not in used), key=os.path.getmtime)
    for f in stale[:-400] if len(stale) > 400 else []:
        os.unlink(f)
    return {k: b for k, (b, _) in bins.items()}


# ------------------------------------------------------------------ plans
class Plan:
    def __init__(self, text):
        self.head, self.cfg, self.ops, self.sw = [], [], [], []
        for l in text.splitlines():
            w = l.split()
            if not w or w[0] in ("#", "plan") or l.startswith("#"):
                continue
            if w[0] == "cfg":
                self.cfg.append(w)
            elif w[0] == "op":
                self.ops.append(w)
            elif w[0] == "sw":
                self.sw.append(w)
            else:
                self.head.append(w)

    def prop(self):
        return next(h[1] for h in self.head if h[0] == "prop")

    def flavour(self):
        return int(next((c[2] for c in self.cfg if c[1] == "flavour"), 0))

    def text(self):
        return "plan 1\n" + "".join(" ".join(l) + "\n" for l in self.head + self.cfg + self.ops + self.sw)

    def copy(self, ops=None, sw=None, cfg=None):
        p = Plan("")
        p.head, p.cfg, p.ops, p.sw = self.head, self.cfg if cfg is None else cfg, self.ops if ops is None else ops, self.sw if sw is None else sw
        return p


class Lab:
    """Runs single plans in fresh processes."""

    def __init__(self, bins, work):
        self.bins, self.work, self.n = bins, work, 0
        os.makedirs(work, exist_ok=True)

    def run(self, plan, tag=None):
        self.n += 1
        f = "%s/t%06d" % (self.work, self.n)
        open(f, "w").write(plan.text())
        try:
            r = subprocess.run([self.bins[(plan.prop(), plan.flavour())], "--run", f], capture_output=True, text=True, env=ENV, timeout=300)
        except subprocess.TimeoutExpired:
            return {"ok": True, "kind": "timeout", "msg": "", "hash": ""}
        finally:
            os.unlink(f)
        try:
            return json.loads(r.stdout)
        except ValueError:
            return {"ok": True, "kind": "error", "msg": r.stderr[-300:], "hash": ""}


def minimise(lab, plan, kind, seconds):
    """Delta debugging over operations, preemptions, faults and arguments; the violation kind stays the same."""
    end = time.time() + seconds
    ex = cf.ThreadPoolExecutor(JOBS)
    evals = [0]

    def fails(p):
        evals[0] += 1
        r = lab.run(p)
        return not r["ok"] and r["kind"] == kind

    def first(cands):
        # the first failing candidate, evaluated JOBS at a time
        for i in range(0, len(cands), JOBS):
            if time.time() > end:
                return None
            part = cands[i:i + JOBS]
            for c, bad in zip(part, ex.map(fails, part)):
                if bad:
                    return c
        return None

    def chunks(get, put):
        nonlocal plan
        size = max(1, len(get(plan)) // 2)
        while size and time.time() < end:
            l = get(plan)
            c = first([put(plan, l[:i] + l[i + size:]) for i in range(len(l) - size if len(l) % size == 0 else (len(l) // size) * size, -1, -size)])
            if c is not None:
                plan = c
                size = min(size, max(1, len(get(plan))))
                if not get(plan):
                    break
            else:
                size //= 2

    last = None
    while last != plan.text() and time.time() < end:
        last = plan.text()
        chunks(lambda p: p.sw, lambda p, l: p.copy(sw=l))
        chunks(lambda p: p.ops, lambda p, l: p.copy(ops=l))
        # faults
        while time.time() < end:
            c = first([plan.copy(ops=plan.ops[:i] + [o[:o.index("!")]] + plan.ops[i + 1:]) for i, o in enumerate(plan.ops) if "!" in o])
            if c is None:
                break
            plan = c
        # arguments, gaps and configuration values towards zero
        def smaller(v):
            v = int(v)
            return [x for x in dict.fromkeys([0, 1, v // 2, v - 1 if v > 0 else v + 1]) if abs(x) < abs(v)]
        for what in ("ops", "sw", "cfg"):
            rows = getattr(plan, what)
            for i in range(len(rows)):
                lo = 3 if what == "ops" else 2 if what == "cfg" else 2
                for j in range(lo, len(rows[i])):
                    if time.time() > end:
                        break
                    while True:
                        rows = getattr(plan, what)
                        w = rows[i]
                        if j >= len(w) or not re.fullmatch(r"-?\d+", w[j]) or (what == "cfg" and w[1] == "flavour"):
                            break
                        c = first([plan.copy(**{what: rows[:i] + [w[:j] + [str(x)] + w[j + 1:]] + rows[i + 1:]}) for x in smaller(w[j])])
                        if c is None:
                            break
                        plan = c
    ex.shutdown()
    return plan, evals[0]


def replay_file(lab, prop, plan, res, note):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s/%s-%s-%s.plan" % (REPLAYS, prop, res["kind"], hashlib.sha256(plan.text().encode()).hexdigest()[:10])
    with open(name, "w") as f:
        f.write("# repeat with: python3 check.py --replay %s\n# expect kind=%s hash=%s\n# %s\n" % (name, res["kind"], res["hash"], res["msg"].replace("\n", " ")))
        for n in note:
            f.write("# %s\n" % n)
        f.write(plan.text())
    return name


def findings(prop):
    """Known findings that are not repaired: 'finding: property=<id> kind=<kind> op=<regex over the violation text> :: description'."""
    out = []
    f = V + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(\S+) :: (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def read_sets(path):
    d = open(path, "rb").read()
    out, o = [], 0
    for _ in range(3):
        n = struct.unpack_from("<Q", d, o)[0]
        out.append(set(struct.unpack_from("<%dQ" % n, d, o + 8)))
        o += 8 + 8 * n
    return out


def check(prop, tier, seed):
    t0 = time.time()
    bins = build([prop])
    t_build = time.time() - t0
    log("%s: built in %.1f s" % (prop, t_build))
    work = BUILD + "/work-" + prop.lower()
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(work + "/*"):
        os.unlink(f)
    lab = Lab(bins, work)
    total = RUNS[prop] * (20 if tier == "thorough" else 1)
    cap = 600 if tier == "quick" else 6 * 3600
    fls = flavours(prop)
    rounds = 6 if tier == "quick" else 60
    per = max(1, total // (JOBS * rounds))
    agg, counters, samples, sets, vios, rule, errors = {}, {}, [], [set(), set(), set()], [], "", []
    workers = 0

    def batch(w, rnd):
        fl = fls[w % len(fls)]
        tag = "%02d%03d" % (w, rnd)
        start = w + rnd * per * JOBS
        r = subprocess.run([bins[(prop, fl)], "--batch", str(start), str(JOBS), str(per), str(seed), "%s/p%s" % (work, tag), "%s/h%s" % (work, tag), "%d" % cap], capture_output=True, text=True, env=ENV)
        return w, fl, tag, r

    t1 = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rnd in range(rounds):
            for w, fl, tag, r in ex.map(lambda w: batch(w, rnd), range(JOBS)):
                workers += 1
                try:
                    d = json.loads(r.stdout)
                except ValueError:
                    errors.append("worker %d: exit %d %s" % (w, r.returncode, r.stderr[-400:]))
                    continue
                if r.returncode not in (0, 1):
                    errors.append("worker %d: exit %d %s" % (w, r.returncode, r.stderr[-400:]))
                for k, v in d.items():
                    if isinstance(v, (int, float)):
                        agg[k] = agg.get(k, 0) + v
                for k, v in d["counters"].items():
                    if k:
                        counters[k] = counters.get(k, 0) + v
                rule = d["rule"]
                if len(samples) < 3:
                    samples += d["samples"][:1]
                for a, b in zip(sets, read_sets("%s/h%s" % (work, tag))):
                    a |= b
                os.unlink("%s/h%s" % (work, tag))
                if "violation" in d:
                    v = d["violation"]
                    known = [k for k in findings(prop) if k[0] == v["kind"] and re.search(k[1], v["msg"])]
                    v["known"] = bool(known)
                    v["plan"] = open("%s/p%s" % (work, tag)).read()
                    vios.append(v)
            if any(not v["known"] for v in vios) or errors or time.time() - t1 > cap:
                break
    t_run = time.time() - t1
    new = sorted((v for v in vios if not v["known"]), key=lambda v: (v["kind"] == "hang", v["index"]))
    line, name = None, None
    if new:
        for v in new[:4]:
            orig = Plan(v["plan"])
            r0 = lab.run(orig)
            if r0["ok"] or r0["kind"] != v["kind"]:
                errors.append("violation of seed %d index %d (%s) does not repeat in a fresh process: %s" % (seed, v["index"], v["kind"], r0))
                continue
            small, evals = minimise(lab, orig, v["kind"], 60 if tier == "quick" else 300)
            a, b = lab.run(small), lab.run(small)
            if a["ok"] or a["hash"] != b["hash"] or a["kind"] != v["kind"]:
                small, a, b = orig, lab.run(orig), lab.run(orig)
            if a["ok"] or a["hash"] != b["hash"]:
                errors.append("violation of seed %d index %d does not repeat exactly" % (seed, v["index"]))
                continue
            name = replay_file(lab, prop, small, a, ["found with VERIF_SEED=%d, execution %d; %d operations and %d preemptions minimised to %d and %d in %d runs" % (seed, v["index"], len(orig.ops), len(orig.sw), len(small.ops), len(small.sw), evals)])
            log("%s: %s: %s" % (prop, a["kind"], a["msg"]))
            log(small.text())
            line = "VIOLATION property=%s replay=%s" % (prop, name)
            break
    for kind, match, text in findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    faults = {"allocation request number n failed": agg.get("f_nth", 0), "allocation above a size limit failed": agg.get("f_cap", 0), "memory outage (every request fails)": agg.get("f_outage", 0), "oversized request failed": agg.get("f_big", 0),
              "block handed out with non-zero or stale contents": agg.get("m_dirty", 0), "block reused immediately after its release": agg.get("m_reused", 0), "released block overwritten": agg.get("m_scribbled", 0), "stack overwritten before a call": agg.get("m_painted", 0),
              "forced preemption": agg.get("switches", 0), "simulated process ended early (abort, exit)": agg.get("process_stops", 0)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": int(agg.get("runs", 0)), "distinct_nontrivial": len(sets[2]),
                       "rule": "one execution = one plan (heap configuration, operations, faults, preemptions) drawn from the seed and its index; non-trivial: " + rule + "; distinct by the hash of its observations, allocation counts and interleaving",
                       "samples": samples, "nontrivial_runs": int(agg.get("nontrivial", 0)),
                       "runs_per_hour": int(agg.get("runs", 0) / max(t_run, 1e-3) * 3600), "seeds_per_hour": int(agg.get("runs", 0) / max(t_run, 1e-3) * 3600),
                       "simulated_processes": int(agg.get("processes", 0)), "simulated_steps": int(agg.get("steps", 0)), "simulated_seconds": agg.get("sim_ns", 0) / 1e9,
                       "faults_fired": {k: int(v) for k, v in faults.items()}, "probes": counters,
                       "distinct_interleavings": len(sets[0]), "interleaving_measure": "hash of the sequence of (task, preemption point, shared-state event) of an execution",
                       "distinct_states": len(sets[1]), "state_measure": "hash of all observations, allocation and step counts of an execution",
                       "race_checks": int(agg.get("race_checks", 0)), "clock_reads": int(agg.get("clock_reads", 0)), "allocations": int(agg.get("allocs", 0)),
                       "determinism_reruns": int(agg.get("det_checks", 0)), "determinism_failures": int(agg.get("nondeterministic", 0)),
                       "builds": ["assertions off (SUSA_NASSERT, SUSA_NDEBUG)", "default build"][: len(fls)], "real_components": REAL, "stubbed_components": STUB,
                       "build_seconds": round(t_build, 1), "explore_seconds": round(t_run, 1), "workers": JOBS},
          "assumptions": ["a clean run is evidence over the sampled executions, not proof", "sequentially consistent interleavings at instrumented accesses; weaker orderings are reported as data races by the happens-before detector"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if line else 0}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open("%s/%s.json" % (EVID, prop), "w"), indent=1)
    for f in glob.glob(work + "/*"):
        os.unlink(f)
    os.rmdir(work)
    if line:
        print(line, flush=True)
        return 1
    if errors:
        error("; ".join(errors))
    if not agg.get("runs") or not sets[2]:
        error("nothing was explored")
    print("%s: held on %d executions (%d distinct non-trivial), %.1f s" % (prop, agg["runs"], len(sets[2]), time.time() - t0))
    return 0


def replay(path):
    text = open(path).read()
    plan = Plan(text)
    bins = build([plan.prop()])
    lab = Lab(bins, BUILD + "/work-replay")
    a, b = lab.run(plan), lab.run(plan)
    m = re.search(r"expect kind=(\S+) hash=(\S+)", text)
    print(json.dumps(a, indent=1))
    if a != b:
        error("not deterministic")
    if a["ok"]:
        print("the recorded violation does not occur on this tree")
        return 0
    if m:
        print("same execution as recorded" if m.group(2) == a["hash"] else "the same plan runs differently on this tree")
    print("VIOLATION property=%s replay=%s" % (plan.prop(), path))
    return 1


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        build(sorted(RUNS))
        return 0
    if a[:1] == ["--replay"]:
        return replay(os.path.abspath(a[1]))
    if not a or a[0] not in RUNS:
        print(__doc__)
        return 2
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1") or 1)
    return check(a[0], tier if tier == "thorough" else "quick", seed)


sys.exit(main())
