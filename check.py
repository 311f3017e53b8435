#!/usr/bin/env python3
"""Deterministic simulation checks for arr-ai/frozen.

  check.py PROPERTY quick|thorough    decide a property (exit 0 or 1; 2 = no answer)
  check.py replay FILE                run a replay file (exit 1 = violated again)
  check.py selftest                   the same seeds in two processes agree, run by run

REPO (default /repo) is instrumented and built afresh every time; everything is
written below a scratch directory in .work, which is removed at the end, except
replay files (replay/) and evidence (evidence/).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, queue

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
CORES = max(2, min(8, os.cpu_count() or 2))

CORE, MORE, RARE, INT, INT2, LAZY, REL = "m_core", "m_more", "m_rare", "m_int", "m_int2", "m_lazy", "m_rel"
ALL = [CORE, MORE, RARE, INT, INT2, LAZY, REL]

# Environments: FROZEN_CONCURRENCY and GOMAXPROCS are read by the library's
# package initialisers, so each pair is a process of its own.
E_PAR = ("-64", 16)     # parallel at the two top levels for any size
E_PAR1 = ("-64", 2)     # ... at the top level only
E_DEEP = ("-64", 1024)  # ... at four levels
E_SMALL = ("0", 16)     # parallel from 8 (16) elements on
E_MID = ("3", 16)       # parallel from 64 elements on
E_MID1 = ("6", 1)
E_DEF = (None, 16)      # as shipped
E_OFF = ("off", 16)
E_JUNK = ("many", 4)

MIX = [(E_PAR, 4), (E_PAR1, 1), (E_SMALL, 3), (E_MID, 2), (E_OFF, 2), (E_DEF, 1), (E_DEEP, 1)]
SEQ = [(E_OFF, 3), (E_PAR, 3), (E_SMALL, 2), (E_DEF, 1), (E_MID, 1)]
PARH = [(E_PAR, 5), (E_SMALL, 4), (E_PAR1, 2), (E_DEEP, 2), (E_MID, 2), (E_OFF, 1), (E_DEF, 1), (E_JUNK, 1)]


class Plan:
    def __init__(self, machines, runs, envs=MIX, mem=0, branch4=0, memp=0):
        self.machines, self.runs, self.envs = machines, runs, envs
        # mem is the share (in percent) of runs made in the build with memory
        # hooks, where memp in a hundred use them; branch4 the share made on
        # the build with four-way nodes.
        self.variants = []
        if mem < 100:
            self.variants.append(Variant("nomem", "", 100 - mem - branch4, 0))
        if mem:
            self.variants.append(Variant("mem", "", mem, memp))
        if branch4:
            self.variants.append(Variant("mem" if mem == 100 else "nomem", "branch4", branch4, 0))


class Variant:
    """A build of the harness, its share of the runs and what they use of it."""

    def __init__(self, mode, tag, share, memp):
        self.mode, self.tag, self.share, self.memp = mode, tag, share, memp


# Quick: number of runs, spread over the variants and environments by weight.
QUICK = {
    "C01": Plan([CORE, MORE, INT, LAZY, REL], 160000, mem=20, memp=60),
    "C02": Plan([CORE], 130000, PARH, mem=30, branch4=20, memp=75),
    "C03": Plan([CORE, INT, LAZY, REL], 80000, PARH, mem=100),
    "C04": Plan([LAZY], 450000, SEQ, mem=15, memp=60),
    "C05": Plan([CORE, MORE, INT, LAZY, REL], 160000, PARH, mem=15, memp=70),
    "C06": Plan([CORE, INT], 160000, PARH, mem=15, memp=70),
    "C07": Plan([CORE, MORE], 140000, MIX, mem=12, memp=60),
    "C08": Plan([CORE, MORE, INT, LAZY], 140000, MIX, mem=15, memp=60),
    "C09": Plan([CORE, INT, LAZY, REL], 120000, PARH, mem=12, memp=60),
    "C10": Plan([CORE, RARE, INT, LAZY, REL], 90000, SEQ, mem=12, memp=60),
    "C11": Plan([CORE, MORE, RARE], 140000, SEQ, mem=12, memp=60),
    "C12": Plan([INT, INT2], 140000, SEQ, mem=15, memp=60),
    "C13": Plan([REL], 250000, SEQ, mem=15, memp=60),
    "C14": Plan([CORE, MORE, RARE, INT], 180000, SEQ, mem=12, memp=60),
}
THOROUGH_FACTOR = 12

RULE = ("Each evaluation is one simulated execution: a seed draws a machine, an element type, a hash "
        "distribution, a program of operations for one to four clients, a fault plan and a schedule policy; "
        "the simulator decides every interleaving. It counts as distinct and non-trivial when its execution "
        "hash (the sequence of scheduling decisions, synchronisations, callbacks and outcomes) was not seen "
        "before in its worker and it had at least one task switch, one library goroutine or one injected fault.")

REAL = ["all packages of arr-ai/frozen, compiled from /repo's working tree after instrumentation",
        "github.com/arr-ai/hash", "the Go runtime's memory allocator, encoding/json and fmt"]
STUB = ["goroutines, channels, select, sync, sync/atomic and time of the code under test (simulated tasks and objects)",
        "map iteration order (seeded permutation)", "hash seeds (set per run)",
        "element types, callbacks, formatter states and writers (harness code with fault injection)"]


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off")
    for k in ("FROZEN_CONCURRENCY", "GOMAXPROCS", "GOFLAGS", "GOGC", "GODEBUG", "GOMEMLIMIT"):
        e.pop(k, None)
    return e


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Build:
    """A harness binary for one fan-out."""

    def __init__(self, work, machines, mode, tag, instrument, variant=None):
        self.machines, self.want, self.tag, self.variant = machines, mode, tag, variant
        self.dir = os.path.join(work, "b_%s_%s" % (mode, tag or "default"))
        env = goenv()
        if instrument:
            env["INSTRUMENT"] = instrument
        self.proc = subprocess.Popen(
            [os.path.join(ROOT, "lib", "build.sh"), REPO, self.dir, ",".join(machines), mode, tag],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def wait(self):
        out, _ = self.proc.communicate()
        if self.proc.returncode != 0:
            log(out[-6000:])
            return False
        self.bin = os.path.join(self.dir, "harness")
        self.mode = open(os.path.join(self.dir, "mode")).read().strip()
        return True


def instrumenter(work):
    p = os.path.join(work, "instrument")
    env = goenv()
    env["GOFLAGS"] = "-mod=mod"
    d = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(d):
        env["PATH"] = d + ":" + env["PATH"]
    r = subprocess.run(["go", "build", "-o", p, "./cmd/instrument"], cwd=os.path.join(ROOT, "sim"),
                       env=env, capture_output=True, text=True)
    if r.returncode != 0:
        log(r.stderr)
        sys.exit(2)
    return p


def runenv(conc, procs):
    e = goenv()
    if conc is not None:
        e["FROZEN_CONCURRENCY"] = conc
    e["GOMAXPROCS"] = str(procs)
    e["GODEBUG"] = "randautoseed=0"
    return e


class Job:
    def __init__(self, build, cfg, env, first, count):
        self.build, self.cfg, self.env, self.first, self.count = build, cfg, env, first, count
        self.records, self.summary = [], None
        self.dead = None
        self.deathrec = None
        self.proc = None


class Pool:
    """Runs jobs in worker processes, watching for death and stall."""

    def __init__(self, prop, seed, work, known, thorough, limit):
        self.prop, self.seed, self.work, self.known = prop, seed, work, known
        self.thorough, self.limit = thorough, limit
        self.stop = False
        self.lock = threading.Lock()
        self.n = 0
        self.restarts = 0

    def args(self, job, status, first=None, count=None):
        a = [job.build.bin, "work", "-prop", self.prop, "-seed", str(self.seed), "-cfg", str(job.cfg),
             "-first", str(job.first if first is None else first),
             "-count", str(job.count if count is None else count),
             "-status", status, "-limit", "%.0f" % max(5, self.limit - time.time())]
        if self.known:
            a += ["-known", ",".join(self.known)]
        return a + self.opts(job)

    def opts(self, job):
        a = ["-memp", str(job.build.variant.memp)] if job.build.variant.memp else []
        return a + (["-thorough"] if self.thorough else [])

    def run(self, job):
        with self.lock:
            self.n += 1
            status = os.path.join(self.work, "status.%d" % self.n)
            errf = os.path.join(self.work, "err.%d" % self.n)
            outf = os.path.join(self.work, "out.%d" % self.n)
        with open(outf, "w") as o, open(errf, "w") as e:
            job.proc = subprocess.Popen(self.args(job, status), env=runenv(*job.env), stdout=o, stderr=e)
        last, since, stalled = None, time.time(), False
        while job.proc.poll() is None:
            time.sleep(0.05)
            if self.stop:
                job.proc.kill()
                job.proc.wait()
                return
            now = time.time()
            if now - since > 2:
                s = readstatus(status)[0]
                if s != last:
                    last, since = s, now
                elif now - since > (400 if self.thorough else 150):
                    stalled = True
                    job.proc.kill()
                    job.proc.wait()
        for l in open(outf):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "record" in d:
                job.records.append(d["record"])
            if "summary" in d:
                job.summary = d["summary"]
        if job.summary is None:
            a, b = readstatus(status)
            job.dead = {"status": a, "op": b, "stalled": stalled, "rc": job.proc.returncode,
                        "stderr": tail(errf)}
        for f in (status, errf, outf):
            if os.path.exists(f):
                os.remove(f)

    def all(self, jobs, builds):
        q = queue.Queue()
        for j in jobs:
            q.put(j)

        def loop():
            while not self.stop and time.time() < self.limit:
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    return
                self.run(j)
                if j.dead:
                    j.deathrec = death_record(self, j, self.work)
                    if j.deathrec and self.prop in j.deathrec["violation"]["classes"]:
                        self.stop = True
                    elif j.deathrec and self.restarts < 40:
                        # Another property's violation: go on after it.
                        self.restarts += 1
                        nxt = j.deathrec["index"] + 1
                        if nxt < j.first + j.count:
                            k = Job(j.build, j.cfg, j.env, nxt, j.first + j.count - nxt)
                            jobs.append(k)
                            q.put(k)
                if j.records:
                    self.stop = True
        ts = [threading.Thread(target=loop) for _ in range(CORES)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def readstatus(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return "", ""
    f = lambda x: x.split(b"\0")[0].decode("utf8", "replace")
    return f(b[:512]), f(b[512:1024])


def tail(path, n=3000):
    s = open(path, errors="replace").read()
    return s[:n] if len(s) <= 2 * n else s[:n] + "\n...\n" + s[-n:]


def known_findings():
    k = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l)
            if m:
                k.setdefault(m[1], {})[m[2]] = m[3].strip()
    return k


def jobs_for(plan, builds, factor):
    jobs = []
    total = int(plan.runs * factor)
    wsum = sum(w for _, w in plan.envs)
    for bi, b in enumerate(builds):
        for ei, (env, w) in enumerate(plan.envs):
            n = total * b.variant.share // 100 * w // wsum
            cfg = bi * 100 + ei
            chunks = max(1, min(16 * int(max(1, factor // 2)), n // 400))
            size = -(-n // chunks)
            for c in range(chunks):
                jobs.append((c / chunks, Job(b, cfg, env, c * size, size)))
    # Chunk by chunk, so that every environment is reached early.
    jobs.sort(key=lambda x: x[0])
    return [j for _, j in jobs]


def death_record(pool, job, work):
    """The record of a run in which the worker process died or stalled."""
    d = job.dead
    try:
        index = int(d["status"].split()[0])
    except (ValueError, IndexError):
        return None
    gen = subprocess.run([job.build.bin, "gen", "-prop", pool.prop, "-seed", str(pool.seed), "-cfg", str(job.cfg),
                          "-first", str(index)] + pool.opts(job),
                         env=runenv(*job.env), capture_output=True, text=True)
    if gen.returncode != 0:
        return None
    rec = json.loads(gen.stdout)
    parts = d["op"].split()
    classes = {"C09"}
    opk = "?"
    if len(parts) >= 2:
        opk = parts[0]
        classes |= set(parts[1].split(","))
        if len(parts) > 2 and parts[2] == "1":
            classes.add("C05")
    first = next((l for l in d["stderr"].splitlines() if l.startswith(("fatal error", "panic", "runtime:"))), "")
    what = "stopped making progress" if d["stalled"] else "died (%s)" % (first or "exit %s" % d["rc"])
    rec["violation"] = {"classes": sorted(classes), "key": "death", "op": -1,
                        "msg": "the process %s during %s" % (what, opk)}
    rec["note"] = d["stderr"][:2000]
    return rec


def replay_cmd(b, path, env, timeout=300, verbose=False):
    try:
        r = subprocess.run([b, "replay"] + (["-v"] if verbose else []) + [path], env=runenv(*env),
                           capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -1, "stalled"


def violated(rec, rc):
    if rec["violation"]["key"] == "death":
        return rc not in (0, 1)
    return rc == 1


def settle(prop, pool, job, rec, work, tier):
    """Minimise, confirm in a fresh process and write the replay file."""
    raw = os.path.join(work, "raw.json")
    mini = os.path.join(work, "mini.json")
    envd = {"machines": job.build.machines, "mode": job.build.mode, "tag": job.build.tag,
            "conc": job.env[0], "procs": job.env[1], "seed": pool.seed, "cfg": job.cfg, "tier": tier}
    rec["env"] = envd
    rec["prefix"] = []
    json.dump(rec, open(raw, "w"))
    best = None
    # Does it fail by itself?
    rc, out = replay_cmd(job.build.bin, raw, job.env)
    if violated(rec, rc):
        best = raw
        limit = 45 if tier == "quick" else 120
        try:
            r = subprocess.run([job.build.bin, "minimise", "-limit", str(limit), raw, mini], env=runenv(*job.env),
                               capture_output=True, text=True, timeout=limit * 4 + 60)
            if r.returncode == 0 and os.path.exists(mini):
                m = json.load(open(mini))
                m["env"] = envd
                json.dump(m, open(mini, "w"))
                if violated(m, replay_cmd(job.build.bin, mini, job.env)[0]):
                    best = mini
        except subprocess.TimeoutExpired:
            pass
    else:
        # It needs the runs its worker made before it.
        rec["rerun"] = {"cfg": job.cfg, "first": job.first, "seed": pool.seed, "thorough": pool.thorough, "mem": job.build.variant.memp}
        rec["note"] = (rec.get("note") or "") + " fails only after the runs its worker made before it"
        json.dump(rec, open(raw, "w"))
        rc, out = replay_cmd(job.build.bin, raw, job.env, 600)
        if violated(rec, rc):
            best = raw
    if best is None:
        return None
    final = json.load(open(best))
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    path = os.path.join(ROOT, "replay", "%s-%s-%d-%d.json" % (prop, tier, job.cfg, rec["index"]))
    json.dump(final, open(path, "w"), indent=1)
    return path, final


def addup(tot, s):
    for k, v in s.items():
        if k in ("hashes", "pairs"):
            tot.setdefault(k, set()).update(v or [])
        elif k == "maxlive":
            tot[k] = max(tot.get(k, 0), v)
        elif isinstance(v, bool):
            tot[k] = tot.get(k, 0) + int(v)
        elif isinstance(v, (int, float)):
            tot[k] = tot.get(k, 0) + v
        elif isinstance(v, dict):
            t = tot.setdefault(k, {})
            for a, b in v.items():
                t[a] = b if isinstance(b, str) else t.get(a, 0) + b
        elif isinstance(v, list):
            tot.setdefault(k, []).extend(v)


def evidence(prop, tier, seed, tot, builds, plan, wall, buildwall, nviol, envruns, violations):
    runs = tot.get("runs", 0)
    simwall = max(0.001, wall - buildwall)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": tot.get("nontrivial", 0),
        "rule": RULE,
        "samples": tot.get("samples", [])[:4],
        "runs_per_hour": int(runs / simwall * 3600),
        "seeds_per_hour": int(runs / simwall * 3600),
        "simulated_steps": tot.get("steps", 0),
        "simulated_loop_and_call_ticks": tot.get("ticks", 0),
        "simulated_clock_ns": tot.get("simtime", 0),
        "instrumented_memory_accesses": tot.get("accesses", 0),
        "synchronisation_operations": tot.get("syncops", 0),
        "tasks": tot.get("tasks", 0),
        "library_goroutines": tot.get("libtasks", 0),
        "runs_with_library_goroutines": tot.get("parallel", 0),
        "runs_with_every_access_a_scheduling_point": tot.get("memruns", 0),
        "task_switches": tot.get("switches", 0),
        "preemptions": tot.get("preempts", 0),
        "max_live_tasks": tot.get("maxlive", 0),
        "distinct_interleavings": len(tot.get("hashes", ())),
        "distinct_interleavings_measure": "different execution hashes over all workers (each worker keeps at most 400000)",
        "distinct_switch_site_pairs": len(tot.get("pairs", ())),
        "faults_injected": tot.get("faults", {}),
        "fault_plans_not_reached": tot.get("unfired", 0),
        "observations_against_model": tot.get("obs", 0),
        "operations": tot.get("ops", {}),
        "schedule_policies": tot.get("policies", {}),
        "machines": tot.get("machines", {}),
        "environments": envruns,
        "builds": [{"fanout": "4-way" if b.tag == "branch4" else "8-way", "memory_hooks": b.mode == "mem",
                    "machines": b.machines} for b in builds],
        "determinism_rechecks": tot.get("rechecked", 0),
        "determinism_divergences": tot.get("diverged", 0),
        "violations_of_other_properties_seen": tot.get("others", {}),
        "known_findings_seen": tot.get("known", {}),
        "stopped_by_time_limit": tot.get("timedout", 0),
        "components_real": REAL, "components_stub": STUB,
        "build_wall_s": round(buildwall, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": [
              "goroutine interleavings are explored at synchronisation and callback points, and in runs with memory hooks at every instrumented access, under sequential consistency",
              "packages outside arr-ai/frozen run uninstrumented and atomically",
              "seeded search: absence of a violation holds for the runs counted, not for all executions"],
          "wall_s": round(wall, 1), "violations": nviol}
    if violations:
        ev["coverage"]["violation"] = violations
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(ROOT, "evidence", prop + ".json"))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) & ((1 << 63) - 1)
    thorough = tier == "thorough"
    plan = QUICK[prop]
    factor = float(os.environ.get("VERIF_FACTOR", "0")) or (THOROUGH_FACTOR if thorough else 1)
    if thorough:
        mach = {"C02": [CORE, MORE], "C04": [LAZY], "C12": [INT, INT2], "C13": [REL], "C06": [CORE, MORE, INT],
                "C07": [CORE, MORE, RARE], "C11": [CORE, MORE, RARE], "C14": [CORE, MORE, RARE, INT, INT2]}.get(prop, ALL)
        plan = Plan(mach, plan.runs, plan.envs, 100 if prop == "C03" else 30, 20, plan.variants[-1].memp or 60)
    os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + ".", dir=os.path.join(ROOT, ".work"))
    try:
        inst = instrumenter(work)
        builds = [Build(work, plan.machines, v.mode, v.tag, inst, v) for v in plan.variants]
        ok = [b.wait() for b in builds]
        if not all(ok):
            log("check: cannot build the simulation of", REPO)
            return 2
        buildwall = time.time() - t0
        known = known_findings()
        mine = known.get(prop, {})
        limit = t0 + (3 * 3600 if thorough else 420)
        pool = Pool(prop, seed, work, list(mine), thorough, limit)
        jobs = jobs_for(plan, builds, factor)
        pool.all(jobs, builds)
        found = None
        for j in jobs:
            if j.dead:
                rec = j.deathrec
                if rec is None or prop not in rec["violation"]["classes"]:
                    log("check: a worker ended early:", j.dead, rec and rec["violation"]["classes"])
                    continue
                j.records.append(rec)
        cands = [(j.cfg, r["index"], i, j, r) for i, j in enumerate(jobs) for r in j.records]
        cands.sort(key=lambda x: (x[4]["violation"]["key"] == "death", x[0], x[1], x[2]))
        for _, _, _, j, r in cands[:4]:
            found = settle(prop, pool, j, r, work, tier)
            if found:
                break
            log("check: not confirmed in a fresh process:", r["violation"])
        tot, envruns = {}, {}
        for j in jobs:
            if j.summary:
                addup(tot, j.summary)
                k = "FROZEN_CONCURRENCY=%s GOMAXPROCS=%d%s" % (j.env[0] if j.env[0] is not None else "(unset)", j.env[1],
                                                              " 4-way" if j.build.tag else "") + (" memory hooks" if j.build.mode == "mem" else "")
                envruns[k] = envruns.get(k, 0) + j.summary["runs"]
        wall = time.time() - t0
        evidence(prop, tier, seed, tot, builds, plan, wall, buildwall, 1 if found else 0, envruns,
                 {"message": found[1]["violation"]["msg"], "replay": found[0]} if found else None)
        for k in sorted(tot.get("known", {})):
            print("KNOWN-FINDING: property=%s %s" % (prop, mine.get(k, k)))
        if tot.get("diverged"):
            log("check: %d run(s) differed when repeated: the simulation is not deterministic on this tree" % tot["diverged"])
        if found:
            v = found[1]["violation"]
            print("%s: %s" % (v["key"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, found[0]))
            return 1
        if cands:
            # A violation that does not come back is no violation this
            # machinery can stand behind, and no answer either.
            log("check: violation(s) seen but not reproduced")
            return 2
        dead = [j for j in jobs if j.dead]
        if dead and tot.get("runs", 0) < plan.runs * factor / 4:
            log("check: workers died; too little was explored for an answer")
            return 2
        if tot.get("runs", 0) == 0:
            log("check: nothing was explored")
            return 2
        print("OK property=%s runs=%d distinct=%d wall=%.0fs" % (prop, tot["runs"], tot.get("nontrivial", 0), wall))
        return 0
    finally:
        if os.environ.get("KEEP_WORK") != "1":
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    env = rec["env"]
    os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay.", dir=os.path.join(ROOT, ".work"))
    try:
        b = Build(work, env["machines"], env["mode"], env["tag"], instrumenter(work))
        if not b.wait():
            return 2
        rc, out = replay_cmd(b.bin, os.path.abspath(path), (env["conc"], env["procs"]), 900, True)
        print(out)
        if violated(rec, rc):
            print("VIOLATION property=%s replay=%s" % (rec["prop"], path))
            return 1
        return 0 if rc in (0, 1) else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest():
    """Every run of the same seeds is the same in two processes, one of which
    started elsewhere in the sequence and has a different environment size."""
    os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="self.", dir=os.path.join(ROOT, ".work"))
    bad = 0
    try:
        b = Build(work, ALL, "mem", "", instrumenter(work))
        if not b.wait():
            return 2

        def hashes(prop, env, first, count, extra):
            e = runenv(*env)
            e.update(extra)
            r = subprocess.run([b.bin, "work", "-prop", prop, "-first", str(first), "-count", str(count), "-trace", "-keep",
                                "-known", "x"], env=e, capture_output=True, text=True)
            return {int(l.split()[1]): l.split()[2] for l in r.stdout.splitlines() if l.startswith("hash ")}

        for prop in sorted(QUICK):
            for env in (E_PAR, E_MID, E_OFF):
                a = hashes(prop, env, 0, 600, {})
                c = hashes(prop, env, 300, 300, {"PADDING": "x" * 5000})
                d = [i for i in c if a.get(i) != c[i]]
                print("%s %s: %d runs in common, %d differ %s" % (prop, env, len(c), len(d), d[:5]))
                bad += len(d) + (len(c) < 300)
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1:] == ["selftest"]:
        return selftest()
    if len(sys.argv) < 3:
        print(__doc__, file=sys.stderr)
        return 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] not in QUICK or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__, file=sys.stderr)
        return 2
    return check(sys.argv[1], sys.argv[2])


if __name__ == "__main__":
    sys.exit(main())
