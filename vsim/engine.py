"""The search: many seeded scenarios on all cores, minimisation of what fails, replay and evidence."""
import collections
import copy
import hashlib
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback

from . import batch, build, run

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Worker:
    """One process's scratch space, references and counters."""

    def __init__(self, tag):
        self.slot = run.Slot("w%s" % tag)
        self.refslot = run.Slot("r%s" % tag)
        self.refs = batch.Refs(self.refslot)
        self.c = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.seen = set()
        self.states = set()
        self.runs = {}
        self.recheck = 0
        self.mismatch = []

    def close(self):
        self.slot.close()
        self.refslot.close()

    def execute(self, argv, sim, key="sim", **kw):
        """One simulated run; everything about it is counted."""
        res = run.execute(self.slot, argv, sim, **kw)
        self.runs[key] = res
        rep = res.rep
        c = self.c
        c["runs"] += 1
        c["steps"] += rep["steps"]
        c["switches"] += rep["switches"]
        c["ops"] += rep["nops"]
        c["sim_ns"] += rep["simtime"]
        c["atomics"] += rep["atomics"]
        c["futex_waits"] += rep["futexwaits"]
        c["spurious_wakeups"] += rep["spurious"]
        c["clock_jumps"] += rep["timejumps"]
        c["preemptions"] += rep["preempts"]
        c["threads_max"] = max(c["threads_max"], rep["nthreads"])
        if rep["nfired"]:
            for f in res.fired():
                name = f[1]
                if name == "err" and f[2] == 4:
                    name = "interrupted"
                self.faults["%s:%s" % (f[3], name)] += 1
        if rep["maxready"] > 1 and rep["switches"] > 1 or rep["nfired"]:
            self.seen.add(rep["sched_hash"] ^ (rep["io_hash"] * 3 & (1 << 64) - 1))
        self.states.add(hash_files(res))
        return res

    def probe(self, name, n=1):
        self.probes[name] += n


def hash_files(res):
    h = hashlib.blake2b(digest_size=8)
    h.update(b"%d|%d|" % (res.code, len(res.out)))
    for k in sorted(res.files):
        v = res.files[k]
        h.update(k.encode("utf-8", "surrogateescape") + b"=" + (v if isinstance(v, bytes) else repr(v).encode()) + b";")
    return h.digest()


def scenario_rng(seed, prop, i):
    return random.Random("%d:%s:%d" % (seed, prop, i))


# ------------------------------------------------------------------------ search
def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=(/.*/) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)[1:-1], re.S), m.group(4)))
    return out


def is_known(known, v):
    return any(k == v[0] and rx.search(v[1]) for k, rx, _ in known)


def worker_main(prop, tag, seed, tier, total, counter, best, deadline, q, nth, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = None
    try:
        os.nice(5)
        w = Worker(tag)
        found = []
        hits = collections.Counter()
        done = 0
        samples = []
        while time.time() < deadline:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= total or i > best.value:
                break
            r = scenario_rng(seed, prop.id, i)
            scn = prop.generate(r, tier)
            for one in prop.concrete(w, scn, r):
                vs = prop.judge(w, one)
                done += 1
                if done % 64 == 1 and "sim" in w.runs and prop.recheck:
                    fp = {k: x.fingerprint() for k, x in w.runs.items()}
                    w.runs.clear()
                    prop.judge(w, one)
                    w.recheck += 1
                    if fp != {k: x.fingerprint() for k, x in w.runs.items()}:
                        w.mismatch.append(i)
                w.runs.clear()
                new = []
                for v in vs:
                    if is_known(known, v):
                        hits[v[0]] += 1
                    else:
                        new.append(v)
                if new:
                    found.append((i, one, new))
                    with best.get_lock():
                        if i < best.value:
                            best.value = i
                    break
            if len(samples) < 2:
                samples.append("#%d %s" % (i, prop.describe(scn)))
        w.c["reference_runs"] += w.refs.runs
        q.put(("ok", dict(tag=tag, found=found, c=w.c, faults=w.faults, probes=w.probes, seen=w.seen, states=len(w.states),
                          done=done, samples=samples, recheck=w.recheck, mismatch=w.mismatch, hits=hits)))
    except BaseException:
        q.put(("fail", "worker %s: %s" % (tag, traceback.format_exc())))
    finally:
        if w:
            w.close()


def search(prop, seed, tier, total, seconds, known, procs=None):
    n = procs or min(8, os.cpu_count() or 1)
    counter = multiprocessing.Value("q", 0)
    best = multiprocessing.Value("q", 1 << 60)
    q = multiprocessing.Queue()
    deadline = time.time() + seconds
    ps = [multiprocessing.Process(target=worker_main, args=(prop, k, seed, tier, total, counter, best, deadline, q, n, known))
          for k in range(n)]
    for p in ps:
        p.start()
    outs = [q.get() for _ in ps]
    for p in ps:
        p.join()
    bad = [o[1] for o in outs if o[0] == "fail"]
    if bad:
        raise run.HarnessError(bad[0])
    return [o[1] for o in outs]


# ------------------------------------------------------------------- minimisation
def kinds(vs, known):
    return [v[0] for v in vs if not is_known(known, v)]


def reseed(scn, keys, n):
    out = copy.deepcopy(scn)
    for k in keys:
        if k in out and isinstance(out[k], dict):
            r = random.Random("%d:%s" % (n, k))
            out[k]["sseed"] = r.getrandbits(40)
            out[k]["fseed"] = r.getrandbits(40)
    return out


def ddmin(items, test, deadline):
    """Greedy removal of chunks, halving the chunk size."""
    n = max(1, len(items) // 2)
    while items and time.time() < deadline:
        i, hit = 0, False
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + n:]
            if test(cand):
                items, hit = cand, True
            else:
                i += n
        if not hit and n == 1:
            break
        n = max(1, n // 2) if not hit or n > len(items) else n
    return items


class Minimiser:
    def __init__(self, prop, w, scn, kind, known, seconds):
        self.prop, self.w, self.kind, self.known = prop, w, kind, known
        self.deadline = time.time() + seconds
        self.scn = scn
        self.tries = 0

    def fails(self, scn):
        self.tries += 1
        self.w.runs.clear()
        try:
            return self.kind in kinds(self.prop.judge(self.w, scn), self.known)
        except run.HarnessError:
            return False

    def shrink(self):
        """Smaller scenarios, looking for a failing schedule again for each."""
        again = True
        while again and time.time() < self.deadline:
            again = False
            for cand in self.prop.reductions(self.scn):
                if time.time() > self.deadline:
                    break
                for n in range(8):
                    c = cand if n == 0 else reseed(cand, self.prop.simkeys, n)
                    if self.fails(c):
                        self.scn, again = c, True
                        break
                if again:
                    break

    def freeze(self):
        """Replaces seeds by the recorded schedule and faults."""
        self.w.runs.clear()
        if not self.fails(self.scn):
            return
        c = copy.deepcopy(self.scn)
        for k in self.prop.simkeys:
            res = self.w.runs.get(k)
            if res is None or k not in c:
                continue
            fired = res.fired()
            if res.rep["decover"] or len(fired) > 250:
                return
            c[k].update(rules=[], faults=[list(f) for f in fired], decisions=[list(d) for d in res.decisions()], script=1)
        if not self.fails(c):
            return
        self.scn = c
        for k in self.prop.simkeys:
            if k not in c or not c[k].get("script"):
                continue
            for field in ("decisions", "faults", "decisions"):
                def test(items, k=k, field=field):
                    x = copy.deepcopy(self.scn)
                    x[k][field] = items
                    if self.fails(x):
                        self.scn = x
                        return True
                    return False
                if not self.scn[k][field] or test([]):
                    continue
                ddmin(self.scn[k][field], test, self.deadline)

    def go(self):
        self.shrink()
        self.freeze()
        return self.scn


def report_violation(prop, seed, index, scn, vs, known, seconds):
    w = Worker("m")
    try:
        kind = vs[0][0]
        m = Minimiser(prop, w, scn, kind, known, seconds)
        try:
            small = m.go()
        except run.HarnessError:
            small = scn
        w.runs.clear()
        vs2 = [v for v in prop.judge(w, small) if v[0] == kind]
        if not vs2:
            small = scn
            w.runs.clear()
            vs2 = [v for v in prop.judge(w, small) if v[0] == kind] or vs
        rec = dict(property=prop.id, seed=seed, index=index, kind=kind, violation=vs2[0][1], scenario=small,
                   fingerprint={k: r.fingerprint() for k, r in w.runs.items()}, minimiser_runs=m.tries,
                   faults={k: [list(f) for f in r.fired()] for k, r in w.runs.items()},
                   schedule_switches={k: r.rep["ndec"] for k, r in w.runs.items()})
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d-%d-%s.json" % (prop.id, seed, index, re.sub(r"\W+", "-", kind)))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        return path, rec
    finally:
        w.close()


def replay(props, path):
    rec = json.load(open(path))
    prop = props[rec["property"]]
    w = Worker("p")
    try:
        vs = [v for v in prop.judge(w, rec["scenario"]) if v[0] == rec["kind"]]
        fp = {k: r.fingerprint() for k, r in w.runs.items()}
    finally:
        w.close()
    if not vs:
        print("replay: the violation %s does not occur" % rec["kind"])
        return 0
    print("replay: %s %s" % (rec["kind"], "exactly as recorded" if fp == rec["fingerprint"] else "(the run differs from the recording)"))
    print(vs[0][1])
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


# ---------------------------------------------------------------------- evidence
REAL = ("oxvg command line, walker, config, all jobs/rules/actions/JSX generation of /repo; the crates ignore, tokio, "
        "tower-lsp-server, swc, lightningcss; Rust's std; libc except the calls below")
STUB = ("thread scheduling, futexes, clocks and sleeps, random bytes, directory order, process id, CPU count, terminal "
        "detection, standard input, and the outcome of file-system calls: simulated by simrt; file contents live in a "
        "scratch directory in memory; references run the same program alone without faults")


def run_check(prop, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tb = build.build(prop.harness, prop.program)
    total, seconds = prop.budget[tier]
    scale = float(os.environ.get("VSIM_SCALE", "1"))
    total = max(8, int(total * scale))
    known = load_known(prop.id)
    t1 = time.time()
    outs = search(prop, seed, tier, total, seconds, known)
    wall = time.time() - t1
    c, faults, probes, hits = (collections.Counter() for _ in range(4))
    seen, found, samples, mism = set(), [], [], []
    states = recheck = done = 0
    for o in sorted(outs, key=lambda o: o["tag"]):
        tm = max(c["threads_max"], o["c"]["threads_max"])
        c.update(o["c"])
        c["threads_max"] = tm
        faults.update(o["faults"])
        probes.update(o["probes"])
        hits.update(o["hits"])
        seen |= o["seen"]
        states += o["states"]
        done += o["done"]
        found += o["found"]
        samples += o["samples"]
        recheck += o["recheck"]
        mism += o["mismatch"]
    found.sort(key=lambda f: f[0])
    code = 0
    violations = 0
    if found:
        i, scn, vs = found[0]
        path, rec = report_violation(prop, seed, i, scn, vs, known, prop.minimise_seconds)
        print("%s: %s" % (rec["kind"], rec["violation"]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        violations = len({v[0] for f in found for v in f[2]})
        code = 1
    for k, rx, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, what))
    hours = max(wall, 1e-3) / 3600
    ev = dict(
        property=prop.id, tier=tier, seed=seed, level=prop.level,
        coverage=dict(
            evaluations=done, distinct_nontrivial=len(seen),
            rule=prop.rule,
            samples=samples[:6],
            scenarios_planned=total, simulated_runs=c["runs"], reference_runs=c["reference_runs"],
            runs_per_hour=int(c["runs"] / hours), seeds_per_hour=int(done / hours),
            simulated_seconds=round(c["sim_ns"] / 1e9, 6), scheduler_steps=c["steps"], context_switches=c["switches"],
            preemptions=c["preemptions"], spurious_wakeups=c["spurious_wakeups"], clock_jumps=c["clock_jumps"],
            atomic_operations=c["atomics"], io_operations=c["ops"], threads_max=c["threads_max"],
            final_states_seen_per_worker_sum=states,
            faults_injected=dict(sorted(faults.items())), faults_total=sum(faults.values()),
            probes=dict(sorted(probes.items())), determinism_rechecks=recheck, determinism_mismatches=len(mism),
            known_finding_hits=dict(hits), components=dict(real=prop.real or REAL, stubbed=prop.stub or STUB),
            build_s=round(tb, 1), search_s=round(wall, 1)),
        assumptions=prop.assumptions, violations=violations, wall_s=round(time.time() - t0, 2))
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d evaluations, %d runs (%d/s), %d distinct interleavings, %d faults, %d rechecks%s, build %.0f s, search %.0f s%s"
          % (prop.id, tier, seed, done, c["runs"], c["runs"] / max(wall, 1e-3), len(seen), sum(faults.values()), recheck,
             " (%d MISMATCH %s)" % (len(mism), mism[:5]) if mism else "", tb, wall, "" if not code else " -> violation"))
    if os.environ.get("VSIM_VERBOSE"):
        print("probes", dict(sorted(probes.items())))
        print("faults", dict(sorted(faults.items())))
    return code


class Prop:
    """A property: how scenarios are made and how their runs are judged."""
    id = ""
    level = "exploration"
    harness = False
    program = True
    recheck = True
    simkeys = ("sim",)
    budget = {"quick": (2000, 240), "thorough": (40000, 3000)}
    minimise_seconds = 40
    assumptions = []
    real = stub = None
    rule = ("An evaluation is one scenario (tree, command, schedule, faults) judged by the property's oracle. "
            "distinct_nontrivial counts distinct interleavings: different hashes of (order of thread switches, "
            "sequence of I/O operations by thread) among runs that had a choice between runnable threads or an "
            "injected fault.")

    def generate(self, r, tier):
        raise NotImplementedError

    def concrete(self, w, scn, r):
        """The scenarios to judge: one per schedule in `sims`."""
        sims = scn.pop("sims", None)
        if not sims:
            yield scn
            return
        for sim in sims:
            yield dict(scn, sim=sim)

    def judge(self, w, scn):
        raise NotImplementedError

    def reductions(self, scn):
        return []

    def describe(self, scn):
        return json.dumps({k: v for k, v in scn.items() if k not in ("tree", "sim", "sims", "sim2")})[:300]


def main(props, argv):
    if len(argv) >= 2 and argv[0] == "replay":
        try:
            rec = json.load(open(argv[1]))
            build.build(props[rec["property"]].harness, props[rec["property"]].program)
            return replay(props, argv[1])
        except (run.HarnessError, build.BuildError) as e:
            print(str(e), file=sys.stderr)
            return 2
    pid = argv[0] if argv else ""
    if pid not in props:
        print("usage: check <%s> [quick|thorough] | check replay FILE" % "|".join(props), file=sys.stderr)
        return 2
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    print("VERIF_SEED=%d" % seed)
    try:
        return run_check(props[pid], tier, seed)
    except (run.HarnessError, build.BuildError) as e:
        print("harness error: %s" % e, file=sys.stderr)
        return 2
