"""Runtime-monitoring core: seeded workload scheduling over a process pool, monitor bookkeeping,
three-valued verdicts (held / violated / inconclusive), known findings, replay files, evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback

SCENARIOS = {}     # name -> Scenario, filled by the check module being run
PROPERTY = {}      # metadata of the check being run

CASE_CPU_LIMIT = 60          # seconds of CPU time one case may burn (normal: milliseconds)
CASE_WALL_LIMIT = 150        # seconds one case may take without CPU (deadlock, endless wait)
WORKER_MEMORY = 6 << 30
TOTAL_WALL = {"quick": 420, "thorough": 700}


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind)
        self.kind = kind
        self.detail = detail


class CpuExceeded(BaseException):
    pass


class Scenario:
    def __init__(self, name, func, quick, thorough):
        self.name, self.func, self.quick, self.thorough = name, func, quick, thorough


def scenario(quick, thorough, name=None):
    """Register a workload. quick/thorough: how many seeded cases each tier runs."""
    def deco(f):
        n = name or f.__name__
        SCENARIOS[n] = Scenario(n, f, quick, thorough)
        return f
    return deco


def declare(pid, rule, require, assumptions=()):
    """Declare the property a check decides.
    require: monitor name -> least number of observations below which a run is inconclusive."""
    PROPERTY.update(id=pid, rule=rule, require=dict(require), assumptions=list(assumptions))


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except BaseException as e:  # noqa
        s = "<unprintable %s>" % type(e).__name__
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Rec:
    """What one case hands its monitors to."""
    def __init__(self):
        self.counts = {}
        self.fps = set()
        self.samples = []
        self.findings = {}
        self.trace = []      # last operations, for the witness

    def op(self, *what):
        self.trace.append(short(" ".join(short(w, 200) for w in what), 600))
        if len(self.trace) > 60:
            del self.trace[0]

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def expect(self, cond, monitor, kind=None, **detail):
        self.count(monitor)
        if not cond:
            raise Violation(kind or monitor, {k: short(v) for k, v in detail.items()})

    def eq(self, got, want, monitor, kind=None, **detail):
        self.count(monitor)
        if not (got == want):
            raise Violation(kind or monitor, dict(
                {k: short(v) for k, v in detail.items()}, got=short(got, 1500), want=short(want, 1500)))

    def raises(self, exc, fn, monitor, **detail):
        """fn must raise one of exc (a class or tuple)."""
        self.count(monitor)
        try:
            got = fn()
        except (CpuExceeded, KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            if isinstance(e, exc):
                return e
            raise Violation(monitor, dict({k: short(v) for k, v in detail.items()},
                                          got="%s: %s" % (type(e).__name__, short(e)), want=str(exc)))
        raise Violation(monitor, dict({k: short(v) for k, v in detail.items()},
                                      got="returned %s" % short(got), want=str(exc)))

    def distinct(self, *fp):
        """Mark the case as non-trivial with this fingerprint."""
        self.fps.add(hashlib.blake2b(repr(fp).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(short(obj, 700))

    def finding(self, fid, what):
        """A listed known finding was observed again (fid must be in known_findings.json)."""
        self.findings.setdefault(fid, short(what, 300))


def _alarm(signum, frame):
    raise CpuExceeded()


def run_case(name, index, seed):
    sc = SCENARIOS[name]
    rng = random.Random("%s|%s|%s|%s" % (PROPERTY["id"], name, seed, index))
    rec = Rec()
    violation = None
    # every case starts from a fresh, empty triple graph
    from MyCapytain.common.constants import set_graph, bind_graph
    set_graph(bind_graph())
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        sc.func(rng, rec)
    except Violation as v:
        violation = (v.kind, v.detail, traceback.format_exc())
    except (KeyboardInterrupt, SystemExit):
        raise
    except CpuExceeded:
        violation = ("cpu-bound", {"what": "one case burnt more than %d s of CPU" % CASE_CPU_LIMIT},
                     traceback.format_exc())
    except BaseException as e:
        # Any exception that escapes a case is something the code under test did that the model did not allow.
        violation = ("unexpected-%s" % type(e).__name__, {"message": short(e)}, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return rec, violation


def _job(args):
    name, lo, hi, seed, deadline, slot = args
    counts, fps, samples, findings, violations = {}, set(), [], {}, []
    done = 0
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        PROGRESS[slot] = i
        rec, v = run_case(name, i, seed)
        done += 1
        for k, n in rec.counts.items():
            counts[k] = counts.get(k, 0) + n
        fps |= rec.fps
        if len(samples) < 2:
            samples.extend({"scenario": name, "index": i, "case": s} for s in rec.samples[:1])
        for k, w in rec.findings.items():
            findings.setdefault(k, w)
        if v:
            violations.append({"scenario": name, "index": i, "kind": v[0], "detail": v[1],
                               "traceback": v[2], "trace": rec.trace})
            if len(violations) >= 3:
                break
    return name, done, hi - lo, counts, fps, samples, findings, violations


PROGRESS = None     # one cell per worker: the case it is at


def _worker(conn, slot):
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        job = conn.recv()
        if job is None:
            os._exit(0)
        conn.send(_job(job + (slot,)))


class Workers:
    """Runs jobs in forked processes. Unlike a multiprocessing.Pool it survives workers that die or hang,
    and can be ended at any time."""

    def __init__(self, n):
        global PROGRESS
        self.ctx = multiprocessing.get_context("fork")
        PROGRESS = self.ctx.RawArray("q", n)
        self.slots = [None] * n

    def start(self, slot):
        mine, theirs = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(theirs, slot), daemon=True)
        p.start()
        theirs.close()
        self.slots[slot] = [p, mine, None, 0, time.time()]

    def give(self, slot, queue):
        s = self.slots[slot]
        s[2] = queue.pop() if queue else None
        s[3], s[4] = None, time.time()
        if s[2] is not None:
            s[1].send(s[2])

    def run(self, jobs):
        queue = list(jobs)[::-1]
        deaths = {}
        for k in range(len(self.slots)):
            self.start(k)
            self.give(k, queue)
        while any(s[2] for s in self.slots):
            ready = multiprocessing.connection.wait([s[1] for s in self.slots if s[2]], timeout=5)
            now = time.time()
            for k, s in enumerate(self.slots):
                if not s[2]:
                    continue
                if s[1] in ready:
                    try:
                        result = s[1].recv()
                    except (EOFError, OSError):
                        s[0].join(5)
                        name, lo, hi, seed, deadline = s[2]
                        at = max(lo, PROGRESS[k])
                        code = s[0].exitcode
                        self.start(k)
                        deaths[(name, at)] = deaths.get((name, at), 0) + 1
                        if deaths[(name, at)] < 2:
                            # once more
                            queue.append((name, lo, hi, seed, deadline))
                        else:
                            yield self.lost(name, at, "process-died", "the process ended with status %s, twice" % code)
                        self.give(k, queue)
                        continue
                    self.give(k, queue)
                    yield result
                else:
                    if PROGRESS[k] != s[3]:
                        s[3], s[4] = PROGRESS[k], now
                    elif now - s[4] > CASE_WALL_LIMIT:
                        name, at = s[2][0], PROGRESS[k]
                        s[0].kill()
                        self.start(k)
                        self.give(k, queue)
                        yield self.lost(name, at, "no-answer", "one case gave no answer in %d s" % CASE_WALL_LIMIT)

    @staticmethod
    def lost(name, at, kind, what):
        return name, 1, 1, {}, set(), [], {}, [{"scenario": name, "index": at, "kind": kind,
                                                "detail": {"what": what}, "traceback": "", "trace": []}]

    def end(self):
        for s in self.slots:
            if s is not None and s[0].is_alive():
                s[0].kill()


def load_known(here, pid):
    with open(os.path.join(here, "known_findings.json")) as f:
        data = json.load(f)
    return {k["id"]: k for k in data["findings"] if k["property"] == pid}


def main(repo, here):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--all", action="store_true", help="print every violation kind (development)")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    # The library logs and warns a lot by design: silence what is not under observation.
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import MyCapytain
    where = os.path.dirname(os.path.abspath(MyCapytain.__file__))
    if where != os.path.join(repo, "MyCapytain"):
        print("INCONCLUSIVE: MyCapytain imported from", where)
        sys.exit(2)
    importlib.import_module("checks." + a.property.lower())
    for n in [n for n, sc in SCENARIOS.items() if sc.func.__module__ != "checks." + a.property.lower()]:
        del SCENARIOS[n]
    pid = PROPERTY["id"]
    known = load_known(here, pid)

    if a.replay or a.index is not None:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            name, index, seed = r["scenario"], r["index"], r["seed"]
        else:
            name, index = a.scenario, a.index
        rec, v = run_case(name, index, seed)
        print("monitors:", rec.counts)
        for t in rec.trace:
            print("  op", t)
        if v:
            print("kind:", v[0])
            print(json.dumps(v[1], indent=1, ensure_ascii=False))
            print(v[2])
            print("VIOLATION property=%s replay=%s" % (pid, a.replay or "%s/%s" % (name, index)))
            sys.exit(1)
        print("no violation")
        sys.exit(0)

    deadline = t0 + TOTAL_WALL[a.tier]
    jobs = []
    total = 0
    for sc in SCENARIOS.values():
        if a.scenario and sc.name != a.scenario:
            continue
        n = max(1, int((sc.quick if a.tier == "quick" else sc.thorough) * a.scale))
        total += n
        step = max(1, n // (a.jobs * 4))
        for lo in range(0, n, step):
            jobs.append((sc.name, lo, min(n, lo + step), seed, deadline))
    random.Random(0).shuffle(jobs)
    counts, fps, samples, findings, violations = {}, set(), [], {}, []
    per = {}
    evaluations = 0
    workers = Workers(max(1, min(a.jobs, len(jobs))))
    for name, done, asked, c, f, s, fi, v in workers.run(jobs):
        evaluations += done
        per[name] = per.get(name, 0) + done
        for k, n in c.items():
            counts[k] = counts.get(k, 0) + n
        fps |= f
        samples.extend(s)
        for k, w in fi.items():
            findings.setdefault(k, w)
        violations.extend(v)
        if (len(violations) >= 12 and not a.all) or any(x["kind"] == "no-answer" for x in v):
            break
    workers.end()
    # samples: spread over scenarios
    samples.sort(key=lambda s: (s["index"], s["scenario"]))
    picked, perscen = [], {}
    for s in samples:
        if perscen.get(s["scenario"], 0) < 2:
            perscen[s["scenario"]] = perscen.get(s["scenario"], 0) + 1
            picked.append(s)
    for k in list(findings):
        if k not in known:
            violations.append({"scenario": "-", "index": -1, "kind": "unlisted-finding-" + k,
                               "detail": {"what": findings.pop(k)}, "traceback": "", "trace": []})
    for k, w in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]["summary"]))

    starved = {k: (counts.get(k, 0), n) for k, n in PROPERTY["require"].items()
               if counts.get(k, 0) < n and not a.scenario and a.scale >= 1.0}
    evidence = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(fps),
            "rule": PROPERTY["rule"], "samples": picked[:12] or ["(none)"],
            "cases_per_workload": per, "monitor_observations": dict(sorted(counts.items())),
            "known_findings_observed": sorted(findings), "exhaustive": False,
        },
        "assumptions": PROPERTY["assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if violations:
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        violations.sort(key=lambda v: (v["scenario"], v["index"]))
        shown = {}
        for v in violations:
            if v["kind"] in shown:
                continue
            shown[v["kind"]] = 1
            path = os.path.join(here, "replays", "%s-%s-%s.json" % (pid, v["scenario"], v["index"]))
            with open(path, "w") as f:
                json.dump(dict(v, property=pid, seed=seed, tier=a.tier), f, indent=1, ensure_ascii=False)
            print("  kind=%s scenario=%s index=%s %s" % (v["kind"], v["scenario"], v["index"],
                                                       json.dumps(v["detail"], ensure_ascii=False)[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            if len(shown) >= 4 and not a.all:
                break
        sys.stdout.flush()
        os._exit(1)
    if starved:
        print("INCONCLUSIVE property=%s monitors not reached: %s" % (pid, starved))
        sys.stdout.flush()
        os._exit(2)
    print("HELD property=%s on %d executions (%d distinct non-trivial), %d monitor observations, %.1fs"
          % (pid, evaluations, len(fps), sum(counts.values()), time.time() - t0))
    sys.stdout.flush()
    os._exit(0)
