"""Exploration engine: shards the space over processes, collects coverage and violations, writes the evidence."""
import ast
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import repo

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
MAX_VIOLATIONS_PER_SHARD = 3


class Hang(BaseException):
    """The code under test made no progress for a long time (CPU time)."""


class Shard:
    """Results of exploring one part of the space."""

    def __init__(self, item):
        self.item = item
        self.traces = 0        # executions of the implementation compared with the model
        self.transitions = 0   # steps taken in the explored tree
        self.states = set()    # canonical model states reached (hashed)
        self.nontrivial = 0
        self.outcomes = {}
        self.violations = []
        self.nviol = 0
        self.known = {}
        self.samples = []
        self.extra = {}
        self.hang = False
        self._last = -1
        self.twins = None       # how many cases also run as bytes and through formatmany; None: none
        self.twin_shapes = set()

    def state(self, *canon):
        self.states.add(hash(canon))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maximum(self, name, n):
        self.extra[name] = max(self.extra.get(name, 0), n)

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def violation(self, summary, known=None, script=None, **detail):
        """known: key of the known finding whose exact defective behaviour was observed."""
        if known is not None and known in KNOWN_KEYS:
            k = self.known.setdefault(known, [0, summary])
            k[0] += 1
            return
        self.nviol += 1
        if len(self.violations) < MAX_VIOLATIONS_PER_SHARD:
            self.violations.append(dict(summary=summary, item=repr(self.item), script=script,
                                        detail={k: _r(v) for k, v in detail.items()}))


def _r(v):
    try:
        return repr(v)
    except Exception as e:
        return "<unprintable %s: %s>" % (type(v).__name__, type(e).__name__)


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(p.split("=", 1) for p in line.split()[1:3])
                out[f["key"]] = (f["property"], line.split(None, 3)[3])
    return out


KNOWN_KEYS = load_known()


def guarded(fn, sh):
    """Runs fn under the no-progress watchdogs: one for a call that computes for ever, one for a call that waits for ever."""
    def tick(signum, frame):
        if sh.traces == sh._last:
            raise Hang("computing")
        sh._last = sh.traces

    idle = [0, -1, time.process_time()]

    def wait(signum, frame):
        cpu = time.process_time()
        idle[0] = idle[0] + 1 if sh.traces == idle[1] and cpu - idle[2] < 0.01 else 0
        idle[1:] = sh.traces, cpu
        if idle[0] >= 10:
            raise Hang("waiting")
    old = signal.signal(signal.SIGVTALRM, tick), signal.signal(signal.SIGALRM, wait)
    signal.setitimer(signal.ITIMER_VIRTUAL, 40, 40)
    signal.setitimer(signal.ITIMER_REAL, 3, 3)
    try:
        fn()
    except Hang as e:
        sh.hang = True
        sh.violation("no progress: a single call is %s for ever (40 s of CPU time, or 30 s of waiting)" % e,
                     where="".join(traceback.format_exc()[-1500:]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old[0])
        signal.signal(signal.SIGALRM, old[1])


def from_repo(e):
    """Whether an exception came out of the code under test."""
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(os.path.abspath(repo.PKG) + os.sep):
            return True
        tb = tb.tb_next
    return False


_mod = None
_tier = None


def _work(item):
    sh = Shard(item)
    t = time.time()
    try:
        guarded(lambda: _mod.run(item, sh, _tier), sh)
    except Exception as e:
        if not from_repo(e):
            return dict(error=traceback.format_exc(), item=repr(item))
        sh.traces += 1
        sh.violation("the code under test raised %s where the check expects it to work" % type(e).__name__,
                     traceback=traceback.format_exc()[-1500:])
    return dict(item=repr(item), traces=sh.traces, transitions=sh.transitions, states=len(sh.states),
                nontrivial=sh.nontrivial, outcomes=sh.outcomes, violations=sh.violations, nviol=sh.nviol,
                known=sh.known, samples=sh.samples, extra=sh.extra, hang=sh.hang, wall=time.time() - t)


def merge_extra(a, b):
    for k, v in b.items():
        if k.startswith("max_"):
            a[k] = max(a.get(k, 0), v)
        else:
            a[k] = a.get(k, 0) + v


def main(argv):
    global _mod, _tier
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _tier = tier
    _mod = importlib.import_module("mc.checks." + pid.lower())
    repo.load()
    if replay:
        rec = json.load(open(replay))
        _tier = rec["tier"]
        res = _work(ast.literal_eval(rec["item"]))
        if "error" in res:
            print(res["error"])
            return 2
        hit = [v for v in res["violations"] if v["summary"] == rec["summary"]] or res["violations"]
        for v in hit[:1]:
            print(json.dumps(v, indent=1))
        if hit:
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(replay)))
            return 1
        print("not reproduced")
        return 0
    t0 = time.time()
    items = list(_mod.items(tier))
    order = list(range(len(items)))
    random.Random(seed).shuffle(order)      # the whole space is explored; the seed only changes the order
    results = [None] * len(items)
    if jobs == 1:
        for i in order:
            results[i] = _work(items[i])
            if results[i].get("hang"):
                break
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(jobs, maxtasksperchild=getattr(_mod, "TASKS_PER_CHILD", None)) as pool:
            bad = 0
            for i, r in zip(order, pool.imap(_work, [items[i] for i in order], chunksize=1)):
                results[i] = r
                if r.get("nviol"):
                    bad += 1
                    if bad >= 16 or r["hang"]:
                        break       # enough to report; the rest of the space is not needed any more
            pool.terminate()
    done = [r for r in results if r is not None]
    stopped = len(done) < len(results)
    results = done
    errors = [r for r in results if "error" in r]
    if errors and not any(r.get("nviol") for r in results):
        print("ERROR in shard", errors[0]["item"])
        print(errors[0]["error"])
        return 2
    results = [r for r in results if "error" not in r]
    tot = dict(traces=0, transitions=0, states=0, nontrivial=0, nviol=0)
    outcomes, extra, known, samples, viols = {}, {}, {}, [], []
    for r in results:
        for k in tot:
            tot[k] += r[k]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        merge_extra(extra, r["extra"])
        for k, (n, s) in r["known"].items():
            known.setdefault(k, [0, s])[0] += n
        samples += r["samples"]
        viols += r["violations"]
    if tot["traces"] == 0:
        print("ERROR: nothing was explored")
        return 2
    rnd = random.Random(seed)
    samples = rnd.sample(samples, min(6, len(samples)))
    wall = time.time() - t0
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
               distinct_nontrivial=tot["nontrivial"], rule=_mod.RULE,
               samples=samples or ["-"], exhaustive=not stopped and not errors, bounds=_mod.bounds(tier), shards=len(items),
               distinct_outcomes=len(outcomes), outcomes=dict(sorted(outcomes.items(), key=lambda x: -x[1])[:40]),
               known_findings_observed={k: v[0] for k, v in known.items()}, **extra)
    if _mod.LEVEL in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov.pop("traces_validated_against_impl")
    ev = dict(property=pid, tier=tier, seed=seed, level=_mod.LEVEL, coverage=cov,
              assumptions=list(getattr(_mod, "ASSUMPTIONS", [])), wall_s=round(wall, 3), violations=tot["nviol"])
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.%d.tmp" % (pid, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))
    print("%s tier=%s: traces=%d states=%d transitions=%d nontrivial=%d outcomes=%d wall=%.1fs" % (
        pid, tier, tot["traces"], tot["states"], tot["transitions"], tot["nontrivial"], len(outcomes), wall))
    for k, (n, s) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d histories) e.g. %s" % (pid, KNOWN_KEYS[k][1], n, s))
    if tot["nviol"]:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        first = None
        for n, v in enumerate(viols[:10]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, n))
            v = dict(v, property=pid, tier=tier)
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1)
            if v.get("script"):
                with open(path[:-5] + ".py", "w") as fh:
                    fh.write(v["script"])
            first = first or path
        print("violations: %d; first: %s" % (tot["nviol"], viols[0]["summary"]))
        for k, val in viols[0]["detail"].items():
            print("   %s: %s" % (k, val[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, first))
        return 1
    return 0
