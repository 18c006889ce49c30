"""C09: one instance can be shared by threads without calls interfering.

The real code is run by real threads under a controlled scheduler (mc/sched.py) that can switch threads at every line (L) or
every bytecode instruction (O) of the sqlparams package. All schedules up to a preemption bound are explored for a set of harnesses
(two or three concurrent calls on one instance of each converter, or on instances made by the threads; on instances that have
converted n-1 different queries before, for the usual sizes n of caches), each schedule on a pristine copy of the package, and every
result is compared with the model's result for that call alone. Crowds: n threads at once, all stopped at their p-th step (every p),
then finished in either order, or taking turns of p steps.
"""
import itertools

from .. import compare, model, repo, sched
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one complete schedule of the real threads; states are distinct (harness, schedule); transitions are scheduling "
        "steps; non-trivial: schedules in which a thread is preempted while it could go on")
ASSUMPTIONS = ["operations implemented in C (re.sub's scanning, dict and list methods) are atomic, as the interpreter lock makes them",
               "more preemptions than the bound reveal nothing new"]
KINDS = [("named", "pyformat"), ("named", "numeric"), ("named_oracle", "qmark"), ("numeric", "named"), ("numeric", "numeric_dollar"),
         ("numeric_dollar", "format"), ("qmark", "named_oracle"), ("format", "numeric"), ("qmark", "format"), ("named_oracle", "named_oracle"),
         ("pyformat", "numeric_dollar")]
OPCODE_MM = KINDS[1:2] + KINDS[3:4]
THREE = KINDS[1:2] + KINDS[3:4] + KINDS[8:9]
AGED = [KINDS[1], KINDS[3], KINDS[8]]
AGES = [8, 16, 32, 64, 100, 128, 256]
MORE_AGES = [4, 10, 20, 50, 200, 500, 512, 1000, 1024]
CROWDS = [3, 5, 9]
MORE_CROWDS = [2, 4, 7, 11, 17, 33, 65]
HARNESSES = ["ff", "fm", "mm", "bytes", "text", "new", "fail", "lazy", "two", "strip", "options"]


def bounds(tier):
    q = tier == "quick"
    return dict(harnesses=HARNESSES, crowds=CROWDS if q else CROWDS + MORE_CROWDS, aged=AGES if q else AGES + MORE_AGES, aged_pairs=AGED if q else KINDS, converter_pairs=len(KINDS), line_preemptions=1 if q else 2,
                line_preemptions_2_for="short harnesses of 3 pairs" if q else "ff and fm of all pairs, new and lazy of 2, the others of 6", opcode_preemptions=1,
                opcode_harnesses="ff for all, mm for two pairs" if q else HARNESSES, three_threads="1 preemption, lines, %s" % (THREE if q else "all"))


def items(tier):
    out = []
    for i, o in KINDS:
        for h in HARNESSES:
            if tier == "quick":
                out.append((i, o, h, "L", 1, 2, (0, 1)))
            else:
                deep = h in ("ff", "fm") or (i, o) in (THREE[:2] if h in ("new", "lazy") else KINDS[:6] if h != "options" else ())
                out += [(i, o, h, "L", 2, 2, (k, 8)) for k in range(8)] if deep else [(i, o, h, "L", 1, 2, (0, 1))]
        if tier != "quick" or (i, o) in THREE:
            for h in ("ff",) if tier == "quick" else ("ff", "mm"):
                out += [(i, o, h, "L", 1, 3, (k, 4)) for k in range(4)]
        if tier == "quick":
            out += [(i, o, "ff", "O", 1, 2, (k, 2)) for k in range(2)]
            if (i, o) in OPCODE_MM:
                out += [(i, o, "mm", "O", 1, 2, (k, 4)) for k in range(4)]
        else:
            for h in HARNESSES:
                out += [(i, o, h, "O", 1, 2, (k, 4)) for k in range(4)]
    for i, o in AGED if tier == "quick" else KINDS:
        for n in AGES if tier == "quick" else AGES + MORE_AGES:
            for which in ("first", "last", "new"):
                out.append((i, o, "aged:%d:%s" % (n, which), "L", 1, 2, (0, 1)))
    for i, o in KINDS:
        for n in CROWDS if tier == "quick" else CROWDS + MORE_CROWDS:
            if tier == "quick" and n == 5 and (i, o) not in THREE:
                continue
            out.append((i, o, "crowd", "L", 0, n, (0, 1)))
            if tier != "quick" or n == 5 and (i, o) in THREE:
                out.append((i, o, "crowd configs", "L", 0, n, (0, 1)))
    if tier == "quick":
        for i, o in (KINDS[1], KINDS[4], KINDS[0]):
            out += [(i, o, "tiny", "L", 2, 2, (k, 8)) for k in range(8)]
    return out


def t(label, n):
    return tuple(V("%s.%d" % (label, k)) for k in range(n))


class Call:
    """One thread's call and what the model says about it."""

    def __init__(self, cfg, method, sql, params, sent=None):
        self.cfg, self.method, self.sql, self.params, self.sent = cfg, method, sql, params, sent if sent is not None else sql

    def __call__(self, q):
        return getattr(q, self.method)(self.sent, self.params)

    def right(self, res):
        cfg = self.cfg
        text = self.sql
        if cfg.comments:
            (text,) = model.strip(text, cfg.comments)
        segs = cfg.scan(text)
        if res[0] == "ok" and isinstance(self.sent, bytes):
            if not isinstance(res[1][0], bytes):
                return False
            res = ("ok", (res[1][0].decode("latin1"), res[1][1]))
        try:
            if self.method == "format":
                model.check_container(cfg.in_style, self.params)
                pl, _ = model.plan(cfg, segs, self.params)
                return res[0] == "ok" and compare.allowed(cfg, pl, res[1])
            model.convert_many(cfg, self.sql, self.params)
        except Fault as f:
            return res[0] == "err" and f.accepts(res[1])
        if res[0] != "ok" or len(res[1][1]) != len(self.params):
            return False
        return all(compare.allowed(cfg, model.plan(cfg, segs, row)[0], (res[1][0], b)) for row, b in zip(self.params, res[1][1]))


def setup(i, o, h, nthreads):
    """(options of the shared instance, list of calls, how instances are made)"""
    kind = KIND[i]
    a, b, c = {NAMED: "abc", NUMERIC: "123", ORDINAL: "012"}[kind]
    s = lambda *ks: " , ".join(spell(i, k) for k in ks)
    row = (lambda vs: dict(zip("abc", vs))) if kind == NAMED else (lambda vs: list(vs))
    q1 = s(a, b) if kind == ORDINAL else s(a, b, a)
    q2 = "x " + (s(a) if kind == ORDINAL else s(b, a))
    n2 = 1 if kind == ORDINAL else 2
    opts = dict(expand_tuples=True)
    share = "shared"
    if h == "ff":
        calls = [("format", q1, row([t("p", 2), V("q")])), ("format", q1, row([V("r"), t("s", 1)])),
                 ("format", q2, row([V("u"), V("v")][:n2]))]
    elif h == "fm":
        calls = [("format", q1, row([t("p", 1), V("q")])), ("formatmany", q1, [row([V("r"), t("s", 2)]), row([V("u"), t("v", 2)])])]
    elif h == "mm":
        calls = [("formatmany", q1, [row([t("p", 2), V("q")]), row([t("pp", 2), V("qq")])]),
                 ("formatmany", q1, [row([V("r"), ()]), row([V("rr"), ()])]),
                 ("formatmany", q2, [row([V("u"), V("v")][:n2])])]
    elif h == "bytes":
        calls = [("format", q1, row([V("p"), V("q")]), q1.encode("latin1")), ("format", q2, row([V("r"), V("s")][:n2]))]
    elif h == "text":
        intro = model.INTRO[i]
        opts = dict(escape_char=True, expand_tuples=False)
        calls = [("format", "50%% %s%s %s" % (intro, intro, q1), row([V("p"), V("q")])),
                 ("format", q2 + " %s%s%s" % (intro, intro, intro), row([V("r"), V("s")][:n2] + ([V("w")] if i == "qmark" else [])))]
    elif h == "strip":
        opts = dict(strip_comments=True)
        calls = [("format", "-- %s\n%s" % (spell(i, a), q1), row([V("p"), V("q")])),
                 ("formatmany", "/* %s */\n%s" % (spell(i, a), q2), [row([V("r"), V("s")][:n2])])]
    elif h == "new":
        share = "own"
        calls = [("format", q1, row([t("p", 2), V("q")])), ("formatmany", q1, [row([V("r"), V("s")])])]
    elif h == "options":
        share = "own"
        opts = dict(expand_tuples=True, escape_char=True, strip_comments=["--", "#", ("/*", "*/")])
        head = "# c\n/* c */\n-- c\n"
        calls = [("format", head + q1, row([t("p", 2), V("q")])), ("formatmany", head + q2, [row([V("r"), V("s")][:n2])])]
    elif h == "lazy":
        share = "own package state"
        calls = [("format", q1, row([V("p"), V("q")])), ("format", q1, row([V("r"), V("s")]))]
    elif h == "fail":
        calls = [("format", q1, row([V("p")])), ("format", q1, row([V("r"), t("s", 2)]))]
    elif h == "two":
        share = "two"
        calls = [("format", q1, row([t("p", 2), V("q")])), ("format", q1, row([V("r"), V("s")]))]
    elif h.startswith("aged"):
        old = {"first": 0, "last": int(h.split(":")[1]) - 2, "new": -1}[h.split(":")[2]]
        q = s(a) + " /*%d*/"
        calls = [("format", q % old, row([t("p", 2)])), ("format", q % -2, row([V("r")]))]
    elif h.startswith("crowd"):
        share = "configs" if "config" in h else "shared"
        calls = []
        for k in range(nthreads):
            if k % 4 == 3:
                calls.append(("formatmany", q1, [row([t("m%d" % k, k % 3), V("n%d" % k)]), row([t("o%d" % k, k % 3), V("p%d" % k)])]))
            else:
                calls.append(("format", (q1, q2, q1)[k % 3] + " /* %d */" % (k % 5), row([t("t%d" % k, k) if k % 2 else V("s%d" % k), V("u%d" % k)][:2 if k % 3 != 1 else n2])))
    elif h == "tiny":
        q = s(a)
        calls = [("format", q, row([t("p", 2)])), ("format", q, row([V("r")]))]
    return opts, calls[:nthreads], share


def run(item, sh, tier):
    i, o, h, grain, bound, nthreads, part = item
    opts, raw, share = setup(i, o, h, nthreads)
    cfg = Cfg(i, o, **opts)
    ctor = (i, o, opts)
    calls = [Call(cfg, *r) for r in raw]
    opcodes = grain == "O"
    # A pristine package for every schedule, or (opcode grain and two preemptions, where the package's own first use is left to
    # the other harnesses) one package in which every call has been made once.
    warm = None
    if share == "shared" and (opcodes or bound > 1):
        warm = sched.fresh_package()
        with sched.patched_locks():
            for c in calls:
                attempt(c, warm.SQLParams(i, o, **opts))

    def build():
        pkg = warm or sched.fresh_package()
        if share == "shared":
            q = pkg.SQLParams(i, o, **opts)
            if h.startswith("aged"):
                with sched.patched_locks():
                    for k in range(int(h.split(":")[1]) - 1):
                        q.format(calls[0].sql.split("/*")[0] + "/*%d*/" % k, calls[k % 2].params)
            return [lambda c=c: c(q) for c in calls]
        if share == "two":
            q = pkg.SQLParams(i, o, **opts)
            calls[1].cfg = Cfg(i, o, expand_tuples=False, escape_char=True)
            q2 = pkg.SQLParams(i, o, expand_tuples=False, escape_char=True)
            return [lambda: calls[0](q), lambda: calls[1](q2)]
        if share == "configs":
            bodies = []
            for k, c in enumerate(calls):
                mine = dict(expand_tuples=bool(k % 2), escape_char=[None, True, "!", "e%d" % k][k // 2 % 4], strip_comments=[None, True, ["/* %d" % (k % 5)]][k % 3])
                c.cfg = Cfg(i, o, **mine)
                bodies.append(lambda c=c, mine=mine: c(pkg.SQLParams(i, o, **mine)))
            return bodies
        return [lambda c=c: c(pkg.SQLParams(i, o, **opts)) for c in calls]

    def check(ex, dev):
        sh.traces += 1
        sh.transitions += len(ex.points)
        sh.state(tuple(sorted(dev.items())))
        if "order" in dev or any(ex.points[k][0] is not None for k in dev):
            sh.nontrivial += 1
        sh.maximum("max_steps_of_a_schedule", len(ex.points))
        if ex.stalls:
            sh.add("schedules_with_waits_outside_the_scheduler")
        if ex.diverged:
            sh.add("diverged_schedules")
        if ex.deadlock:
            sh.violation("deadlock: %s->%s %s" % (i, o, h), schedule=dev)
            return
        good = True
        for k, c in enumerate(calls):
            if k not in ex.results or not c.right(ex.results[k]):
                good = False
                sh.violation("%s->%s: a concurrent call returned something else than alone (harness %s)" % (i, o, h), ctor=ctor,
                             thread=k, method=c.method, sql=c.sent, params=c.params, observed=show(ex.results.get(k, ("none", None))),
                             schedule=dev, grain=grain)
        sh.outcome("%s %s" % (h.split(":")[0], "alone" if good else "interfered"))

    if h.startswith("crowd"):
        sched.crowd(build, check, None, ("fifo", "lifo", "turns"), opcodes)
        sh.sample("%s->%s %s %d threads: %d schedules" % (i, o, h, nthreads, sh.traces))
        return
    sched.explore(build, check, bound, opcodes, part)
    # One recorded schedule replayed twice must take the same steps (ownership of the nondeterminism).
    sig = []
    for _ in range(2):
        ex = sched.Execution({5: 1} if nthreads > 1 else {}, opcodes)
        with sched.patched_locks():
            ex.run(build())
        if ex.deadlock:
            return
        sig.append((ex.points, [show(ex.results[k])[:60] for k in sorted(ex.results)]))
    if sig[0] != sig[1]:
        sh.add("replays_that_took_other_steps")
        print("WARNING: %r: replaying a schedule took other steps" % (item,))
    sh.add("replays_checked")
    sh.sample("%s->%s %s %s bound=%d: %d schedules" % (i, o, h, grain, bound, sh.traces))
