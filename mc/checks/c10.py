"""C10: arguments are never modified and results are fresh objects.

For every pair, expansion setting, query pattern, shape assignment, container class and call form (format; formatmany of one row,
of distinct rows, of the same row object repeated; failing variants), histories of the form

    call ; damage everything that was returned ; call again ; call with the other form ; damage ; call

are run on one instance. Before and after every call a snapshot of everything the caller owns (contents by identity, order,
types) is compared, containers that record any mutating operation must record none, every returned container must be a new
object of the exact type, distinct from all caller containers and from every container returned so far, and every result must be
what the model says.
"""
import collections
import itertools

from .. import compare, ladder, model
from ..common import *
from .c06 import containers, row, value, SHAPES

LEVEL = "model_checking"
RULE = ("a trace is one call in a history, with its aliasing and mutation monitors; states are distinct (configuration, query, shapes, "
        "container, position in the history); non-trivial: calls made after earlier results were damaged")
ASSUMPTIONS = ["containers whose mere reading changes them (such as defaultdict) are outside the property"]


def bounds(tier):
    q = tier == "quick"
    return dict(history_length=5, params=2, shapes="scalar/list/tuple0/1/2", containers="all of C06's and recording subclasses", row_counts=COUNTS[:None if not q else -3], pairs=81,
                orders="one" if q else "all sequences of 4 calls out of 5 forms for the plain and recording containers")


def items(tier):
    return [(i, o, ex, part) for i, o in PAIRS for ex in (False, True) for part in "HYC"]


class Recorder:
    log = []


def _recording(base, names):
    d = {}
    for n in names:
        if hasattr(base, n):
            def f(self, *a, _n=n, **k):
                Recorder.log.append("%s.%s" % (base.__name__, _n))
                return getattr(base, _n)(self, *a, **k)
            d[n] = f
    return type("Recording" + base.__name__.title(), (base,), d)


MUTATORS = ["__setitem__", "__delitem__", "__iadd__", "__imul__", "__ior__", "append", "extend", "insert", "pop", "popitem", "remove", "clear",
            "reverse", "sort", "update", "setdefault", "appendleft", "popleft", "rotate", "extendleft"]
RDict = _recording(dict, MUTATORS)
RList = _recording(list, MUTATORS)
ROrdered = _recording(collections.OrderedDict, MUTATORS + ["move_to_end"])
RDeque = _recording(collections.deque, MUTATORS)


def snap(x, seen=None):
    """Structure by identity."""
    if isinstance(x, dict):
        return (type(x), id(x), tuple((id(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple, collections.deque)):
        return (type(x), id(x), tuple(snap(v) for v in x))
    if hasattr(x, "d") and isinstance(x.d, dict):
        return (type(x), id(x), snap(x.d))
    if hasattr(x, "s") and isinstance(x.s, (list, tuple)):
        return (type(x), id(x), snap(x.s))
    if isinstance(x, (collections.UserDict, collections.UserList)):
        return (type(x), id(x), snap(x.data))
    return id(x)


def own_containers(x, out):
    if isinstance(x, (dict, list, collections.deque)):
        out.add(id(x))
        for v in (x.values() if isinstance(x, dict) else x):
            own_containers(v, out)
    elif isinstance(x, tuple):
        for v in x:
            own_containers(v, out)
    return out


def queries(style):
    kind = KIND[style]
    a, b = {NAMED: "ab", NUMERIC: "12", ORDINAL: "01"}[kind]
    s = lambda *ks: "SELECT " + ", ".join(spell(style, k) for k in ks) + " END"
    return [("SELECT 1", 0), (s(a), 1), (s(a, b) if kind == ORDINAL else s(b, a, b), 2)]


def run(item, sh, tier):
    i, o, ex, part = item
    if part == "C":
        return options(sh, i, o, ex)
    for qu in out_quotes(o):
        comments = ["#", ("/*", "*/")]
        before = snap(comments)
        opts = dict(expand_tuples=ex, strip_comments=comments)
        if qu:
            opts["allow_out_quotes"] = True
        cfg, ctor = Cfg(i, o, **dict(opts, strip_comments=None)), (i, o, opts)
        q = make(i, o, **opts)
        if part == "Y":
            sizes(sh, q, cfg, ctor, tier)
            row_counts(sh, q, cfg, ctor, tier)
            equal_rows(sh, q, cfg, ctor)
            continue
        for sql, n in queries(i):
            segs = cfg.scan(sql)
            for shapes in itertools.product(("list",) + SHAPES, repeat=n):
                for c in range(variants(i, n, tier)):
                    history(sh, q, cfg, ctor, sql, segs, n, shapes, c)
                    if tier != "quick" and c < 2:
                        for order in itertools.product(range(5), repeat=4):
                            history(sh, q, cfg, ctor, sql, segs, n, shapes, c, order)
        failing(sh, q, cfg, ctor)
        if snap(comments) != before:
            sh.violation("the list of comment styles was changed: %s->%s" % (i, o), ctor=ctor)
    if part == "H":
        sh.sample("%s->%s %r %r, histories of five calls" % (i, o, sql, shapes))


RUserList = type("UserListOfStyles", (collections.UserList,), {})


def option_lists():
    m = ("/*", "*/")
    for cls in (list, RList, collections.deque, RDeque, RUserList, tuple):
        for styles in ([], ["--"], ["--", "--"], ["--", "#", "--"], [m, "--", m], [["/*", "*/"], "--"], ["#", m, ["<", ">"]], [RList(["<", ">"]), "#", collections.deque(["(", ")"])],
                       ["--", m, "#", ("{", "}"), "//", "--", m, "rem "], ["-", "--", "---"], ["---", "--", "-"], ["b", "a", "c"], [("b", "c"), ("a", "c")], ["", "--"],
                       ["s%d" % (k * 7 % 30) for k in range(30)] * 2):
            yield cls(styles)
    for bad in ([5], ["--", "--", 5], [m, m, None], ["b", "a", ("x",)]):
        for cls in (list, RList):
            yield cls(bad)


def options(sh, i, o, ex):
    """Construction, conversions and the properties leave the lists of comment styles as they are."""
    (sql, n), kind = queries(i)[2], KIND[i]
    params = dict(zip("ab", vals(2))) if kind == NAMED else vals(2)
    for k, comments in enumerate(option_lists()):
        before = snap(comments)
        del Recorder.log[:]
        opts = dict(expand_tuples=ex, strip_comments=comments)
        q = attempt(lambda: make(i, o, **opts))
        if q[0] == "ok":
            for text in (sql, "-- x\n" + sql, sql + "\n/* x */\n#"):
                attempt(q[1].format, text, params)
                attempt(q[1].formatmany, text, [params])
            attempt(lambda: [getattr(q[1], p) for p in ("in_style", "out_style", "escape_char", "expand_tuples", "strip_comments")])
            attempt(repr, q[1])
        sh.traces += 1
        sh.transitions += 8
        sh.state("options", k, ex)
        sh.nontrivial += 1
        if snap(comments) != before or Recorder.log:
            sh.violation("the list of comment styles was changed: %s->%s" % (i, o), ctor=(i, o, dict(expand_tuples=ex)), observed=repr(comments), calls=Recorder.log[:5])
            return
    sh.outcome("options kept")


def sizes(sh, q, cfg, ctor, tier):
    """The same monitors on every case of the size ladder, with plain and recording containers."""
    style = cfg.in_style
    for case in ladder.cases(style, ladder.MIDDLE if tier == "quick" else ladder.FINE, cfg.expand, "PTDLX"):
        segs = cfg.scan(case.sql)
        p1, p2 = case.params(style), case.params(style, 1)
        if len(case.keys) < 40:
            p2 = RDict(p2) if isinstance(p2, dict) else RList(p2)
        returned = []
        for method, args, rows in (("format", p1, [p1]), ("formatmany", [p2, p1, p2], [p2, p1, p2]), ("format", p1, [p1])):
            got = call(sh, q, ctor, method, case.sql, args, None, returned, case.tag)
            if not right(cfg, segs, case.sql, rows, got, method != "format"):
                sh.violation("wrong result for %s: %s->%s" % (case.tag, ctor[0], ctor[1]), ctor=ctor, sql=case.sql, args=args, observed=show(got),
                             script=script(ctor, method, case.sql, args, "the values of the parameters"))
                return
            damage(got)
            sh.outcome(method)
        sh.state(case.tag)
        sh.nontrivial += 2
    sh.sample("%s->%s ladder up to %s" % (cfg.in_style, cfg.out_style, case.tag))


def row_counts(sh, q, cfg, ctor, tier):
    """Many rows: the caller's own list of them, its rows and their values stay as they are, also after errors."""
    style = cfg.in_style
    sql, n = queries(style)[2]
    for size in COUNTS[:None if tier != "quick" else -3]:
        rows = [row(style, [V("r%d" % r), (V("s%d" % r), V("t%d" % r))]) for r in range(size)]
        for kind in range(5):
            for bad in (None, size // 2, size - 1) if kind < 2 and size > 2 else (None,):
                mine = list(rows)
                if bad is not None:
                    mine[bad] = row(style, [V("odd")])
                if kind != 1 and size < 70:
                    mine = [RDict(r) if isinstance(r, dict) else RList(r) for r in mine]
                given = (mine, RList(mine), tuple(mine), collections.deque(mine), dict(enumerate(mine)).values())[kind]
                whole = given if kind != 4 else mine
                before = snap(whole)
                Recorder.log = []
                got = attempt(q.formatmany, sql, given)
                sh.traces += 1
                sh.transitions += 1
                if snap(whole) != before or Recorder.log:
                    sh.violation("the caller's %d rows were changed: %s->%s %s" % (size, ctor[0], ctor[1], Recorder.log[:1]), ctor=ctor, sql=sql,
                                 observed=show(got), script=script(ctor, "formatmany", sql, rows, "the list of rows as it was"))
                    return
                if bad is None and not (got[0] == "ok" and type(got[1][1]) is list and len(got[1][1]) == size
                                        and len({id(x) for x in got[1][1]} | {id(x) for x in mine}) == 2 * size
                                        and right(cfg, cfg.scan(sql), sql, mine, got, True)):
                    sh.violation("wrong or shared results for %d rows: %s->%s" % (size, ctor[0], ctor[1]), ctor=ctor, sql=sql, observed=show(got))
                    return
                sh.state("rows", size, kind, bad)
                sh.outcome("rows " + got[0])
                sh.nontrivial += 1


def equal_rows(sh, q, cfg, ctor):
    """Rows that are equal, alternate or come in blocks; each is a container of its own in the result."""
    style, kind = cfg.in_style, cfg.kind
    o, one, two = V("o"), 10 ** 9, float(10 ** 9)
    for n in (1, 2, 3, 4, 5, 6, 8, 9, 17, 33):
        keys = {NAMED: ["n%d" % k for k in range(n)], NUMERIC: [str(k + 1) for k in range(n)], ORDINAL: [""] * n}[kind]
        sql = " ".join(spell(style, k) for k in keys)
        segs = cfg.scan(sql)
        for count in (2, 3, 4, 5, 6, 8, 9, 33):
            for tag, pick in enumerate((lambda r: o, lambda r: None, lambda r: (), lambda r: (o, o), lambda r: (one, two)[r % 2], lambda r: r // 3, lambda r: (o, None)[r * 2 // count])):
                if (tag in (2, 3)) != cfg.expand and tag in (2, 3):
                    continue
                rows = [dict(zip(keys, [pick(r)] * n)) if kind == NAMED else [pick(r)] * n for r in range(count)]
                returned = []
                got = call(sh, q, ctor, "formatmany", sql, rows, None, returned, "%d rows with equal values" % count)
                if not right(cfg, segs, sql, rows, got, True):
                    sh.violation("wrong result for rows with equal values: %s->%s" % ctor[:2], ctor=ctor, sql=sql, args=rows, observed=show(got),
                                 script=script(ctor, "formatmany", sql, rows, "every row"))
                    return
                sh.state("equal", n, count, tag)
                sh.nontrivial += 1


COUNTS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513,
          1000, 1001, 1024, 1025, 2049, 4097, 10001]


def variants(style, n, tier):
    return 2 + len(containers(style, [0] * n))


def build(style, n, shapes, c, tag):
    vals = [[V(tag + "l")] if s == "list" else value(s, "%s%d" % (tag, p)) for p, s in enumerate(shapes)]
    r = row(style, vals)
    if c == 0:
        return r
    if c == 1:
        if isinstance(r, dict):
            return RDict(r)
        return RList(r)
    return containers(style, vals)[c - 2]


def call(sh, q, ctor, method, sql, args, owned, returned, what):
    """One monitored call. returned: list of every container returned so far in this history (kept alive)."""
    before = snap(args)
    Recorder.log = []
    got = attempt(getattr(q, method), sql, args)
    sh.traces += 1
    sh.transitions += 1
    bad = None
    if snap(args) != before:
        bad = "the caller's parameters were changed"
    elif Recorder.log:
        bad = "the caller's container saw %s" % Recorder.log[0]
    elif got[0] == "ok":
        outs = [got[1][1]] if method == "format" else [got[1][1]] + list(got[1][1])
        ids = [id(x) for x in outs]
        if len(set(ids)) < len(ids):
            bad = "two returned containers are the same object"
        elif set(ids) & own_containers(args, set()):
            bad = "a returned container is one of the caller's"
        elif set(ids) & {id(x) for x in returned}:
            bad = "a returned container was returned before"
        returned += outs
    if bad:
        sh.violation("%s: %s->%s %s" % (bad, ctor[0], ctor[1], what), ctor=ctor, sql=sql, method=method, args=args, observed=show(got),
                     script=script(ctor, method, sql, args, "arguments untouched, results fresh"))
    return got


def damage(got):
    """The caller does what it likes with its result."""
    if got[0] != "ok":
        return
    x = got[1][1]
    for r in (x if isinstance(x, list) else [x]):
        if isinstance(r, dict):
            for k in list(r):
                r[k] = "damaged"
            r["more"] = "damage"
        elif type(r) is list:
            r[:] = ["damaged"] * (len(r) + 1)
    if isinstance(x, list):
        x.append("damage")
    else:
        x["more"] = "damage"


def right(cfg, segs, sql, rows, got, many):
    if got[0] != "ok":
        return False
    if not many:
        return compare.allowed(cfg, model.plan(cfg, segs, rows[0])[0], got[1])
    return type(got[1][1]) is list and len(got[1][1]) == len(rows) and all(
        compare.allowed(cfg, model.plan(cfg, segs, r)[0], (got[1][0], b)) for r, b in zip(rows, got[1][1]))


def history(sh, q, cfg, ctor, sql, segs, n, shapes, c, order=(0, 1, 2, 3, 4)):
    style = cfg.in_style
    p1 = build(style, n, shapes, c, "x")
    p2 = build(style, n, shapes, c, "y")
    returned = []
    steps = [("format", p1, [p1]), ("format", p1, [p1]), ("formatmany", [p1, p2, p1], [p1, p2, p1]), ("formatmany", [p1], [p1]),
              ("format", p2, [p2])]
    kept = []
    steps = [steps[k] for k in order]
    for k, (method, args, rows) in enumerate(steps):
        what = "call %d of %s with damaged results in between" % (k + 1, ", ".join(s[0] for s in steps))
        got = call(sh, q, ctor, method, sql, args, None, returned, what)
        if not right(cfg, segs, sql, rows, got, method != "format"):
            sh.violation("wrong result in %s: %s->%s" % (what, ctor[0], ctor[1]), ctor=ctor, sql=sql, args=args, observed=show(got),
                         script=script(ctor, method, sql, args, "the same as the first time"))
            return
        sh.outcome(method)
        sh.state(sql, shapes, c, order[:k + 1])
        if k:
            sh.nontrivial += 1
        kept.append(got)
        if k != 1:
            damage(got)
            if not all(isinstance(x, (list, dict)) for x in returned):
                return
    # The same row object at any positions of formatmany.
    for pat in itertools.product((p1, p2), repeat=3):
        rows = list(pat)
        got = call(sh, q, ctor, "formatmany", sql, rows, None, returned, "rows repeated")
        if not right(cfg, segs, sql, rows, got, True):
            sh.violation("wrong result with repeated rows: %s->%s" % ctor[:2], ctor=ctor, sql=sql, args=rows, observed=show(got))
            return
        damage(got)
    # Changing the caller's containers afterwards does not change what was returned.
    got = attempt(q.format, sql, p1)
    sh.traces += 1
    pl, _ = model.plan(cfg, segs, p1)
    want = model.render(cfg, pl)
    frozen = (got[1][0], dict(got[1][1]) if type(got[1][1]) is dict else list(got[1][1])) if got[0] == "ok" else None
    for p in (p1,):
        if isinstance(p, dict):
            for k in list(p):
                dict.__setitem__(p, k, V("changed")) if isinstance(p, RDict) else p.__setitem__(k, V("changed"))
        elif isinstance(p, list):
            list.__setitem__(p, slice(None), [V("changed")] * len(p))
    if frozen is None or not compare.same_values(frozen[1], got[1][1]):
        sh.violation("a result changed when the caller changed its own container: %s->%s" % ctor[:2], ctor=ctor, sql=sql,
                     observed=show(got), expected=want)


def failing(sh, q, cfg, ctor):
    """Calls that raise at every position leave the arguments alone too."""
    style = cfg.in_style
    sql, n = queries(style)[2]
    full = [[V("l")], (V(0), V(1))]
    for depth in range(1, 4):
        for bad in range(depth):
            for how in range(4):
                rows = []
                for r in range(depth):
                    vals = list(full)
                    x = row(style, vals)
                    if r == bad:
                        if how == 0:
                            x = row(style, vals[:1])
                        elif how == 1 and r:
                            x = row(style, [full[0], V("single")])
                        elif how == 2 and r:
                            x = row(style, [full[0], ()])
                        else:
                            x = "ab"
                    rows.append(RDict(x) if isinstance(x, dict) else RList(x) if isinstance(x, list) else x)
                call(sh, q, ctor, "formatmany", sql, rows, None, [], "failing in row %d" % bad)
                call(sh, q, ctor, "formatmany", sql, RList(rows), None, [], "failing in row %d" % bad)
                call(sh, q, ctor, "format", sql, rows[bad], None, [], "failing")
                sh.state("fail", depth, bad, how)
