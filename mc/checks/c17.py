"""C17: converting A -> B -> C equals converting A -> C, for all 729 triples of styles.

All slot sequences up to L over three parameters, embedded in several literal templates, times value shapes (single values and
tuples, expanded in the first step, in the second, or never), for format and formatmany, str and bytes, with and without quotes for
Oracle in the middle. Both results are read with the output style's own grammar into (literal text, sequence of bound objects) and
compared with each other and with the model's plan for the original query.
"""
import itertools

from .. import compare, ladder, model
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one query taken through two real conversions and through the direct one; states are distinct (triple, query, shapes); "
        "non-trivial: the middle style differs from both ends and a parameter repeats or expands")
ASSUMPTIONS = ["literal text that is itself a parameter or escape of one of the styles, and percent signs, are outside the property, as it says",
               "unquoted Oracle names that differ only by case are not explored as the middle form"]
TEMPLATES = [("SELECT ", ", ", " END"), ("", " ", ""), ("é(\n'", "'||\"", "\");-- x\n")]


def bounds(tier):
    q = tier == "quick"
    return dict(slots=3 if q else 5, params=3, shapes="scalar/tuple0/1/2", triples=729, rows=2, sizes=[9, 11, 31, 101] if q else ladder.MIDDLE[:30], ladder=[3, 9, 10, 11, 12] if q else [3, 9, 10, 11, 12, 16, 31, 32, 33, 64, 99, 100, 101, 128, 256, 257], templates=len(TEMPLATES))


def items(tier):
    return [(a, bb) for a in STYLES for bb in STYLES]


def value(shape, label):
    return V(label) if shape is None else tuple(V("%s.%d" % (label, j)) for j in range(shape))


_cache = {}


def inst(a, b, expand, quotes):
    key = (a, b, expand, quotes)
    if key not in _cache:
        opts = {} if expand is None else dict(expand_tuples=expand)
        if quotes:
            opts["allow_out_quotes"] = True
        _cache[key] = (make(a, b, **opts), (a, b, opts))
    return _cache[key]


def read(style, sql, params):
    """(literal text with placeholders blanked, bound objects in order) or None if the parameters do not fit."""
    lit, bound = [], []
    for seg in model.scan(sql, style):
        if seg[0] == "L":
            lit.append(seg[1])
            continue
        lit.append(None)
        kind = KIND[style]
        try:
            if kind == NAMED:
                name = '"%s"' % seg[2] if seg[3] else seg[2]
                bound.append(params[name])
            else:
                k = seg[1] - (kind == NUMERIC)
                if k < 0:
                    return None
                bound.append(params[k])
        except LookupError:
            return None
    return lit, bound


def expected(cfg, segs, params):
    pl, _ = model.plan(cfg, segs, params)
    lit, bound = [], []
    for t in pl:
        if t[0] == "L":
            if lit and lit[-1] is not None:
                lit[-1] += t[1]
            else:
                lit.append(t[1])
        else:
            lit.append(None)
            bound.append(t[3])
    return lit, bound


def equal(a, b):
    return a is not None and a[0] == b[0] and len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))


def queries(a, top):
    kind = KIND[a]
    names = {NAMED: "abc", NUMERIC: "123", ORDINAL: "012"}[kind]
    seqs = [tuple(names[:n]) for n in range(4)] if kind == ORDINAL else \
        [t for n in range(top + 1) for t in itertools.product(names, repeat=n)]
    if a == "named_oracle":
        seqs += [('"a"', "a"), ("A", '"b"', "a", '"A"')]
    for n, (pre, sep, post) in enumerate(TEMPLATES):
        for t in seqs:
            if n and len(t) > 2:
                continue
            yield pre + sep.join(spell(a, k) for k in t) + post, t


def params_for(a, segs, shapes, row=0):
    if KIND[a] == NAMED:
        keys = list(dict.fromkeys(s[1] for s in segs if s[0] == "P")) + ["zz"]
        if a == "named_oracle":
            keys = ['"%s"' % k for k in keys]
        return {k: value(shapes[n % 3], "r%d%s" % (row, k)) for n, k in enumerate(keys)}
    return [value(s, "r%dp%d" % (row, n)) for n, s in enumerate(shapes)]


def run(item, sh, tier):
    a, mid = item
    b = bounds(tier)
    for quotes in out_quotes(mid):
        # (expand in first step, expand in second step)
        for e1, e2 in ((True, None), (False, False), (False, True)):
            q1, ctor1 = inst(a, mid, e1, quotes)
            for sql, slots in queries(a, b["slots"]):
                segs = model.scan(sql, a)
                names = {s[1] for s in segs if s[0] == "P"}
                if mid == "named_oracle" and not quotes and KIND[a] == NAMED and len({k.upper() for k in names}) < len(names):
                    continue
                for shapes in ((None, 2, None), (1, None, 0), (None, None, None)) if e1 or e2 else ((2, 0, None),):
                    first(sh, a, mid, e1, e2, quotes, q1, ctor1, sql, segs, shapes)
        steps(sh, a, mid, quotes, b["ladder"])
        climb(sh, a, mid, quotes, b["sizes"])
    sh.sample("%s->%s->* %r shapes %r" % (a, mid, sql, shapes))


def steps(sh, a, mid, quotes, sizes):
    """Long tuples, and many parameters used twice."""
    names = lambda n: [str(k) for k in range(1, n + 1)] if KIND[a] == NUMERIC else ["n%d" % k for k in range(1, n + 1)]
    for n in sizes:
        keys = names(n)
        order = keys if KIND[a] == ORDINAL else keys + keys[::-1]
        for sql, shapes in (("w " + spell(a, keys[0]) + " e", (n,)), (" ".join(spell(a, k) for k in order), (None,) * n)):
            for e1, e2 in ((True, None), (False, True)):
                q1, ctor1 = inst(a, mid, e1, quotes)
                segs = model.scan(sql, a)
                if KIND[a] == NAMED:
                    found = list(dict.fromkeys(s[1] for s in segs if s[0] == "P"))
                    params = {'"%s"' % k if a == "named_oracle" else k: value(s, "r" + k) for k, s in zip(found, shapes)}
                else:
                    params = [value(s, "r%d" % k) for k, s in enumerate(shapes)]
                first(sh, a, mid, e1, e2, quotes, q1, ctor1, sql, segs, shapes, params)


def climb(sh, a, mid, quotes, sizes):
    """The size ladder shared by all checks."""
    for case in ladder.cases(a, sizes, True, "PTDLRE"):
        segs = model.scan(case.sql, a)
        for e1, e2 in ((True, None), (False, True)):
            q1, ctor1 = inst(a, mid, e1, quotes)
            first(sh, a, mid, e1, e2, quotes, q1, ctor1, case.sql, segs, case.tag, case.params(a))


def first(sh, a, mid, e1, e2, quotes, q1, ctor1, sql, segs, shapes, params=None):
    rows = [params, params] if params is not None else [params_for(a, segs, shapes), params_for(a, segs, shapes, 1)]
    params = rows[0]
    step = attempt(q1.format, sql, params)
    steps = attempt(q1.formatmany, sql, rows)
    sh.traces += 2
    if step[0] != "ok" or steps[0] != "ok" or steps[1][0] != step[1][0]:
        sh.violation("first step %s->%s failed" % (a, mid), ctor=ctor1, sql=sql, params=params, observed=(show(step), show(steps)),
                     script=script(ctor1, "format", sql, params, "a result"))
        return
    for c in STYLES:
        for qc in out_quotes(c):
            q2, ctor2 = inst(mid, c, e2, qc)
            qd, ctord = inst(a, c, bool(e1 or e2), qc)
            want = expected(Cfg(a, "qmark", expand_tuples=bool(e1 or e2)), segs, params)
            two = attempt(q2.format, *step[1])
            one = attempt(qd.format, sql, params)
            sh.traces += 2
            sh.transitions += 2
            sh.state(a, mid, c, quotes, qc, e1, e2, sql, shapes)
            if mid not in (a, c) and len(want[1]) > 1:
                sh.nontrivial += 1
            ok = two[0] == one[0] == "ok"
            if ok:
                r2, r1 = read(c, *two[1]), read(c, *one[1])
                ok = equal(r2, want) and equal(r1, want)
            if not ok:
                sh.violation("%s->%s->%s differs from %s->%s" % (a, mid, c, a, c), ctors=(ctor1, ctor2), sql=sql, params=params, middle=show(step),
                             observed=show(two), direct=show(one), expected=want,
                             script=script(ctor1, "format", sql, params, "then %s->%s must give %r" % (mid, c, want)))
                sh.outcome("bad")
                continue
            sh.outcome("same/%d" % len(want[1]))
            many2 = attempt(q2.formatmany, *steps[1])
            many1 = attempt(qd.formatmany, sql, rows)
            sh.traces += 2
            ok = many2[0] == many1[0] == "ok" and len(many2[1][1]) == len(many1[1][1]) == 2
            if ok:
                cq = Cfg(a, "qmark", expand_tuples=bool(e1 or e2))
                for n in range(2):
                    want = expected(cq, segs, rows[n])
                    ok = ok and equal(read(c, many2[1][0], many2[1][1][n]), want) and equal(read(c, many1[1][0], many1[1][1][n]), want)
            if not ok:
                sh.violation("%s->%s->%s differs from %s->%s (formatmany)" % (a, mid, c, a, c), ctors=(ctor1, ctor2), sql=sql, params=rows,
                             middle=show(steps), observed=show(many2), direct=show(many1),
                             script=script(ctor1, "formatmany", sql, rows, "then %s->%s must match the direct conversion" % (mid, c)))
                sh.outcome("bad")
    raw = attempt(q1.format, sql.encode("latin1"), params)
    sh.traces += 1
    if raw[0] != "ok" or raw[1][0].decode("latin1") != step[1][0] or not compare.same_values(step[1][1], raw[1][1]):
        sh.violation("first step %s->%s of bytes differs" % (a, mid), ctor=ctor1, sql=sql, params=params, expected=show(step), observed=show(raw))
