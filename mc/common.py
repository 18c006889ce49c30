"""Values, spellings and call helpers shared by the checks."""
import collections
import itertools

from . import compare, model, repo
from .model import KIND, NAMED, NUMERIC, ORDINAL, PAIRS, STYLES, Cfg, Fault


class V:
    """An opaque value. Equal to everything, all with one hash, falsy: only identity tells two of them apart."""
    __slots__ = ("label",)

    def __init__(self, label):
        self.label = label

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0

    def __bool__(self):
        return False

    def __repr__(self):
        return "V(%s)" % self.label


def vals(n, prefix=""):
    return [V("%s%d" % (prefix, i)) for i in range(n)]


SPELL = {
    "format": "%s", "qmark": "?", "numeric": ":{}", "numeric_dollar": "${}", "named": ":{}", "named_dollar": "${}",
    "named_oracle": ":{}", "named_sqlserver": "@{}", "pyformat": "%({})s",
}


def spell(style, key):
    """Text of a parameter in a style."""
    f = SPELL[style]
    return f.format(key) if "{" in f else f


def out_quotes(out):
    return (False, True) if out == "named_oracle" else (False,)


def make(in_style, out_style, **opts):
    return repo.load().SQLParams(in_style, out_style, **opts)


def attempt(fn, *args):
    """('ok', result) or ('err', exception)."""
    try:
        return "ok", fn(*args)
    except Exception as e:
        return "err", e


def show(res):
    kind, x = res
    return "%s %s" % (kind, safe_repr(x))


def safe_repr(x):
    try:
        s = repr(x)
    except Exception:
        return "<unprintable %s>" % type(x).__name__
    return s if len(s) < 20000 else s[:20000] + " ..."


def script(ctor, method, sql, params, expected):
    """Stand-alone program that shows a violation without the explorer."""
    opts = "".join(", %s=%r" % kv for kv in sorted(ctor[2].items()))
    return (
        "import sys; sys.path.insert(0, '/repo')\n"
        "import sqlparams\n"
        "class V:\n"
        "    def __init__(self, label): self.label = label\n"
        "    def __repr__(self): return 'V(%%s)' %% self.label\n"
        "class _L(dict):\n"
        "    def __missing__(self, k): return k\n"
        "q = sqlparams.SQLParams(%r, %r%s)\n"
        "# expected: %s\n"
        "print(q.%s(%r, %s))\n" % (ctor[0], ctor[1], opts, expected, method, sql, _lit(params)))


def _lit(x, depth=0):
    if isinstance(x, V):
        return "V(%r)" % x.label
    if depth > 9:
        return "..."
    if type(x) is dict:
        return "{%s}" % ", ".join("%r: %s" % (k, _lit(v, depth + 1)) for k, v in x.items())
    if type(x) is list:
        return "[%s]" % ", ".join(_lit(v, depth + 1) for v in x)
    if type(x) is tuple:
        return "(%s)" % "".join(_lit(v, depth + 1) + ", " for v in x)
    try:
        return repr(x)
    except Exception:
        return "object()"


TWINS = 1500


def twins(sh, q, ctor, sql, params, got, shape):
    """The case once more as bytes and as a row of formatmany: the smallest cases of a part, and each further shape of query once."""
    if sh.twins is None or not isinstance(sql, str) or not sql.isascii():
        return
    if sh.twins > 0:
        sh.twins -= 1
        sh.twin_shapes.add(shape)
    elif shape in sh.twin_shapes or len(sh.twin_shapes) > 20000:
        return
    else:
        sh.twin_shapes.add(shape)
    raw = sql.encode("latin1")
    for method, text, args in (("formatmany", sql, [params]), ("format", raw, params), ("formatmany", raw, [params])):
        t = attempt(getattr(q, method), text, args)
        sh.traces += 1
        if got[0] == "err":
            if t[0] == "err":
                continue
        elif t[0] == "ok":
            out, vals = t[1]
            if type(out) is type(text) and (out if out.__class__ is str else out.decode("latin1")) == got[1][0]:
                if method == "format":
                    vals = [vals]
                if len(vals) == 1 and compare.same_values(got[1][1], vals[0]):
                    continue
        sh.violation("%s->%s %s of %s differs from format of str" % (ctor[0], ctor[1], method, type(text).__name__), ctor=ctor, sql=text, params=params, expected=show(got), observed=show(t),
                     script=script(ctor, method, text, args, show(got)))


def check_format(sh, q, cfg, ctor, sql, segs, params, what="format", known=None, given=None):
    """Run format on one case and compare with the model. Returns the kind of outcome."""
    pl = rendered = None
    try:
        model.check_container(cfg.in_style, params)
        pl, _ = model.plan(cfg, segs, params)
        rendered = model.render(cfg, pl)
        fault = None
    except Fault as f:
        fault = f
    got = attempt(q.format, sql, params if given is None else given)
    sh.traces += 1
    if fault is not None:
        if got[0] == "err" and fault.accepts(got[1]):
            if given is None:
                twins(sh, q, ctor, sql, params, got, (tuple([s[0] for s in segs]), "raises"))
            return "raises"
        sh.violation("%s: %s->%s must raise (%s) but did not" % (what, ctor[0], ctor[1], ",".join(fault.args[0])),
                     ctor=ctor, sql=sql, params=params, observed=show(got), known=known,
                     script=script(ctor, "format", sql, params, "an exception"))
        return "bad"
    if got[0] == "ok" and compare.allowed(cfg, pl, got[1], rendered):
        if given is None:
            twins(sh, q, ctor, sql, params, got, tuple([s[0] for s in segs]))
        return "ok"
    sh.violation("%s: %s->%s wrong result" % (what, ctor[0], ctor[1]), ctor=ctor, sql=sql, params=params, known=known,
                 expected=rendered, observed=show(got), script=script(ctor, "format", sql, params, safe_repr(rendered)))
    return "bad"


def twin_rows(sh, q, ctor, sql, rows, got):
    """The rows once more with the query as bytes, as far as there are twins left."""
    if not sh.twins or sh.twins < 0 or not isinstance(sql, str) or not sql.isascii():
        return
    sh.twins -= 1
    t = attempt(q.formatmany, sql.encode("latin1"), rows)
    sh.traces += 1
    if not (t[0] == "ok" and type(t[1][0]) is bytes and t[1][0].decode("latin1") == got[1][0] and len(t[1][1]) == len(got[1][1])
            and all(compare.same_values(x, y) for x, y in zip(got[1][1], t[1][1]))):
        sh.violation("%s->%s formatmany of bytes differs from formatmany of str" % (ctor[0], ctor[1]), ctor=ctor, sql=sql.encode("latin1"), rows=rows, expected=show(got), observed=show(t),
                     script=script(ctor, "formatmany", sql.encode("latin1"), rows, show(got)))


def check_many(sh, q, cfg, ctor, sql, rows, given=None, what="formatmany"):
    """Run formatmany on rows (list), passed as `given` (any iterable; default the list itself)."""
    fault = exp = None
    try:
        exp = model.convert_many(cfg, sql, rows)
    except Fault as f:
        fault = f
    got = attempt(q.formatmany, sql, rows if given is None else given)
    sh.traces += 1
    if fault is not None:
        if got[0] == "err" and fault.accepts(got[1]):
            return "raises"
        known = None
        if getattr(fault, "late_tuple", False) and fault.kinds == {"type"} and got[0] == "ok":
            known = late_tuple_result(cfg, sql, rows, got[1])
        sh.violation("%s: %s->%s must raise (%s) but did not" % (what, ctor[0], ctor[1], ",".join(fault.args[0])),
                     ctor=ctor, sql=sql, rows=rows, observed=show(got), known=known,
                     script=script(ctor, "formatmany", sql, rows, "an exception"))
        return "known" if known else "bad"
    if got[0] == "ok":
        r = got[1]
        if type(r) is tuple and len(r) == 2 and type(r[1]) is list and len(r[1]) == len(rows):
            if r[0] == exp[0] and all(compare.same_values(a, b) for a, b in zip(exp[1], r[1])):
                if given is None:
                    twin_rows(sh, q, ctor, sql, rows, got)
                return "ok"
            segs = cfg.scan(sql)
            if all(compare.allowed(cfg, model.plan(cfg, segs, row)[0], (r[0], b)) for row, b in zip(rows, r[1])):
                return "ok"
    sh.violation("%s: %s->%s wrong result" % (what, ctor[0], ctor[1]), ctor=ctor, sql=sql, rows=rows,
                 expected=exp, observed=show(got), script=script(ctor, "formatmany", sql, rows, safe_repr(exp)))
    return "bad"


def late_tuple_result(cfg, sql, rows, got):
    """Known finding late-tuple: exactly the raw tuples of the later rows, unexpanded, everything else right."""
    segs = cfg.scan(sql)
    base = {}
    pl0, shapes = model.plan(cfg, segs, rows[0])
    outs = []
    raw = Cfg.__new__(Cfg)
    raw.__dict__.update(cfg.__dict__)
    for row in rows:
        pl = []
        for seg in segs:
            if seg[0] == "L":
                pl.append(seg)
                continue
            v = model.lookup(cfg.in_style, row, seg[1])
            n = shapes[seg[1]]
            if n is None:
                pl.append(("V", seg, None, v))
            elif not isinstance(v, tuple) or len(v) != n:
                return None
            elif n == 0:
                pl.append(("L", "(NULL)"))
            else:
                for i, sub in enumerate(v):
                    pl.append(("L", "," if i else "("))
                    pl.append(("V", seg, i, sub))
                pl.append(("L", ")"))
        outs.append(pl)
    if type(got) is not tuple or len(got) != 2 or type(got[1]) is not list or len(got[1]) != len(rows):
        return None
    if all(compare.allowed(cfg, pl, (got[0], b)) for pl, b in zip(outs, got[1])):
        return "late-tuple"
    return None


def chunks(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n)]
