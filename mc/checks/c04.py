"""C04: percent signs survive conversion. Oracle: Python's own % operator.

 N  non-% style -> format/pyformat: all strings up to a length over {introducer, name, '%', 's', '(', ...}; the output rendered
    with % must be the input with each parameter replaced by its value, every '%' of the literal text appearing once;
 P  %-style -> %-style (escape_char None, False, True, '%'): all strings in which '%' only occurs as '%%' or in parameters render
    alike before and after;
 O  %-style -> other style: with escaping, the output is what % makes of the input given the placeholders as values; without,
    the characters '%' outside parameters are unchanged.
 S  percent signs and parameters at every place in SQL (mc/sqlctx.py), non-% styles -> %-styles;
 Z  a ladder of sizes for each of them: runs and numbers of percent signs, numbers of parameters, lengths of texts.
Each for format and formatmany, with and without a tuple to expand.
"""
import itertools

from .. import compare, model, sqlctx
from ..common import *
from ..texts import strings

LEVEL = "model_checking"
RULE = ("a trace is one query text run through the real format()/formatmany() and rendered by Python's % operator; states are "
        "distinct (text without parameter spelling, configuration); non-trivial: the text contains '%' outside parameters")
ASSUMPTIONS = ["CPython's str.__mod__ is the definition of %-formatting"]
PCT = ("format", "pyformat")
ALPH = {
    "named": ':a%s(', "named_dollar": '$a%s(', "named_sqlserver": '@a%s)', "named_oracle": ':A%s(', "numeric": ':1%s(',
    "numeric_dollar": '$1%s(', "qmark": '?%s(a)',
}


SIZES = list(range(5, 35)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 1025]
ESCAPES = [True, "!", "%", "%%", "\\"]


def bounds(tier):
    q = tier == "quick"
    return dict(sizes=SIZES if q else SIZES + [2049, 4096, 4097, 10001], escapes=ESCAPES, places=len(sqlctx.PLACES), string_length=6 if q else 8, tokens_per_query=4 if q else 5, percent_to_percent_length=9 if q else 11)


def items(tier):
    out = []
    for i, o in PAIRS:
        if o in PCT and i not in PCT:
            out += [(i, o, "N", c) for c in ALPH[i]]
            out.append((i, o, "NT", None))
            out.append((i, o, "NZ", None))
            out.append((i, o, "NS", None))
        elif o in PCT:
            out.append((i, o, "P", None))
            out.append((i, o, "PZ", None))
        elif i in PCT:
            out.append((i, o, "O", None))
            out.append((i, o, "OZ", None))
    return out


def values(cfg, segs, tup):
    """Parameter set with text values, and what each parameter renders to."""
    keys = list(dict.fromkeys(s[1] for s in segs if s[0] == "P"))
    val, ren = {}, {}
    for n, k in enumerate(keys):
        if tup and n == 0:
            val[k] = ("%s", "%(a)s", "50%")
            ren[k] = "(%s,%(a)s,50%)"
        else:
            val[k] = ren[k] = "<%s%%s>" % k
    if cfg.kind == NAMED:
        return ({('"%s"' % k if cfg.in_style == "named_oracle" else k): v for k, v in val.items()}, ren)
    if cfg.kind == NUMERIC:
        return [val.get(k + 1, "pad") for k in range(max(keys) if keys else 0)], ren
    return [val[k] for k in keys], ren


def mod(sql, params):
    try:
        return sql % (tuple(params) if isinstance(params, list) else params)
    except Exception as e:
        return e


def judge(sh, ctor, sql, params, want, got, what):
    sh.traces += 1
    if got[0] == "ok":
        r = mod(*got[1])
        if isinstance(r, str) and r == want:
            sh.outcome("renders")
            return True
        seen = "%r rendered to %r" % (got[1], r)
    else:
        seen = show(got)
    sh.violation("%s: %s->%s does not render to the input's text" % (what, ctor[0], ctor[1]), ctor=ctor, sql=sql, params=params,
                 expected=want, observed=seen, script=script(ctor, "format", sql, params, "renders with %% to %r" % want))


def non_percent(sh, q, cfg, ctor, ci, text, tup, many):
    segs = model.scan(text, cfg.in_style, cfg.esc)  # literal text unescaped: what the caller wrote
    params, ren = values(cfg, segs, tup)
    want = "".join(s[1] if s[0] == "L" else ren[s[1]] for s in segs)
    sh.transitions += 1
    if any(s[0] == "P" and s[1] == 0 for s in segs) and cfg.kind == NUMERIC:
        return
    got = attempt(q.format, text, params)
    judge(sh, ctor, text, params, want, got, "format")
    twins(sh, q, ctor, text, params, got, tuple([s[0] for s in segs]))
    if many:
        got = attempt(q.formatmany, text, [params, params])
        if got[0] == "ok":
            for row in got[1][1]:
                judge(sh, ctor, text, [params, params], want, ("ok", (got[1][0], row)), "formatmany")
        else:
            judge(sh, ctor, text, [params, params], want, got, "formatmany")
    sh.state(ci, tup, tuple(s[1] if s[0] == "L" else 0 for s in segs))
    if any("%" in s[1] for s in segs if s[0] == "L"):
        sh.nontrivial += 1


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part, prefix = item
    b = bounds(tier)
    if part == "NZ":
        return sizes_n(sh, i, o, b["sizes"])
    if part == "NS":
        return places(sh, i, o)
    if part in ("PZ", "OZ"):
        return sizes_p(sh, i, o, part[0], b["sizes"])
    if part in ("N", "NT"):
        cfgs = []
        for ci, opts in enumerate([dict(), dict(expand_tuples=o == "pyformat"), dict(strip_comments=True)] + [dict(escape_char=e) for e in ESCAPES]):
            cfgs.append((ci, Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)))
        if part == "N":
            ci, cfg, q, ctor = cfgs[0]
            lo = 1 if prefix == ALPH[i][0] else b["string_length"] - 1
            if prefix == ALPH[i][0]:
                for n in range(b["string_length"] - 1):
                    for s in strings(ALPH[i], n):
                        non_percent(sh, q, cfg, ctor, ci, s, False, n < 5)
            for n in (b["string_length"] - 1, b["string_length"]):
                for s in strings(ALPH[i], n, prefix):
                    non_percent(sh, q, cfg, ctor, ci, s, False, False)
            sh.sample("%s->%s %r" % (i, o, s))
            return
        p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[cfgs[0][1].kind])
        p2 = spell(i, {NAMED: "b", NUMERIC: "2", ORDINAL: ""}[cfgs[0][1].kind])
        toks = [p, p2, "%", "%%", "%s", "%(a)s", "% ", "%d", "x", " "]
        for n in range(b["tokens_per_query"] + 1):
            for t in itertools.product(toks, repeat=n):
                for ci, cfg, q, ctor in cfgs[:3]:
                    non_percent(sh, q, cfg, ctor, ci, "".join(t), cfg.expand, n < 3)
        for ci, cfg, q, ctor in cfgs[3:]:
            more = list(dict.fromkeys([p, cfg.esc + model.INTRO[i], cfg.esc, "%", "%%", "%s", "%(a)s", " "]))
            for n in range(b["tokens_per_query"] + 1):
                for t in itertools.product(more, repeat=n):
                    non_percent(sh, q, cfg, ctor, ci, "".join(t), cfg.expand, n < 3)
        sh.sample("%s->%s %r" % (i, o, "".join(t)))
        return
    # %-style input: words over '%%', parameters and characters that could fuse with a percent sign.
    if i == "format":
        toks = ["%%", "%s", "s", "(a)s"]
    else:
        toks = ["%%", "%(a)s", "%(b)s", "s", "(a)s"]
    for ci, esc in enumerate((None, False, True, "%")):
        for ex in (False, True):
            opts = dict(escape_char=esc, expand_tuples=ex)
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            top = b["percent_to_percent_length"] if i == "format" else b["percent_to_percent_length"] - 1
            top -= 2
            for n in range(top + 1):
                for t in itertools.product(toks, repeat=n):
                    percent(sh, q, cfg, ctor, (ci, ex), t, part, n < 4)
            sh.sample("%s->%s escape_char=%r %r" % (i, o, esc, "".join(t)))


def places(sh, i, o):
    kind = KIND[i]
    p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[kind])
    for ci, opts in enumerate([dict(), dict(escape_char="!", expand_tuples=True)]):
        cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
        for a, z in sqlctx.PLACES:
            for c in ("%", "%%", "%s", "%(a)s", "100% "):
                for s in (a + c + z, a + c + z + p, p + a + c + z, a + p + z + c, c + a + p + z, a + c + p + z, a + p + c + z, a + c + " " + p + " " + c + z, a + p + z + " " + a + c + z):
                    non_percent(sh, q, cfg, ctor, (ci, "S"), s, cfg.expand, True)
        for c in ("%", "%s") if not ci else ("%%",):
            for s in sqlctx.nested(c):
                non_percent(sh, q, cfg, ctor, (ci, "S"), s + " " + p, cfg.expand, False)
    sh.sample("%s->%s %r" % (i, o, s))


def sizes_n(sh, i, o, sizes):
    kind = KIND[i]
    key = lambda k: {NAMED: "a%d" % k, NUMERIC: str(k + 1), ORDINAL: ""}[kind]
    p = spell(i, key(0))
    for ci, opts in enumerate([dict(), dict(escape_char="!", expand_tuples=True), dict(escape_char=True, strip_comments=True)]):
        cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
        for n in sizes:
            if i == "named_oracle" and n > 300:
                continue
            texts = ["%" * n + " " + p, p + " " + "%" * n, "%s" * n + " " + p + " % " * n, "x" * n + "%" + "y" * n + p + "%d" + " " * n + "%", ("100% " + p + " %% ") * n,
                     " % ".join(spell(i, key(k)) for k in range(n)), "%(a" + "x" * n + ")s " + p]
            for s in texts:
                non_percent(sh, q, cfg, ctor, (ci, n), s, cfg.expand, n < 40)
    sh.sample("%s->%s sizes up to %d" % (i, o, sizes[-1]))


def sizes_p(sh, i, o, part, sizes):
    p = "%s" if i == "format" else "%(a)s"
    for ci, (esc, ex) in enumerate(((None, False), (True, False), (True, True), ("%", True))):
        opts = dict(escape_char=esc, expand_tuples=ex)
        cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
        for n in sizes:
            for toks in (["%%"] * n + [p], [p] + ["%%"] * n, ["%%"] * n, [p, " %% "[1:3], " "] * n, ["x" * n, p, "y" * n, "%%", "z" * n], ["%%", " ", p, " "] * n, ["%%", "d"] * n):
                percent(sh, q, cfg, ctor, (ci, n), tuple(toks), part, n < 40)
    sh.sample("%s->%s sizes up to %d" % (i, o, sizes[-1]))


def percent(sh, q, cfg, ctor, ci, toks, part, many):
    text = "".join(toks)
    # With escaping off, a parameter directly after '%%' is not one of the style's (C02): only judge the others.
    if not cfg.esc:
        for a, b in zip(toks, toks[1:]):
            if a == "%%" and b[0] == "%" and b != "%%":
                return
    sh.transitions += 1
    names = [t for t in toks if t[0] == "%" and t != "%%"]
    if cfg.in_style == "format":
        params = ["<%d%%s>" % n for n in range(len(names))]
        before = params
    else:
        params = before = {"a": "<a%s>", "b": "<b%%>"}
    if cfg.expand and names:
        tup = ("%s", "%%")
        if cfg.in_style == "format":
            params = [tup] + params[1:]
            before = ["(%s,%%)"] + params[1:]
        else:
            params = {"a": tup, "b": "<b%%>"}
            before = {"a": "(%s,%%)", "b": "<b%%>"}
    if "%%" in toks:
        sh.nontrivial += 1
    sh.state(ci, toks)
    if part == "P":
        want = mod(text, before)
        assert isinstance(want, str), (text, want)
        got = attempt(q.format, text, params)
        judge(sh, ctor, text, params, want, got, "format")
        twins(sh, q, ctor, text, params, got, tuple(t[:1] for t in toks))
        if many:
            got = attempt(q.formatmany, text, [params, params])
            for row in (got[1][1] if got[0] == "ok" else [None]):
                judge(sh, ctor, text, params, want, ("ok", (got[1][0], row)) if got[0] == "ok" else got, "formatmany")
        return
    # %-style to another style: placeholders in place of values.
    got = attempt(q.format, text, params)
    twins(sh, q, ctor, text, params, got, tuple(t[:1] for t in toks))
    sh.traces += 1
    lit = "%" if cfg.esc else "%%"
    pl = []
    n = 0
    for t in toks:
        if t == "%%":
            pl.append(("L", lit))
        elif t[0] != "%":
            pl.append(("L", t))
        else:
            key = n if cfg.in_style == "format" else t[2]
            v = params[key]
            seg = ("P", key, key, False)
            n += 1
            if cfg.expand and isinstance(v, tuple):
                for k, sub in enumerate(v):
                    pl.append(("L", "," if k else "("))
                    pl.append(("V", seg, k, sub))
                pl.append(("L", ")"))
            else:
                pl.append(("V", seg, None, v))
    if got[0] == "ok" and compare.allowed(cfg, pl, got[1]):
        sh.outcome("percent signs kept" if not cfg.esc else "percent signs unescaped")
        return
    sh.violation("%s->%s percent signs wrong" % (ctor[0], ctor[1]), ctor=ctor, sql=text, params=params,
                 expected=model.render(cfg, pl), observed=show(got), script=script(ctor, "format", text, params, repr(model.render(cfg, pl))))
