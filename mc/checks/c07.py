"""C07: the returned parameters are exactly those the output query refers to.

 E  queries without parameters (all kinds of literal texts) for all 81 pairs, all options and containers;
 P  all slot sequences up to L over three parameters, with unused ones present, times value shapes; the output query is read back
    with the output style's own grammar and compared with the returned container, besides the comparison with the model;
 U  every subset of unused parameters (keys of every kind) present or absent;
 C  names that some normal form or case mapping of Unicode makes equal, for every character that has one: they stay apart;
 Y  the size ladder (mc/ladder.py), with an unused parameter;
 G  names that imitate the generated names of tuple elements and of numeric/ordinal parameters.
Each for format and formatmany.
"""
import itertools

from .. import compare, ladder, model
from ..common import *
from .c14 import unicode_names

LEVEL = "model_checking"
RULE = ("a trace is one query with one parameter set run through the real format()/formatmany(); states are distinct sequences of "
        "(source, element) per configuration; non-trivial: a parameter repeats, expands or is left unused")
ASSUMPTIONS = ["unquoted Oracle output names that differ only by case are outside the property, as it says"]
SHAPES = (None, 0, 1, 2)
LIT = ["", " ", "SELECT 1", "SELECT 'x'\n--c\n/* d */", "SELECT a::int, b @@ c, $$ d $$, e ?? f", "10:30:05", "100%", "%% %d %(a)d", "\\1 \\g<0>",
       "{} {0} {param}", "\u00e9\U0001f600", "\x00", "a" * 5000]


def bounds(tier):
    q = tier == "quick"
    return dict(ladder_sizes=ladder.COARSE if q else ladder.FINE, slots=4 if q else 6, params=3, shapes="scalar/tuple0/1/2", unused_subsets=32, imitation_names=2 if q else 3, pairs=81, all_unicode=not q)


def items(tier):
    return [(i, o, part) for i, o in PAIRS for part in "EPUGYC"]


def readback(sh, cfg, ctor, sql, got, nargs=None):
    """The placeholders that the output style's grammar finds in the output against the returned container."""
    out_sql, vals = got
    found = [s for s in model.scan(out_sql, cfg.out_style, "%" if cfg.out_percent else None) if s[0] == "P"]
    if cfg.out_kind == ORDINAL:
        ok = type(vals) is list and len(found) == len(vals)
    elif cfg.out_kind == NUMERIC:
        nums = [s[1] for s in found]
        ok = type(vals) is list and set(nums) == set(range(1, len(vals) + 1)) and \
            list(dict.fromkeys(nums)) == list(range(1, len(vals) + 1))
    else:
        names = {('"%s"' % s[2] if s[3] else s[2]) for s in found}
        ok = type(vals) is dict and names == set(vals)
        if cfg.out_style == "named_oracle":
            ok = ok and all(s[3] == cfg.quotes for s in found)
    if not ok:
        sh.violation("%s->%s parameters do not match the placeholders of the output" % ctor[:2], ctor=ctor, sql=sql,
                     observed=got, script=script(ctor, "format", sql, {}, "placeholders and parameters agree"))
    return ok


def one(sh, q, cfg, ctor, ci, sql, params, many=False):
    segs = cfg.scan(sql)
    sh.transitions += 1
    pl, _ = model.plan(cfg, segs, params)
    rendered = model.render(cfg, pl)
    src = compare.sources(pl)
    sh.state(ci, tuple(src), sql == "" or len(segs))
    got = attempt(q.format, sql, params)
    sh.traces += 1
    known = None
    if got[0] == "ok" and got[1] == rendered and clash(cfg, pl):
        known = "expanded-name"
    if got[0] == "ok" and compare.allowed(cfg, pl, got[1], rendered) and known is None:
        readback(sh, cfg, ctor, sql, got[1])
        twins(sh, q, ctor, sql, params, got, tuple([s[0] for s in segs]))
        r = "ok"
    else:
        sh.violation("format: %s->%s wrong result" % ctor[:2], known=known, ctor=ctor, sql=sql, params=params, expected=rendered,
                     observed=show(got), script=script(ctor, "format", sql, params, repr(rendered)))
        r = "known" if known else "bad"
    sh.outcome("%s/%d" % (r, min(len(src), 12)))
    if len(set(src)) < len(src) or any(e is not None for _, e in src):
        sh.nontrivial += 1
    if many and r == "ok":
        check_many(sh, q, cfg, ctor, sql, [params, params])
    return r


def clash(cfg, pl):
    """Whether two sources get one name in the library's own naming scheme."""
    if cfg.out_kind != NAMED:
        return False
    by = {}
    for t in pl:
        if t[0] == "V":
            if by.setdefault(model.ref_name(cfg, t[1], t[2]), (t[1][1], t[2])) != (t[1][1], t[2]):
                return cfg.kind == NAMED and cfg.expand
    return False


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part = item
    b = bounds(tier)
    for ex in (False, True):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            globals()["part_" + part](sh, q, cfg, ctor, (ex, qu), b)


def value(shape, label):
    return V(label) if shape is None else tuple(V("%s.%d" % (label, j)) for j in range(shape))


def cont(kind, d):
    """d: {name or number (from 1): value}"""
    if kind == NAMED:
        return dict(d)
    if kind == NUMERIC:
        return [d.get(k + 1, V("unused%d" % (k + 1))) for k in range(max(d) if d else 0)]
    return list(d.values())


def part_E(sh, q, cfg, ctor, ci, b):
    more = [dict(escape_char=True), dict(strip_comments=True), dict(escape_char="\\", strip_comments=["#"])]
    variants = [(q, cfg, ctor)] + [(make(*ctor[:2], **dict(ctor[2], **m)), Cfg(*ctor[:2], **dict(ctor[2], **m)),
                                    (ctor[0], ctor[1], dict(ctor[2], **m))) for m in more]
    for vi, (q, cfg, ctor) in enumerate(variants):
        if cfg.kind == NAMED:
            conts = [{}, {"a": V("a")}, {"a": (), "b": (V(1), V(2))}]
        else:
            conts = [[], (), {}, [V(1)], [(), (V(1),)], {1: V(1)}, {"1": V(1)}, {0: (V(1),)}]
        for text in LIT:
            if any(s[0] == "P" for s in cfg.scan(model_strip(cfg, text))):
                continue
            for c in conts:
                sh.transitions += 1
                want = {} if cfg.out_kind == NAMED else []
                got = attempt(q.format, text, c)
                sh.traces += 1
                ok = got[0] == "ok" and type(got[1][1]) is type(want) and not len(got[1][1])
                if ok and not cfg.comments:
                    ok = got[1][0] == "".join(s[1] for s in cfg.scan(text))
                if not ok:
                    sh.violation("%s->%s query without parameters" % ctor[:2], ctor=ctor, sql=text, params=c, observed=show(got),
                                 script=script(ctor, "format", text, c, "an empty %s" % type(want).__name__))
                for rows in ([c], [c, c], [c, c, c]):
                    got = attempt(q.formatmany, text, rows)
                    sh.traces += 1
                    ok = got[0] == "ok" and type(got[1][1]) is list and len(got[1][1]) == len(rows) and \
                        all(type(r) is type(want) and not len(r) for r in got[1][1])
                    if not ok:
                        sh.violation("%s->%s formatmany of a query without parameters" % ctor[:2], ctor=ctor, sql=text, rows=rows,
                                     observed=show(got), script=script(ctor, "formatmany", text, rows, "empty rows"))
                sh.state(ci, vi, text)
                sh.nontrivial += 1


def model_strip(cfg, text):
    return min(model.strip(text, cfg.comments), key=len) if cfg.comments else text


def part_P(sh, q, cfg, ctor, ci, b):
    style, kind = cfg.in_style, cfg.kind
    pool = {NAMED: ["a", "b", "c"], NUMERIC: [1, 2, 3], ORDINAL: [1]}[kind]
    if style == "named_oracle":
        pool = ["a", '"b"', "c"]
    for n in range(1, b["slots"] + 1):
        for pat in itertools.product(pool, repeat=n):
            keys = list(range(1, n + 1)) if kind == ORDINAL else list(dict.fromkeys(pat))
            sql = "SELECT " + " , ".join(spell(style, k) for k in pat) + " END"
            unused = [k for k in pool if k not in keys] if kind != ORDINAL else [n + 1]
            for shapes in itertools.product(SHAPES if len(keys) < 3 or n < 4 else (None, 0, 2), repeat=len(keys)):
                d = {k: value(s, "p%s" % k) for k, s in zip(keys, shapes)}
                d.update({k: V("unused") for k in unused})
                if kind == NUMERIC:
                    d = {k: d[k] for k in sorted(d)}
                one(sh, q, cfg, ctor, ci, sql, cont(kind, d), many=n <= 3)
    sh.sample("%s->%s %r" % (ctor[0], ctor[1], sql))


def part_U(sh, q, cfg, ctor, ci, b):
    style, kind = cfg.in_style, cfg.kind
    used = {NAMED: ["m", "n"], NUMERIC: ["2", "4"], ORDINAL: ["0", "1"]}[kind]
    sql = "SELECT %s, %s, %s END" % (spell(style, used[0]), spell(style, used[1]), spell(style, used[0]))
    if kind == ORDINAL:
        sql = "SELECT %s, %s END" % (spell(style, ""), spell(style, ""))
    for shapes in itertools.product(SHAPES, repeat=2):
        v = [value(s, "u%d" % k) for k, s in enumerate(shapes)]
        if kind == NAMED:
            extra = ["a", "mm", "n_", "m__0_sqlp", "_1", "1"]
            base = [dict(zip(used, v))]
        else:
            extra = ["name", "6", 7, None, (1, 2), b"8"]
            keys = (2, 4) if kind == NUMERIC else (0, 1)
            base = [dict(zip(keys, v)), dict(zip(map(str, keys), v))]
            seqs = [[V("pad"), v[0], V("pad"), v[1]] if kind == NUMERIC else v]
            for s in seqs:
                for n in range(4):
                    one(sh, q, cfg, ctor, ci, sql, s + [(V("x"),)] * n, many=True)
        for d in base:
            for r in range(len(extra) + 1):
                for sub in itertools.combinations(extra, r):
                    for first in (False, True):
                        x = {k: (V("x"), V("y")) for k in sub}
                        one(sh, q, cfg, ctor, (ci, sub), sql, {**x, **d} if first else {**d, **x}, many=r < 2)
                        sh.nontrivial += bool(sub)
    sh.sample("%s->%s %r with every subset of %r" % (ctor[0], ctor[1], sql, extra))


def part_Y(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    for case in ladder.cases(style, b["ladder_sizes"], True, "PTDLRES"):
        if cfg.kind == ORDINAL:
            one(sh, q, cfg, ctor, (ci, case.tag), case.sql, case.params(style) + [V("unused")], many=True)
        else:
            p = case.params(style)
            if isinstance(p, dict):
                p = dict(p, **({"unused": (V("u"), V("v"))} if cfg.kind == NAMED else {"98765432109": V("u")}))
            one(sh, q, cfg, ctor, (ci, case.tag), case.sql, p if isinstance(p, dict) else p + [V("unused")], many=True)
    sh.sample("%s->%s size ladder" % (ctor[0], ctor[1]))


def part_G(sh, q, cfg, ctor, ci, b):
    style, kind = cfg.in_style, cfg.kind
    if kind == NAMED:
        pool = ["a", "a__0_sqlp", "a__1_sqlp", "a__0_sqlp__0_sqlp", "_1", "_1_0", "_0", "_0_1", "a__0", "a_0", "b", "sqlp", "_"]
        if cfg.out_style != "named_oracle" or cfg.quotes:
            pool += ["A", "B", "A__0_sqlp"]
        if style == "named_oracle":
            pool = ['"%s"' % p for p in pool]
    elif kind == NUMERIC:
        pool = [1, 10, 11, 101, 110, 2, 12]
    else:
        pool = [1]
    top = b["imitation_names"] if kind != ORDINAL else 12
    for n in range(1, top + 1):
        for pat in itertools.permutations(pool, n) if kind != ORDINAL else [tuple(range(1, n + 1))]:
            sql = "SELECT " + ", ".join(spell(style, k) for k in pat) + " END"
            for shapes in itertools.product((None, 1, 2) if n < 4 else (2, 12), repeat=n if n < 4 else 1):
                d = {k: value(s, "p%s" % k) for k, s in zip(pat, shapes * n)}
                one(sh, q, cfg, ctor, ci, sql, cont(kind, d))
    sh.sample("%s->%s %r" % (ctor[0], ctor[1], sql))


def part_C(sh, q, cfg, ctor, ci, b):
    if cfg.kind != NAMED:
        return
    style = cfg.in_style
    pairs = [(n.lower(), n.upper()) for n in ("a", "ab", "a_1", "z" * 12)] + [("aB", "Ab"), ("aB", "AB")]
    pairs += [(n, k) for n, near in unicode_names() for k in near if k.replace("_", "a").isalnum() and not k[0].isdigit() and k[0].isascii()]
    if cfg.out_style == "named_oracle" and not cfg.quotes:
        pairs = [(n, k) for n, k in pairs if n.upper() != k.upper()]
    if not b["all_unicode"]:
        pairs = pairs[::2] if cfg.expand else pairs
    for n in range(0, len(pairs), 16):
        names = [k for pair in pairs[n:n + 16] for k in pair]
        if cfg.out_style == "named_oracle" and not cfg.quotes:
            names = list({k.upper(): k for k in names}.values())
        sql = ", ".join(spell(style, '"%s"' % k if style == "named_oracle" else k) for k in names) + " END"
        params = {('"%s"' % k if style == "named_oracle" else k): V(k) if not cfg.expand else (V(k),) for k in names}
        if clash(cfg, model.plan(cfg, cfg.scan(sql), params)[0]):
            continue
        one(sh, q, cfg, ctor, ci, sql, params)
    sh.sample("%s->%s %d pairs of similar names such as %r" % (style, cfg.out_style, len(pairs), pairs[-1]))
