"""C18: construction accepts exactly the documented options and reports them.

 V  the full product of valid option values for all 81 pairs (keywords; positional; subclass): properties, and a probe conversion in
    which every option has a visible effect, judged by the model;
 X  every invalid value in every argument position, alone and in all pairs of arguments, for all pairs of valid styles;
 R  all sequences up to a depth of attempts to assign or delete properties, between conversions;
 H  all sequences up to a depth of changes to the option lists passed in (and to the list a property returns), between conversions.
"""
import collections
import itertools

from .. import compare, model, repo
from ..common import *
from .c06 import Seq

LEVEL = "model_checking"
RULE = ("a trace is one construction (or step of a history) on the real class with its properties and a probe conversion; states are "
        "distinct effective configurations and histories; non-trivial: an option differs from its default or is invalid")
ASSUMPTIONS = ["strip_comments given as a plain string, pairs of bytes and empty non-string escape_char values are not judged"]
ABSENT = object()


def bounds(tier):
    q = tier == "quick"
    return dict(pairs=81, escape=len(ESC), expand=len(EXPAND), strip=len(strips()), quotes=len(QUOTES), invalid=len(BADSTYLE) + len(BADESC) + len(badstrips()),
                history_depth=2 if q else 4, full_product=True)


ESC = [ABSENT, None, False, True, "", "!", "\\", "~~", "%", ":", "?", "\u00a7"]
EXPAND = [ABSENT, None, False, True, 0, 1]
QUOTES = [ABSENT, None, False, True, 0, 1]
TRUTH = ["", "no", b"", 0.0, 0.5, [], [0], (), {}, {"": 0}, 2, -1, object(), type]     # any value but None counts by its truth
PROPS = ["in_style", "out_style", "escape_char", "expand_tuples", "strip_comments"]


class Text(str):
    pass


def strips():
    return [ABSENT, None, False, True, [], ["--"], [("/*", "*/")], [["/*", "*/"], "#"], ("#", ("<", ">")), Seq(["--", Seq(["/*", "*/"])]),
            collections.deque(["--"]), (), Seq([]), collections.deque(), collections.UserList()]


class Pair(collections.namedtuple("Pair", "start end")):
    pass


def texts():
    """Comment styles of subclasses of the usual classes."""
    return [[Text("--")], [Text("#"), "--"], [Pair("/*", "*/")], [Pair(Text("<"), Text(">")), Text("#")], [(Text("/*"), "*/"), Seq(["<", ">"])], collections.UserList([Text("--"), ("<", ">")])]


BADSTYLE = ["Named", "NAMED", "named ", " named", "", "ansi", "named\0", "numeric_", "qmark_dollar", "oracle", "named_mysql", "pyformat2", "default", "?", "%s", "none",
            "__class__", "Qmark", "na\u1d50ed"]
BADTYPE = [None, 0, 1, True, b"named", bytearray(b"qmark"), ["named"], ("qmark",), {"named": 1}, {"named"}, object(), str, 1.5, collections.UserString("named"), len]
BADESC = [1, 2, -1, 1.5, b"x", b"\\", ["x"], ("x",), {"x"}, {"x": 1}, object(), str, len, bytearray(b"x"), collections.UserString("x")]


def badstrips():
    """(value, acceptable classes)"""
    t = (TypeError,)
    e = (TypeError, ValueError)
    out = [([x], t) for x in (1, None, True, 1.5, b"--", bytearray, {"a", "b"}, {"/*": "*/"}, object(), len)]
    out += [(["--", 5], t), ([("/*", "*/"), None], t), ([5, "--"], t), (("--", b"#"), t), ([("/*", "*/"), "--", b"--"], t)]
    out += [([("a",)], e), ([("a", "b", "c")], e), ([()], e), ([[]], e), (["--", ("x",)], e)]
    return out


def items(tier):
    return [(i, o, part) for i, o in PAIRS for part in "VXRH"]


def names(i):
    return {NAMED: ["a", "b"], NUMERIC: ["1", "2"], ORDINAL: ["0", "1"]}[KIND[i]]


def probe(i, esc):
    a, b = names(i)
    k = model.INTRO[i]
    mark = esc if isinstance(esc, str) and esc else "!"
    return "--c\n/* d\n*/\n#e\n<f>\nSELECT %s, %s%s, %s END; %%d\n" % (spell(i, a), mark, spell(i, b), k * 2 + spell(i, b))


def values(i):
    t = (V("t0"), V("t1"))
    if KIND[i] == NAMED:
        return {"a": t, "b": V("b")}
    return [t, V("b"), V("c"), V("d"), V("e")]


def norm_strip(s):
    if s is ABSENT or s is None or s is False:
        return None
    return model.DEFAULT_COMMENTS if s is True else [x if isinstance(x, str) else tuple(x) for x in s]


def check(sh, q, i, o, given, how, ctor):
    """Properties and probe conversion of an instance against the given options."""
    esc = given.get("escape_char")
    opts = {k: v for k, v in given.items() if v is not ABSENT}
    cfg = Cfg(i, o, **dict(opts, strip_comments=norm_strip(given.get("strip_comments", ABSENT)) or None))
    want = norm_strip(given.get("strip_comments", ABSENT))
    ok = q.in_style == i and q.out_style == o
    ok = ok and (q.escape_char is None if cfg.esc is None else type(q.escape_char) in (str, type(esc)) and q.escape_char == cfg.esc)
    ok = ok and q.expand_tuples is cfg.expand
    got = q.strip_comments
    ok = ok and (not got if not want else got is not None and [x if isinstance(x, str) else tuple(x) for x in got] == list(want))
    if not ok:
        sh.violation("%s: properties do not report the configuration" % how, ctor=ctor, observed={p: _read(q, p) for p in PROPS},
                     expected=dict(in_style=i, out_style=o, escape_char=cfg.esc, expand_tuples=cfg.expand, strip_comments=want),
                     script="import sys; sys.path.insert(0, '/repo')\nimport sqlparams\nq = sqlparams.SQLParams(%r, %r, **%r)\n"
                            "print(q.in_style, q.out_style, q.escape_char, q.expand_tuples, q.strip_comments)\n" % (i, o, opts))
        return "bad"
    sql = probe(i, cfg.esc)
    text = min(model.strip(sql, cfg.comments), key=len) if cfg.comments else sql
    segs = cfg.scan(text)
    res = check_format(sh, q, cfg, ctor, sql, segs, values(i), what=how)
    # The same through formatmany and as bytes.
    given = values(i)
    want = model.render(cfg, model.plan(cfg, segs, given)[0])
    try:
        raw = sql.encode("latin1")
    except UnicodeError:
        return res
    for what, fn, args in (("formatmany", q.formatmany, (sql, [given, given])), ("format of bytes", q.format, (raw, given)),
                           ("formatmany of bytes", q.formatmany, (raw, [given, given]))):
        got = attempt(fn, *args)
        sh.traces += 1
        plain = got[0] == "ok" and type(got[1]) is tuple and len(got[1]) == 2
        if plain:
            text2 = got[1][0].decode("latin1") if args[0] is raw and isinstance(got[1][0], bytes) else got[1][0] if args[0] is sql else None
            sets = got[1][1] if "many" in what else [got[1][1]]
            plain = isinstance(sets, list) and len(sets) == (2 if "many" in what else 1) and \
                all(compare.allowed(cfg, model.plan(cfg, segs, given)[0], (text2, s)) for s in sets)
        if not plain:
            sh.violation("%s: %s does not follow the configuration" % (how, what), ctor=ctor, sql=sql, observed=show(got), expected=want)
            return "bad"
    return res


def _read(q, p):
    try:
        return getattr(q, p)
    except Exception as e:
        return e


def run(item, sh, tier):
    i, o, part = item
    globals()["part_" + part](sh, i, o, bounds(tier), tier)


def construct(cls, *args, **kw):
    return attempt(lambda: cls(*args, **kw))


def part_V(sh, i, o, b, tier):
    cls = repo.load().SQLParams

    class Sub(cls):
        pass
    zoo = strips()
    grid = list(itertools.product(ESC, EXPAND, range(len(zoo)), QUOTES))
    truth = [(esc, x, s, qu) for x in TRUTH for esc in (ABSENT, True) for s in (0, 3) for qu in (ABSENT, x)] + [(ABSENT, ex, 0, x) for x in TRUTH for ex in (ABSENT, None, True, False)]
    zoo += texts()
    truth += [(Text(e), ABSENT, s, ABSENT) for e in ESC if isinstance(e, str) for s in (0, 4)] + [(e, ABSENT, len(zoo) - 1 - k, ABSENT) for e in (ABSENT, Text("!")) for k in range(len(texts()))]
    for n, (esc, ex, s, qu) in enumerate(grid + truth):
        if tier == "quick" and n < len(grid) and o != "named_oracle" and qu not in (ABSENT, True):
            continue
        s = zoo[s]
        given = dict(escape_char=esc, expand_tuples=ex, strip_comments=s, allow_out_quotes=qu)
        opts = {k: v for k, v in given.items() if v is not ABSENT}
        sh.transitions += 1
        sh.traces += 1
        got = construct(cls, i, o, **opts)
        sh.state(n)
        if opts:
            sh.nontrivial += 1
        if got[0] != "ok":
            sh.violation("valid options refused: %s->%s" % (i, o), ctor=(i, o, opts), observed=show(got),
                         script="import sys; sys.path.insert(0, '/repo')\nimport sqlparams\nsqlparams.SQLParams(%r, %r, **%r)\n" % (i, o, opts))
            continue
        sh.outcome(check(sh, got[1], i, o, given, "keywords", (i, o, opts)))
        if n % 7 == 0 and ABSENT not in given.values():
            got = construct(cls, i, o, esc, ex, s, qu)
            sh.outcome(check(sh, got[1], i, o, given, "positional", (i, o, opts)))
            got = construct(Sub, Text(i), Text(o), **opts)
            sh.outcome(check(sh, got[1], i, o, given, "subclass", (i, o, opts)))
            got = construct(cls, in_style=i, out_style=o, **opts)
            sh.outcome(check(sh, got[1], i, o, given, "all keywords", (i, o, opts)))
    sh.sample("%s->%s %r" % (i, o, opts))


def part_X(sh, i, o, b, tier):
    cls = repo.load().SQLParams
    bad = [("in_style", x, (KeyError,)) for x in BADSTYLE] + [("in_style", x, (TypeError,)) for x in BADTYPE]
    bad += [("out_style", x, (KeyError,)) for x in BADSTYLE] + [("out_style", x, (TypeError,)) for x in BADTYPE]
    bad += [("escape_char", x, (TypeError,)) for x in BADESC]
    bad += [("strip_comments", x, c) for x, c in badstrips()]

    def refuse(kw, classes, tag):
        args = dict(dict(in_style=i, out_style=o), **kw)
        got = construct(cls, **args)
        sh.traces += 1
        sh.transitions += 1
        sh.nontrivial += 1
        sh.state(tag)
        if got[0] == "ok" or not isinstance(got[1], classes):
            sh.violation("invalid options must raise %s" % "/".join(c.__name__ for c in classes), options=args, observed=show(got),
                         script="import sys; sys.path.insert(0, '/repo')\nimport sqlparams\nsqlparams.SQLParams(**%r)\n" % (args,))
        else:
            sh.outcome("raises " + type(got[1]).__name__)
    for n, (k, x, c) in enumerate(bad):
        for ex in (ABSENT, True, False):
            for qu in (ABSENT, True):
                kw = {k: x}
                if ex is not ABSENT:
                    kw["expand_tuples"] = ex
                if qu is not ABSENT:
                    kw["allow_out_quotes"] = qu
                if k != "escape_char":
                    for esc in (None, True, "!"):
                        refuse(dict(kw, escape_char=esc), c, (n, ex is True, qu is True, esc))
                if k != "strip_comments":
                    for s in (None, True, ["--"]):
                        refuse(dict(kw, strip_comments=s), c, (n, ex is True, qu is True, str(s)))
    for (n, (k1, x1, c1)), (m, (k2, x2, c2)) in itertools.combinations(enumerate(bad), 2):
        if k1 != k2:
            refuse({k1: x1, k2: x2}, c1 + c2, (n, m))
    # Missing or superfluous arguments.
    for args, kw in (((), {}), ((i,), {}), ((i, o, None, None, None, None, None), {}), ((i, o), dict(escape=True)), ((i, o), dict(in_style=i)), ((i, o), dict(comments=["--"]))):
        got = construct(cls, *args, **kw)
        sh.traces += 1
        if got[0] == "ok" or not isinstance(got[1], TypeError):
            sh.violation("wrong arguments must raise TypeError", args=(args, kw), observed=show(got))
    sh.sample("%s->%s invalid %r" % (i, o, kw))


def part_R(sh, i, o, b, tier):
    cls = repo.load().SQLParams
    new = {"in_style": ["qmark", "named", None], "out_style": ["format", "named", None], "escape_char": [None, "!", True], "expand_tuples": [True, False, None],
           "strip_comments": [None, ["--"], True]}
    ops = [("set", p, v) for p in PROPS for v in new[p]] + [("del", p, None) for p in PROPS]
    for given in (dict(), dict(escape_char=True, expand_tuples=True, strip_comments=True), dict(escape_char="!", expand_tuples=False, strip_comments=["--"])):
        for seq in itertools.chain.from_iterable(itertools.product(ops, repeat=n) for n in range(1, b["history_depth"] + 1 - (b["history_depth"] > 2))):
            q = cls(i, o, **given)
            for op, p, v in seq:
                got = attempt(setattr, q, p, v) if op == "set" else attempt(delattr, q, p)
                sh.transitions += 1
                if got[0] == "ok" or not isinstance(got[1], AttributeError):
                    sh.violation("%s of %s must raise AttributeError" % (op, p), ctor=(i, o, given), value=v, observed=show(got),
                                 script="import sys; sys.path.insert(0, '/repo')\nimport sqlparams\nq = sqlparams.SQLParams(%r, %r)\nq.%s = None\n" % (i, o, p))
            sh.state(tuple(sorted(given)), tuple(repr(x) for x in seq))
            sh.nontrivial += 1
            sh.outcome(check(sh, q, i, o, given, "after assignments", (i, o, given)))
    sh.sample("%s->%s assignments %r" % (i, o, seq))


def part_H(sh, i, o, b, tier):
    cls = repo.load().SQLParams

    def ops():
        def inner(l):
            if isinstance(l[0], list):
                l[0][0] = "--"
                l[0][1] = "c"

        def prop(q):
            got = q.strip_comments
            if isinstance(got, list):
                got[:] = ["SELECT"]
        return [("clear", lambda l, q: l.clear()), ("append", lambda l, q: l.append("SELECT")), ("pair", lambda l, q: l.insert(0, ["<", ">"])),
                ("junk", lambda l, q: l.append(5)), ("inner", lambda l, q: l and inner(l)), ("pop", lambda l, q: l and l.pop()), ("property", lambda l, q: prop(q)),
                ("reverse", lambda l, q: l.reverse())]
    build = [lambda: ["--"], lambda: [["/*", "*/"], "--"], lambda: [], lambda: [["/*", "*/"]], lambda: ["#", ["<", ">"], "--"]]
    for bi, mk in enumerate(build):
        for esc in (None, True):
            for seq in itertools.chain.from_iterable(itertools.product(ops(), repeat=n) for n in range(1, b["history_depth"] + 1)):
                l = mk()
                given = dict(escape_char=esc, expand_tuples=True)
                q = cls(i, o, strip_comments=l, **given)
                cfg = Cfg(i, o, strip_comments=norm_strip(mk()) or None, **given)
                sql = probe(i, cfg.esc)
                text = min(model.strip(sql, cfg.comments), key=len) if cfg.comments else sql
                segs = cfg.scan(text)
                ctor = (i, o, dict(given, strip_comments=mk()))
                for name, op in seq:
                    op(l, q)
                    sh.transitions += 1
                    sh.nontrivial += 1
                    sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, values(i), what="after %s of the option list" % name))
                sh.state(bi, esc, tuple(n for n, _ in seq))
                # The changed list does not reach instances made with the same text later either.
                sh.outcome(check_format(sh, cls(i, o, strip_comments=mk(), **given), cfg, ctor, sql, segs, values(i), what="new instance after changes"))
    sh.sample("%s->%s option list changes %r" % (i, o, [n for n, _ in seq]))
