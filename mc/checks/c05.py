"""C05: tuples expand to a parenthesised list in order; nothing else expands.

 V  all assignments of a value zoo (tuples and subclasses, nested tuples, look-alikes, scalars) to up to 2 (thorough 3)
    parameters, each used once, repeated or mixed, for all 81 pairs and expand_tuples in {None, False, True};
 C  values of some 150 classes (mc/zoo.py), tuple subclasses of the standard library among them, alone, second, repeated and nested;
 T  every nesting of tuples up to a number of brackets and leaves, alone and used twice or next to another parameter;
 L  every tuple length up to a bound, alone, repeated and next to other parameters, around the lengths 0 and 1;
 S  tuples of 0 to 3 elements and single values at every place in SQL (mc/sqlctx.py), bracketed or not;
 Y  the size ladder (mc/ladder.py): tuples of all lengths and in all places among many parameters;
 D  the default of expand_tuples for every pair, observed through a conversion.
Each through format and through formatmany with one and with two equally shaped rows.
"""
import collections
import itertools
import types

from .. import ladder, model, sqlctx, zoo as classes
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one (query pattern, value assignment) run through the real format() or formatmany(); states are distinct "
        "model plans per configuration; non-trivial: some value is a tuple")
ASSUMPTIONS = ["tuple subclasses that override len() or iteration inconsistently are not judged"]

Point = collections.namedtuple("Point", "x y")
Empty = collections.namedtuple("Empty", "")


class Sub(tuple):
    pass


class SubSlots(tuple):
    __slots__ = ()

    def __repr__(self):
        return "SubSlots(...)"


def bounds(tier):
    q = tier == "quick"
    return dict(classes=len({type(v) for v in classes.scalars() + classes.tuples()}), places=len(sqlctx.PLACES), nesting_nodes=4 if q else 6, zoo=len(zoo()), params=2 if q else 3, ladder=(ladder.COARSE if q else ladder.FINE)[-1], huge=ladder.HUGE, max_tuple_length=40 if q else 400, pairs=81,
                expand_tuples=[None, False, True])


def zoo():
    a, b, c = V("e0"), V("e1"), V("e2")
    return [
        (), (a,), (a, b), (a, a), (a, b, c), ((a, b),), ((),), ((), a), ((a,), (b, c), ()), (None,), (None, None), ([a],), ({},),
        ("ab", "cd"), ("",), (0, False, ""),
        Point(a, b), Point((a,), b), Empty(), Sub(), Sub((a,)), Sub((a, b)), SubSlots((a, b)), (Point(a, b), c), (Sub(()),),
        V("single"), None, False, "", "ab", "()", "(a, b)", b"", b"ab", [], [a], [a, b], [(a, b)], {}, {a.label: b}, set(), {1, 2},
        frozenset([1]), range(0), range(3), iter(()), (x for x in ()), collections.deque([a, b]), bytearray(b"ab"), memoryview(b"ab"),
        types.SimpleNamespace(x=1), tuple, Point, collections.UserList([a]), {1: 2}.keys(), {1: 2}.items(),
    ]


def forest(nodes):
    """All tuples whose elements are leaves or such tuples, with at most `nodes` elements in all."""
    def trees(n):
        # Sequences of elements with exactly n nodes.
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):       # size of the first element
            for first in ([V("leaf")] if k == 1 else []) + [t for t in trees(k - 1)]:
                for rest in trees(n - k):
                    yield (first,) + rest
    return [t for n in range(nodes + 1) for t in trees(n)]


def items(tier):
    out = [(i, o, part) for i, o in PAIRS for part in "VCLTYS"]
    out.append(("", "", "D"))
    return out


PATTERNS = {
    NAMED: [["a"], ["a", "b"], ["b", "a", "a"], ["a", "b", "a", "b"]],
    NUMERIC: [["1"], ["1", "2"], ["2", "1", "1"], ["1", "2", "1", "2"]],
    ORDINAL: [["0"], ["0", "1"]],
}
PATTERNS3 = {NAMED: [["a", "b", "c"], ["c", "a", "b", "a"]], NUMERIC: [["1", "2", "3"], ["3", "1", "2", "1"]], ORDINAL: [["0", "1", "2"]]}


def text(style, keys):
    return "SELECT x WHERE " + " AND ".join("c%d IN %s" % (n, spell(style, k)) for n, k in enumerate(keys)) + ";"


def container(kind, keys, vals):
    ks = sorted(set(keys))
    return dict(zip(ks, vals)) if kind == NAMED else list(vals)


def one(sh, q, cfg, ctor, ci, sql, segs, params, many=True):
    sh.transitions += 1
    check_format(sh, q, cfg, ctor, sql, segs, params)
    if many:
        check_many(sh, q, cfg, ctor, sql, [params], what="formatmany of one row")
        check_many(sh, q, cfg, ctor, sql, [params, params], what="formatmany of two rows")
    pl, shapes = model.plan(cfg, segs, params)
    sh.state(ci, tuple((t[1][1], t[2]) if t[0] == "V" else t[1] for t in pl))
    if any(isinstance(v, tuple) for v in (params.values() if isinstance(params, dict) else params)):
        sh.nontrivial += 1
    sh.outcome("expanded=%s" % ",".join(sorted({str(n) for n in shapes.values() if n is not None}))[:20])


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part = item
    if part == "D":
        return default(sh)
    b = bounds(tier)
    kind = KIND[i]
    for ci, ex in enumerate((None, False, True)):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            ci = ci * 2 + qu
            if part == "Y":
                ladder.walk(sh, q, cfg, ctor, ladder.COARSE if tier == "quick" else ladder.FINE, "TDRES")
                if ex and not qu:
                    ladder.huge(sh, q, cfg, ctor, "T")
                sh.sample("%s->%s expand_tuples=%r size ladder" % (i, o, ex))
            elif part == "C":
                for v in classes.scalars() + classes.tuples():
                    for vs in ((v, V("o")), (V("o"), v), ((v,), v), ((v, v), [v]), (((v,), v), V("o"))):
                        for keys in PATTERNS[kind][1:]:
                            sql = text(i, keys)
                            one(sh, q, cfg, ctor, ci, sql, cfg.scan(sql), container(kind, keys, vs))
                keys = PATTERNS[kind][1]
                sql = text(i, keys)
                segs = cfg.scan(sql)
                for v in classes.scalars() + list(classes.tuples()):
                    for n in (3, 4, 5, 9, 17):
                        one(sh, q, cfg, ctor, ci, sql, segs, container(kind, keys, ((v,) * n, V("o"))), many=False)
                for v in (tuple(classes.Colour), tuple(classes.Level) * 5, tuple("abcde"), tuple(range(5)), tuple(b"abcde"), tuple(map(str, range(20))), (None,) * 7, (True, False) * 3, tuple(map(float, range(6))), tuple("-%s"), tuple("NULL"),
                          tuple(zip("abcd", "efgh")), (("a", 1),), (("a", 1), ("b", 2), ("c", 3)), ({"a": 1},) * 3, ([1, 2],) * 3, (int, str, float), tuple([V("s")] * 6)):
                    for vs in ((v, V("o")), (V("o"), v), (v, v)):
                        one(sh, q, cfg, ctor, ci, sql, segs, container(kind, keys, vs))
                sh.sample("%s->%s expand_tuples=%r values of many classes" % (i, o, ex))
            elif part == "T":
                keys2 = PATTERNS[kind][1] if kind == ORDINAL else PATTERNS[kind][2]
                for tree in forest(b["nesting_nodes"]):
                    for keys, vs in ((PATTERNS[kind][0], [tree]), (keys2, [tree, V("o")]), (keys2, [V("o"), tree])):
                        sql = text(i, keys)
                        one(sh, q, cfg, ctor, ci, sql, cfg.scan(sql), container(kind, keys, vs))
                sh.sample("%s->%s expand_tuples=%r nested %r" % (i, o, ex, tree))
            elif part == "S":
                keys = PATTERNS[kind][1]
                p, r = [spell(i, k) for k in keys]
                vs = [(), (V("e"),), (V("e"), V("f")), (V("e"), V("f"), V("g")), [V("e")], V("o")]
                for a, z in sqlctx.PLACES:
                    for sql in (a + p + z + " ; " + r, r + " " + a + p + ", " + p + z if kind != ORDINAL else a + p + ", " + r + z):
                        segs = cfg.scan(sql)
                        n = sum(s[0] == "P" for s in segs)
                        if n < 2 or not sqlctx.only(segs, keys, kind == ORDINAL):
                            continue
                        for v in vs:
                            for w in (V("w"), (V("x"), V("y"))):
                                one(sh, q, cfg, ctor, ci, sql, segs, container(kind, keys, (v, w)) if kind != ORDINAL else ([v, w] * n)[:n], many=False)
                        check_many(sh, q, cfg, ctor, sql, [container(kind, keys, (v, w)) if kind != ORDINAL else ([v, w] * n)[:n]] * 2)
                sh.sample("%s->%s expand_tuples=%r %r" % (i, o, ex, sql))
            elif part == "V":
                z = zoo()
                for keys in PATTERNS[kind] + (PATTERNS3[kind] if b["params"] > 2 else []):
                    sql = text(i, keys)
                    segs = cfg.scan(sql)
                    for vals in itertools.product(z, repeat=len(set(keys))):
                        one(sh, q, cfg, ctor, ci, sql, segs, container(kind, keys, vals), many=len(vals) < 2 or (len(keys) == 2 and ex is None and not qu))
                sh.sample("%s->%s expand_tuples=%r %r" % (i, o, ex, sql))
            else:
                a, b_ = (["a", "b"] if kind == NAMED else ["1", "2"])
                pats = [[a], [a, b_], [b_, a]] if kind == ORDINAL else [[a], [a, b_], [b_, a], [a, a], [a, b_, a, b_]]
                for keys in pats:
                    sql = text(i, keys)
                    segs = cfg.scan(sql)
                    for n in range(b["max_tuple_length"] + 1):
                        for cls in (tuple, Sub):
                            t = cls(vals_(n))
                            for other in (V("o"), (), (V("o"),)):
                                vs = [t, other][:len(set(keys))]
                                one(sh, q, cfg, ctor, ci, sql, segs, container(kind, keys, vs), many=n < 8)
                                if len(vs) < 2:
                                    break


def vals_(n):
    return vals(n, "t")


def default(sh):
    for i, o in PAIRS:
        kind = KIND[i]
        for ex in (None, True, False, 0, 1, "", "no"):
            opts = {} if ex is None else dict(expand_tuples=ex)
            q = make(i, o, **opts)
            want = (KIND[o] != NAMED) if ex is None else bool(ex)
            key = {NAMED: "a", NUMERIC: "1", ORDINAL: "0"}[kind]
            cfg = Cfg(i, o, expand_tuples=want)
            sql = text(i, [key])
            one(sh, q, cfg, (i, o, opts), o, sql, cfg.scan(sql), container(kind, [key], [(V(0), V(1))]))
            if q.expand_tuples is not want:
                sh.violation("expand_tuples=%r of %s->%s reports %r" % (ex, i, o, q.expand_tuples), ctor=(i, o, opts))
    sh.sample("default of expand_tuples for all 81 pairs")
