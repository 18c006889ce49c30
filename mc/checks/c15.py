"""C15: equivalent parameter containers give identical results.

 K  numeric and ordinal: every way of writing the keys of a mapping (int, str, padded str, bytes, int subclass, str subclass, other
    decimal digits) for up to 3 parameters, in every insertion order, against the sequence;
 X  every extra entry of a zoo, at every place of the mapping, alone and in pairs; longer sequences;
 C  every class of Mapping and Sequence of a zoo, including minimal ones that implement the abstract methods only;
 B  containers of the standard library that keep their values in other ways (range, array, memoryview, database rows, weak values, counters ...);
 P  all insertion orders of 4 and 5 keys, written as int, str or alternately;
 Y  the size ladder: sequence classes, and mappings in several insertion orders and key writings with and without extra entries;
 Q  numbers by value: every spelling of 1 and 2 in the query (padded, other decimal digits) times repetition;
each in format and as first and later row of formatmany, with single values and tuples, for the nine styles of output.
Oracle: the model, and the very result for the plain list or dict.
"""
import array
import collections
import enum
import itertools
import sqlite3
import time
import types
import weakref

from .. import compare, ladder, model
from ..common import *
from .c06 import Map, Seq

LEVEL = "model_checking"
RULE = ("a trace is one call of the real format()/formatmany() with an equivalent container, compared with the result for the plain "
        "list or dict and with the model; states are distinct (query, container) per configuration; non-trivial: not a plain list or dict")
ASSUMPTIONS = ["mappings with two keys of equal value, key 0 together with ':0', and containers whose reading changes them are not judged"]


class N(enum.IntEnum):
    zero = 0
    one = 1
    two = 2
    three = 3


class S(str):
    pass


class Strict(collections.abc.Sequence):
    """Only what a Sequence must have: int indices from 0."""

    def __init__(self, xs):
        self.xs = list(xs)

    def __getitem__(self, n):
        if not isinstance(n, int) or n < 0 or n >= len(self.xs):
            raise IndexError(n)
        return self.xs[n]

    def __len__(self):
        return len(self.xs)


class Odd(collections.abc.Mapping):
    """Iteration yields the keys only; lookup by the very keys; everything else refuses."""

    def __init__(self, d):
        self.d = dict(d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return False

    def __eq__(self, other):
        return False
    __hash__ = None


class SubDict(dict):
    pass


class SubList(list):
    pass


def refuses(base, *names):
    """A class of base whose given methods raise."""
    def no(self, *a):
        raise RuntimeError("touched")
    return type("Touchy" + base.__name__.title(), (base,), dict(dict.fromkeys(names, no), __hash__=None))


TOUCHY = ("__bool__", "__eq__", "__ne__", "__repr__", "__str__", "__copy__", "__deepcopy__", "__reduce_ex__", "copy", "__or__", "__ror__", "__ior__", "__setitem__", "__delitem__",
          "pop", "clear", "update", "setdefault", "popitem", "__reversed__")
TouchyDict = refuses(dict, *TOUCHY)
TouchyMap = refuses(Map, *TOUCHY)
TouchyList = refuses(list, *TOUCHY, "append", "extend", "sort", "reverse", "__add__", "__mul__", "__iadd__", "index", "count", "remove", "insert")
TouchySeq = refuses(Seq, *TOUCHY, "index", "count")
TouchyTuple = refuses(tuple, *TOUCHY, "index", "count", "__add__", "__mul__")


class Equal(dict):
    """Equal to everything, false, of one hash."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0

    def __bool__(self):
        return False


class EqualTuple(tuple):
    __eq__, __ne__, __hash__, __bool__ = Equal.__eq__, Equal.__ne__, Equal.__hash__, Equal.__bool__


class Falsy(list):
    def __bool__(self):
        return False


def bounds(tier):
    q = tier == "quick"
    return dict(params=3, key_writings=len(WRITE), insertion_orders="all", extras=len(EXTRA), extra_pairs=not q, mapping_classes=len(mappings({})),
                sequence_classes=len(sequences([])), number_spellings=len(NUMS), slots=2 if q else 3, pairs=81, sizes=[3, 4, 5, 6, 9, 10, 11, 13, 17, 33, 65, 101, 129, 257] if q else ladder.MIDDLE)


WRITE = [int, str, lambda n: "0%d" % n, lambda n: b"%d" % n, N, lambda n: S(n), lambda n: chr(0xff10 + n), lambda n: chr(0x660 + n), lambda n: "00%d" % n]
EXTRA = ["x", "", " ", "1x", "-1", "+1", "1.0", "\u00b2", "\u00b9", "\u2460", "\u2167", "\u4e00", None, (1,), (), 1.5, float("nan"), float("inf"), b"x", b"", b"\xb2",
         99, "99", b"99", 10 ** 30, "9" * 30, -5, frozenset(), object, len, Ellipsis, "a b", "\0", "\ud800", "1\n", "None", "_1", "0x1", 1 + 2j, "1e0", "1_0"]
NAMED_EXTRA = ["x", "", " ", "ab", "aa", "a ", "_", "1", "\u00b2", "\0", "\ud800", "a__0_sqlp", "_1", ":a", "a b", "%(a)s", "\u00e9", "zz", "\u00df", "Z", "b1"]
NUMS = ["1", "01", "001", "0000000001", "\uff11", "\u0661", "0\u0661", "2", "02", "\u0662", "00\uff12"]


def mappings(d):
    return [d, dict(reversed(list(d.items()))), collections.OrderedDict(d), types.MappingProxyType(d), collections.UserDict(d), Map(d), Odd(d),
            collections.ChainMap({}, d), collections.ChainMap(dict(list(d.items())[:1]), dict(list(d.items())[1:])), SubDict(d),
            collections.defaultdict(list, d), TouchyDict(d), TouchyMap(d), Equal(d)]


def sequences(xs):
    xs = list(xs)
    return [xs, tuple(xs), collections.deque(xs), Seq(xs), Strict(xs), collections.UserList(xs), SubList(xs), Falsy(xs), TouchyList(xs), TouchySeq(xs), TouchyTuple(xs), EqualTuple(xs), xs + [V("x")],
            tuple(xs) + (V("x"), V("y")), collections.namedtuple("T", ["f%d" % n for n in range(len(xs))])(*xs)]


def items(tier):
    return [(i, o, part) for i, o in PAIRS for part in "KXCBQPY" if part not in "KQ" or KIND[i] != NAMED]


def text(style, keys):
    return "SELECT " + ", ".join(spell(style, k) for k in keys) + " END"


def value(shape, label):
    return V(label) if shape is None else tuple(V("%s.%d" % (label, j)) for j in range(shape))


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part = item
    b = bounds(tier)
    for ex in (None, True) if KIND[o] == NAMED else (None, False):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            globals()["part_" + part](Ctx(sh, q, cfg, ctor, (ex, qu)), b)


class Ctx:
    def __init__(self, sh, q, cfg, ctor, ci):
        self.sh, self.q, self.cfg, self.ctor, self.ci = sh, q, cfg, ctor, ci
        self.base = {}

    def reference(self, sql, plain):
        """Result for the plain list or dict, which itself must be what the model says."""
        key = (sql, id(plain))
        if key not in self.base:
            segs = self.cfg.scan(sql)
            pl, _ = model.plan(self.cfg, segs, plain)
            got = attempt(self.q.format, sql, plain)
            self.sh.traces += 1
            if got[0] != "ok" or not compare.allowed(self.cfg, pl, got[1]):
                self.sh.violation("wrong result for the plain container", ctor=self.ctor, sql=sql, params=plain, observed=show(got),
                                  expected=model.render(self.cfg, pl), script=script(self.ctor, "format", sql, plain, model.render(self.cfg, pl)))
                got = ("ok", model.render(self.cfg, pl))
            self.base[key] = (got[1], plain)
        return self.base[key][0]

    def same(self, sql, plain, other, tag, many=False):
        sh, q = self.sh, self.q
        ref = self.reference(sql, plain)
        sh.transitions += 1
        sh.state(self.ci, sql, tag)
        sh.nontrivial += 1
        got = attempt(q.format, sql, other)
        sh.traces += 1
        if got[0] != "ok" or type(got[1]) is not tuple or got[1][0] != ref[0] or not compare.same_values(ref[1], got[1][1]):
            return self.bad("format", sql, plain, other, ref, got, tag)
        sh.outcome("same")
        if many:
            for rows in ([other], [plain, other], [other, plain], [other, other]):
                got = attempt(q.formatmany, sql, rows)
                sh.traces += 1
                if got[0] != "ok" or type(got[1]) is not tuple or got[1][0] != ref[0] or type(got[1][1]) is not list or len(got[1][1]) != len(rows) \
                        or not all(compare.same_values(ref[1], r) for r in got[1][1]):
                    return self.bad("formatmany", sql, plain, rows, ref, got, tag)
            sh.outcome("same many")

    def bad(self, method, sql, plain, other, ref, got, tag):
        self.sh.violation("%s: an equivalent container gives another result: %s->%s" % (method, self.ctor[0], self.ctor[1]), ctor=self.ctor, sql=sql,
                          params=other, equivalent_to=plain, container=tag, expected=ref, observed=show(got),
                          script=script(self.ctor, method, sql, other, repr(ref)))
        self.sh.outcome("bad")


def queries(cfg, n, top):
    names = {NAMED: "abc", NUMERIC: "123", ORDINAL: "012"}[cfg.kind][:n]
    if cfg.kind == ORDINAL:
        return [text(cfg.in_style, names)]
    if n < 3:
        return [text(cfg.in_style, t) for k in range(1, top + 1) for t in itertools.product(names, repeat=k)]
    return [text(cfg.in_style, t) for t in itertools.permutations(names)] + [text(cfg.in_style, "".join(names) * 2), text(cfg.in_style, names[1:])]


def start(cfg):
    return 0 if cfg.kind == ORDINAL else 1


def part_K(c, b):
    cfg = c.cfg
    s = start(cfg)
    for n in (1, 2, 3):
        for shapes in ((None, 2, None), (0, None, 1)):
            plain = [value(shape, "p%d" % k) for k, shape in enumerate(shapes[:n])]
            for sql in queries(cfg, n, b["slots"]):
                for pick in itertools.product(range(len(WRITE)), repeat=n):
                    if n == 3 and (pick[1:] not in ((pick[0], pick[0]), (0, 1), (1, 0)) or sql != queries(cfg, n, 2)[0]) and len(set(pick)) < 3:
                        continue
                    if n == 3 and sql not in queries(cfg, n, 2)[:: 6]:
                        continue
                    pairs = [(WRITE[w](k + s), plain[k]) for k, w in enumerate(pick)]
                    if n == 3 and cfg.quotes:
                        continue
                    for order in itertools.permutations(pairs):
                        c.same(sql, plain, dict(order), (pick, tuple(k for k, _ in order)), many=n < 3)
    c.sh.sample("%s->%s %r %r" % (cfg.in_style, cfg.out_style, sql, order))


def part_X(c, b):
    cfg = c.cfg
    extras = EXTRA
    n = 2
    for shapes in ((None, 2),):
        vs = [value(shape, "p%d" % k) for k, shape in enumerate(shapes)]
        if cfg.kind == NAMED:
            plain = dict(zip("ab", vs))
            extras = [e for e in NAMED_EXTRA]
            if cfg.in_style == "named_oracle":
                extras = [e for e in extras] + ['"zz"', '"Zz"', '""', '"a"', '"x y"', "ZZ"]
            bases = [plain]
        else:
            plain = vs
            s = start(cfg)
            bases = [{s: vs[0], s + 1: vs[1]}, {str(s): vs[0], str(s + 1): vs[1]}]
        for sql in queries(cfg, n, b["slots"])[:4]:
            for base in bases:
                pairs = list(base.items())
                for k in range(len(pairs) + 1):
                    for tag, e in enumerate(extras):
                        new = pairs[:k] + [(e, V("extra"))] + pairs[k:]
                        if len(dict(new)) == len(new):
                            c.same(sql, plain, dict(new), (tag, k, base is bases[0]), many=True)
                for (t1, e1), (t2, e2) in itertools.combinations(enumerate(extras), 2):
                    if not b["extra_pairs"] and (cfg.quotes or sql != queries(cfg, n, b["slots"])[0]):
                        break
                    new = [(e1, V("extra"))] + pairs + [(e2, (V("extra"),))]
                    if len(dict(new)) == len(new):
                        c.same(sql, plain, dict(new), (t1, t2, base is bases[0]))
                everything = dict(pairs[:1] + [(e, V("extra")) for e in extras if e not in base] + pairs[1:])
                c.same(sql, plain, everything, "all extras", many=True)
                c.same(sql, plain, dict(everything, **{"k%d" % j: V("e") for j in range(300)}), "300 extras", many=True)
    c.sh.sample("%s->%s %r with extra %r" % (cfg.in_style, cfg.out_style, sql, e))


def part_C(c, b):
    cfg = c.cfg
    s = start(cfg)
    for n in (1, 2, 3):
        for shapes in ((None, 2, None), (0, None, 1), ("t", None, 1)):
            plain = [value(shape, "p%d" % k) if shape != "t" else (1, 2) for k, shape in enumerate(shapes[:n])]
            if cfg.kind == NAMED:
                plain = dict(zip("abc", plain))
                zoo = mappings(plain)
            else:
                zoo = sequences(plain)
                for write in WRITE:
                    zoo += mappings({write(k + s): v for k, v in enumerate(plain)})
                    if n > 2 and cfg.quotes:
                        break
            for sql in queries(cfg, n, b["slots"]):
                for tag, other in enumerate(zoo):
                    c.same(sql, plain, other, (n, shapes, tag), many=n < 3)
    # No parameters at all: every container will do.
    plain = {} if cfg.kind == NAMED else []
    for sql in ("SELECT 1", ""):
        for tag, other in enumerate(mappings({}) + ([] if cfg.kind == NAMED else sequences([]))):
            c.same(sql, plain, other, ("none", tag), many=True)
    c.sh.sample("%s->%s %r classes %r" % (cfg.in_style, cfg.out_style, sql, [type(x).__name__ for x in zoo[:12]]))


class Bag:
    pass


class Ref(V):
    """A value that can be weakly referenced."""


def part_B(c, b):
    """Containers of the standard library that keep their values in other ways."""
    cfg = c.cfg
    s = start(cfg)
    for n in (1, 2, 3):
        plain = [5, 6, 7][:n]
        keys = "abc"[:n] if cfg.kind == NAMED else [k + s for k in range(n)]
        if cfg.kind == NAMED:
            zoo = []
            plain = dict(zip(keys, plain))
            bag = Bag()
            vars(bag).update(plain)
            zoo += [vars(bag), type("Bag", (), dict(plain)).__dict__]
        else:
            con = sqlite3.connect(":memory:")
            con.row_factory = sqlite3.Row
            zoo = [range(5, 5 + n), range(5, 99)[:n], array.array("b", plain), array.array("q", plain), memoryview(bytes(plain)), bytearray(plain), collections.deque(plain, 3),
                   con.execute("SELECT " + ", ".join(map(str, plain))).fetchone(), time.struct_time(plain + list(range(9 - n)))]
            con.close()
        zoo += [collections.Counter(dict(zip(keys, plain.values() if cfg.kind == NAMED else plain)))]
        zoo += [types.MappingProxyType(zoo[-1]), collections.ChainMap(zoo[-1])]
        for sql in queries(cfg, n, b["slots"]):
            for tag, other in enumerate(zoo):
                c.same(sql, plain, other, ("built-in", n, tag), many=True)
        live = [Ref("w%d" % k) for k in range(n)]
        plain = dict(zip(keys, live)) if cfg.kind == NAMED else live
        for sql in queries(cfg, n, b["slots"])[:4]:
            c.same(sql, plain, weakref.WeakValueDictionary(zip(keys, live)), ("weak", n), many=True)
    c.sh.sample("%s->%s %r built-in containers" % (cfg.in_style, cfg.out_style, sql))


def writings(pairs):
    """Mappings with the int keys of pairs written in several ways."""
    yield pairs
    yield [(str(k), v) for k, v in pairs]
    yield [(k if n % 2 else str(k), v) for n, (k, v) in enumerate(pairs)]
    yield [(str(k) if n % 2 else k, v) for n, (k, v) in enumerate(pairs)]
    yield [(k if n < len(pairs) // 2 else str(k), v) for n, (k, v) in enumerate(pairs)]
    yield [(str(k) if n < len(pairs) - 1 else k, v) for n, (k, v) in enumerate(pairs)]
    yield [("%04d" % k if n % 3 else b"%d" % k, v) for n, (k, v) in enumerate(pairs)]


def part_P(c, b):
    cfg = c.cfg
    names = {NAMED: "abcde", NUMERIC: "12345", ORDINAL: "01234"}[cfg.kind]
    s = start(cfg)
    for n in (4, 5):
        sql = text(cfg.in_style, names[:n] if cfg.kind == ORDINAL else names[n - 2:n] + names[:n])
        plain = [V(k) for k in names[:n]]
        plain = dict(zip(names, plain)) if cfg.kind == NAMED else plain
        for perm in itertools.permutations(list(plain.items()) if cfg.kind == NAMED else [(k + s, v) for k, v in enumerate(plain)]):
            for w, pairs in enumerate([perm] if cfg.kind == NAMED else writings(list(perm))):
                c.same(sql, plain, dict(pairs), (w, tuple(k for k, _ in perm)), many=n < 5)
                if not w:
                    c.same(sql, plain, dict([("x9", V("x"))] + list(pairs)), ("x", tuple(k for k, _ in perm)))
    c.sh.sample("%s->%s %r %r" % (cfg.in_style, cfg.out_style, sql, pairs))


def orders(pairs):
    n = len(pairs)
    yield pairs
    yield pairs[::-1]
    yield pairs[n // 2:] + pairs[:n // 2]
    yield pairs[::2] + pairs[1::2]
    yield pairs[1:2] + pairs[:1] + pairs[2:]
    yield pairs[:-2] + pairs[:-3:-1]


def part_Y(c, b):
    cfg = c.cfg
    s = start(cfg)
    for case in ladder.cases(cfg.in_style, b["sizes"], cfg.expand, "PTDL"):
        plain = case.params(cfg.in_style)
        n = len(plain)
        many = n < 12
        if n <= 70:
            if cfg.kind == NAMED:
                zoo = mappings(plain)
            else:
                seq = plain if type(plain) is list else None
                zoo = (sequences(seq) if seq else []) + mappings({k + s: v for k, v in enumerate(seq)} if seq else plain) + \
                    mappings({str(k + s): v for k, v in enumerate(seq)} if seq else {str(k): v for k, v in plain.items()})
            for tag, other in enumerate(zoo):
                c.same(case.sql, plain, other, (case.tag, "class", tag), many)
        if cfg.kind == NAMED:
            for tag, pairs in enumerate(orders(list(plain.items()))):
                c.same(case.sql, plain, dict(pairs), (case.tag, tag), many)
                if n < 300:
                    c.same(case.sql, plain, Odd(dict(pairs[:1] + [("zz%d" % k, V("e")) for k in range(n)] + pairs[1:])), (case.tag, tag, "extra"), many)
        else:
            if type(plain) is list:
                for tag, other in enumerate((tuple(plain), collections.deque(plain), Strict(plain), plain + [V("over")] * n, Seq(plain + [V("over")]))):
                    c.same(case.sql, plain, other, (case.tag, "s", tag), many)
                pairs = [(k + s, v) for k, v in enumerate(plain)]
            else:
                pairs = list(plain.items())
            for tag, p in enumerate(orders(pairs)):
                for w, ps in enumerate(writings(p)):
                    if n > 300 and w > 2 and tag > 1:
                        break
                    c.same(case.sql, plain, dict(ps), (case.tag, tag, w), many and w < 3)
                    if w == 0:
                        c.same(case.sql, plain, Odd(dict(ps[:1] + [("zz%d" % k, V("e")) for k in range(n)] + ps[1:])), (case.tag, tag, "extra"), many)
        c.base.clear()
    c.sh.sample("%s->%s %s" % (cfg.in_style, cfg.out_style, case.tag))


def part_Q(c, b):
    cfg, sh = c.cfg, c.sh
    if cfg.kind != NUMERIC:
        # The number of ordinals decides, not the container's length.
        for n in range(0, 7):
            plain = [V(k) for k in range(n)]
            sql = text(cfg.in_style, range(n))
            for m in range(n, n + 4):
                c.same(sql, plain, [*plain, *[V("x")] * (m - n)], (n, m), many=True)
                c.same(sql, plain, dict(enumerate([*plain, *[V("x")] * (m - n)])), (n, m, "d"), many=True)
                c.same(sql, plain, {str(k): v for k, v in reversed(list(enumerate([*plain, *[V("x")] * (m - n)])))}, (n, m, "s"), many=True)
        return
    for shapes in ((None, None), (2, None), (None, 0)):
        plain = [value(s, "p%d" % k) for k, s in enumerate(shapes)]
        for n in (1, 2, 3):
            for nums in itertools.product(NUMS if n < 3 else NUMS[:2] + NUMS[4:5] + NUMS[8:9], repeat=n):
                sql = text(cfg.in_style, nums)
                segs = cfg.scan(sql)
                for params in (plain, {1: plain[0], 2: plain[1]}, {"1": plain[0], "02": plain[1]}):
                    sh.transitions += 1
                    sh.nontrivial += 1
                    sh.state(c.ci, sql, shapes)
                    # Same values bound as with ':1'/':2'; with numeric output literally the same result.
                    sh.outcome(check_format(sh, c.q, cfg, c.ctor, sql, segs, params))
                    if cfg.out_kind != NAMED:
                        canon = text(cfg.in_style, [int(k) for k in nums])
                        got = attempt(c.q.format, sql, params)
                        ref = c.reference(canon, plain)
                        sh.traces += 1
                        if got[0] != "ok" or got[1][0] != ref[0] or not compare.same_values(ref[1], got[1][1]):
                            c.bad("format", sql, plain, params, ref, got, "number spelling")
                if n < 3:
                    sh.outcome(check_many(sh, c.q, cfg, c.ctor, sql, [plain, {"1": plain[0], "02": plain[1]}]))
    sh.sample("%s->%s %r" % (cfg.in_style, cfg.out_style, sql))
