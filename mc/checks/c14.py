"""C14: a parameter without a value, or of the wrong type, always raises and never binds something else.

 A  all slot sequences up to L over three parameters times every subset of them being absent (mappings) or every length of the
    sequence, value shapes, in format and in every row position of formatmany (1..3 rows, also two faulty rows);
 Z  numbers outside the sequence or mapping: 0, 00, n+1, far beyond, at every slot of the query, sequences of every length;
 N  near misses: keys that resemble the name or number (case, spaces, introducers, quotes, bytes, prefixes, Unicode forms);
 U  every character of Unicode that can be part of a name and that some normal form or case mapping changes: the changed key must
    not match (Oracle's case rule aside);
 Y  the size ladder with one parameter left out, in format and in a later row, and long runs of rows with one that is too short,
    misses a name or is ill-typed;
 T  wrong containers (zoo) for format and for every row position, queries with and without parameters;
 M  wrong many_params and wrong query types (zoo).
The model says which calls must raise and with which class of error; no such call may return.
"""
import array
import collections
import datetime
import decimal
import email.message
import fractions
import ipaddress
import itertools
import sqlite3
import sys
import types
import unicodedata
import uuid

from .. import ladder, model
from ..common import *
from .c06 import Map, Seq

LEVEL = "model_checking"
RULE = ("a trace is one call of the real format()/formatmany() compared with the model; states are distinct (query, what is absent or "
        "ill-typed, where) per configuration; non-trivial: the call must raise")
ASSUMPTIONS = ["numbers of more than 4300 digits, which Python itself refuses to convert, are not explored"]
NAMES = {NAMED: ["a", "b", "c"], NUMERIC: ["1", "2", "3"], ORDINAL: ["0", "1", "2"]}


def bounds(tier):
    q = tier == "quick"
    return dict(slots=3 if q else 5, rows=3, params=3, shapes="scalar/tuple0/tuple2", wrong_containers=len(zoo(NAMED)), pairs=81,
                sequence_lengths="0..4", sizes=ladder.COARSE + [300, 1001] if q else ladder.FINE, all_unicode=not q)


def items(tier):
    return [(i, o, part) for i, o in PAIRS for part in "AZNTMUY" if part != "U" or KIND[i] == NAMED]


class Iter:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class Old:
    """Old sequence protocol only."""

    def __getitem__(self, n):
        if n in (0, 1, "a", "b"):
            return "leak"
        raise IndexError(n)

    def __len__(self):
        return 2


class Duck:
    """Has what a mapping has, but is none."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def values(self):
        return self.d.values()

    def get(self, k, default=None):
        return self.d.get(k, default)


def sqlite_row():
    c = sqlite3.connect(":memory:")
    c.row_factory = sqlite3.Row
    return c.execute("SELECT 1 AS a, 2 AS b").fetchone()


def message():
    m = email.message.Message()
    m["a"] = "1"
    m["b"] = "2"
    return m


def zoo(kind):
    """Things that are no set of parameters for the kind of style."""
    out = [None, 0, 1, 1.5, True, False, object(), "ab", "", "a", b"ab", b"", {"a", "b"}, frozenset(["a"]), (x for x in "ab"), iter([1, 2]),
           Iter("ab"), Old(), {"a": 1}.keys(), {"a": 1}.items(), {"a": 1}.values(), map(str, [1]), len, int, types.SimpleNamespace(a=1),
           Ellipsis, NotImplemented, 1j, Exception("a"), Duck({"a": 1, "b": 2, 0: 1, 1: 2, 2: 3}), message(), type("S", (str,), {})("ab"), type("B", (bytes,), {})(b"ab")]
    if kind == NAMED:
        out += [sqlite_row(), [[]], [{"a": 1}], ({"a": 1, "b": 2},), [], ["a"], ("a",), (), [("a", 1)], [("a", 1), ("b", 2)], collections.deque(["a"]), range(2), Seq(["a"]), collections.UserList([1]),
                collections.namedtuple("T", "a b")(1, 2), bytearray(b"ab"), collections.UserString("ab")]
    return out


def text(style, keys):
    return "SELECT " + ", ".join(spell(style, k) for k in keys) + " END"


def seqs(kind, top):
    if kind == ORDINAL:
        return [tuple("012"[:n]) for n in range(1, 4)]
    return [t for n in range(1, top + 1) for t in itertools.product(NAMES[kind], repeat=n)]


def value(shape, label):
    return V(label) if shape is None else tuple(V("%s.%d" % (label, j)) for j in range(shape))


def partials(kind, style, shapes, row):
    """All parameter sets over the three parameters with something (or nothing) absent: (description, container)."""
    vs = [value(s, "r%d%d" % (row, n)) for n, s in enumerate(shapes)]
    names = NAMES[kind]
    for mask in range(8):
        d = {k: v for n, (k, v) in enumerate(zip(names, vs)) if mask >> n & 1}
        if kind == NAMED:
            yield mask, d
        else:
            yield mask, {int(k): v for k, v in d.items()}
    if kind != NAMED:
        for n in range(5):
            yield "len%d" % n, (vs + [V("over")])[:n]
        yield "tuple2", tuple(vs[:2])
        yield "custom1", Seq(vs[:1])


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part = item
    b = bounds(tier)
    for ex in (False, True):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            globals()["part_" + part](sh, q, cfg, ctor, (ex, qu), b)


def single(sh, q, cfg, ctor, ci, sql, segs, params, tag, given=None):
    sh.transitions += 1
    r = check_format(sh, q, cfg, ctor, sql, segs, params, given=given)
    sh.state(ci, sql, tag)
    sh.outcome(r)
    if r != "ok":
        sh.nontrivial += 1


def many(sh, q, cfg, ctor, ci, sql, rows, tag):
    sh.transitions += 1
    r = check_many(sh, q, cfg, ctor, sql, rows)
    sh.state(ci, sql, tag, len(rows))
    sh.outcome("many " + r)
    if r != "ok":
        sh.nontrivial += 1


def part_A(sh, q, cfg, ctor, ci, b):
    kind = cfg.kind
    for keys in seqs(kind, b["slots"]):
        sql = text(cfg.in_style, keys)
        segs = cfg.scan(sql)
        for shapes in ((None, None, None), (0, 2, None), (2, 0, 1)) if cfg.expand else ((None, 2, 0),):
            for tag, params in partials(kind, cfg.in_style, shapes, 0):
                single(sh, q, cfg, ctor, ci, sql, segs, params, (shapes, tag))
        if len(keys) > 2 and kind != ORDINAL:
            continue
        for shapes in ((None, None, None), (0, 2, None)) if cfg.expand else ((None, 2, 0),):
            whole = lambda r: dict(partials(kind, cfg.in_style, shapes, r))[7]
            for tag, bad in partials(kind, cfg.in_style, shapes, 9):
                for n in range(1, b["rows"] + 1):
                    for at in range(n):
                        rows = [whole(r) for r in range(n)]
                        rows[at] = bad
                        many(sh, q, cfg, ctor, ci, sql, rows, (shapes, tag, at))
    sh.sample("%s->%s %r with %r" % (cfg.in_style, cfg.out_style, sql, tag))


def part_Z(sh, q, cfg, ctor, ci, b):
    kind, style = cfg.kind, cfg.in_style
    if kind == NUMERIC:
        nums = ["0", "00", "1", "2", "3", "01", "4", "10", "256", "65536", "4294967295", "4294967296", "9223372036854775807",
                "9223372036854775808", "18446744073709551617", "9" * 40]
    elif kind == ORDINAL:
        nums = []
    else:
        nums = ["a", "b", "A", "aa", "ab", "_a", "a_", "a1", "_", "a__0_sqlp"]
    for n in range(1, 3):
        for keys in itertools.product(nums, repeat=n):
            sql = text(style, keys)
            segs = cfg.scan(sql)
            if kind == NUMERIC:
                sets = [[V(k) for k in range(m)] for m in range(4)]
                sets += [{k: V(k) for k in (1, 2)}, {"1": V(1), "3": V(3)}, {}, {-1: V("m"), 1: V(1)}, {k: V(k) for k in (10, 256)}]
                sets.append(Seq([V(1), V(2)]))
                sets.append(collections.deque([V(1)]))
            else:
                sets = [{"a": V(1)}, {"a": V(1), "b": V(2)}, {}]
            for tag, params in enumerate(sets):
                single(sh, q, cfg, ctor, ci, sql, segs, params, tag)
                if n == 1:
                    many(sh, q, cfg, ctor, ci, sql, [params, params], tag)
    if kind == NUMERIC:
        far = {2 ** k + j for k in range(2, 141) for j in (-1, 0, 1, 2)} | {m * 10 ** k + j for k in list(range(1, 61)) + [100, 255, 256, 999, 1000, 4000] for m in (1, 9) for j in (-1, 0, 1, 2)}
        for k in sorted(x for x in far if x > 3):
            sql = text(style, [str(k)])
            segs = cfg.scan(sql)
            for tag, params in enumerate(([V("k")], [V("x"), V("y"), V("z")], {1: V("x"), 2: V("y"), 0: V("z")}, {"1": V("x"), "2": V("y"), "": V("z")})):
                single(sh, q, cfg, ctor, ci, sql, segs, params, ("far", k.bit_length(), tag))
            many(sh, q, cfg, ctor, ci, sql, [[V("x")], [V("y")]], "far")
    elif kind == NAMED:
        for n in (1, 2, 3, 4, 7, 8, 15, 16, 29, 30, 31, 32, 62, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 1024):
            x = "x" * n
            for name, keys in ((x + "a", [x, x + "b", x + "ab", "x" + x + "a", x + "aa", x[1:] + "a", x + "0"]), ("a" + x, ["a" + x[1:], "a" + x + "x", "b" + x, "a", x]), ("a" + x + "b", ["a" + x[1:] + "b", "a" + x, x + "b", "a" + x + "xb"])):
                sql = text(style, [name])
                segs = cfg.scan(sql)
                for tag, key in enumerate(keys):
                    if key:
                        single(sh, q, cfg, ctor, ci, sql, segs, {key: V("k")}, ("length", n, tag))
                many(sh, q, cfg, ctor, ci, sql, [{name: V("a")}, {key: V("k")}], ("length", n))
    if kind == ORDINAL:
        for n in range(0, 9):
            sql = text(style, range(n))
            segs = cfg.scan(sql)
            for m in range(0, 10):
                vs = [V(k) for k in range(m)]
                d = dict(enumerate(vs))
                sets = [vs, tuple(vs), Seq(vs), collections.deque(vs), d, {str(k): v for k, v in d.items()}]
                sets += [{k: v for k, v in d.items() if k != hole} for hole in range(m)]
                sets += [{k + 1: v for k, v in d.items()}, {k - m: v for k, v in d.items()}]
                for tag, params in enumerate(sets):
                    single(sh, q, cfg, ctor, ci, sql, segs, params, (m, tag))
    sh.sample("%s->%s out of range" % (cfg.in_style, cfg.out_style))


class Key:
    """Unequal to everything, but prints as the name."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text
    __repr__ = __str__


def part_N(sh, q, cfg, ctor, ci, b):
    kind, style = cfg.kind, cfg.in_style
    if kind == NAMED:
        names = ["a", "A", "name", "Name", "a\u00e9", "a\u0131", "x_1", "_", "as", "k\u00df", "a\ufb01", "a\u212b", "a\u00aa", "a\uff21", "x\u2160", "s\u017f", "k\u212a", "e\u0301", "a\u0130", "n\u0149", "a\u0345", "\uac00".join("aa")]
        for name in names:
            sql = text(style, [name])
            segs = cfg.scan(sql)
            near = [name.upper(), name.lower(), name.swapcase(), name.title(), name + " ", " " + name, name + "\n", "\t" + name, name + "\0",
                    name[:-1], name[1:], name + name[-1], name + "_", "_" + name, name + "1", model.INTRO[style] + name, ":" + name, "@" + name,
                    "$" + name, "%(" + name + ")s", "(" + name + ")", "'" + name + "'", "`" + name + "`", "[" + name + "]", "", name.encode(),
                    name.encode("latin1", "ignore"), (name,), 0, 1, None, Key(name), unicodedata.normalize("NFD", name), unicodedata.normalize("NFKC", name),
                    name.casefold(), name.replace("_", "-"), name.replace("_", ""), "\ufeff" + name, name + "__0_sqlp", name + ".", "\uff41"]
            if style != "named_oracle":
                near += ['"%s"' % name, '"%s"' % name.upper()]
            else:
                near = [k for k in near if isinstance(k, str)]
            near = [k for k in near if k != name]
            for tag, k in enumerate(near):
                for extra in ({}, {"other": V("o")}):
                    single(sh, q, cfg, ctor, ci, sql, segs, dict({k: V("wrong")}, **extra), (tag, len(extra)))
                # The right key beside the near miss must win, in any order.
                single(sh, q, cfg, ctor, ci, sql, segs, {name: V("right")} if style == "named_oracle" else {name: V("right"), k: V("wrong")}, (tag, 3))
                if style != "named_oracle":
                    single(sh, q, cfg, ctor, ci, sql, segs, {k: V("wrong"), name: V("right")}, (tag, 4))
                many(sh, q, cfg, ctor, ci, sql, [{name: V("right")}, {k: V("wrong")}], tag)
    else:
        good = 1 if kind == NUMERIC else 0
        for digits in (["1"] if kind == ORDINAL else ["1", "01", "10"]):
            num = good if kind == ORDINAL else int(digits)
            sql = text(style, [digits])
            segs = cfg.scan(sql)
            s = str(num)
            near = [num + 1, num - 1, -num - 1, s + " ", " " + s, "+" + s, "-" + s, s + ".0", float(num), complex(num), s + "_0", "_" + s, ":" + s, "$" + s,
                    model.INTRO[style] + s, (num,), None, "", "x", "\u00b9", "\u00b2", "\u2460", "\u2070", "one", s + "\n", "0x" + s, "0b" + s, s + "e0", b"", b" 1", b"+1", Key(s),
                    "\u4e00", "\u2160", num + 0.5, num + 0.1, num + 0.9, num - 0.1, -num - 0.5, 1e300, float("inf"), float("nan"), s + ".5", s + ",0", s + "/1", s + "%",
                    fractions.Fraction(2 * num + 1, 2), decimal.Decimal(s + ".5"), complex(num, 1), num + 0.5j, s + "L", s + "j", (num, num), frozenset([num]),
                    datetime.timedelta(num), uuid.UUID(int=num), ipaddress.IPv4Address(num), range(num), Index(num), type("Text", (), {"__str__": lambda self: s, "__repr__": lambda self: s})(),
                    "1" + s + s, "7" + s * 20, int("1" + s + "0" * 30), s.encode("utf-16"), s.encode("utf-32"), b"-" + s.encode(), s.encode() + b".0", s.encode() + b" ", memoryview(s.encode())]
            if kind == ORDINAL:
                near.append("1")
            for tag, k in enumerate(near):
                if k in (num,):
                    continue        # 1.0 == 1 as a dictionary key
                for extra in ({}, {"other": V("o")}):
                    single(sh, q, cfg, ctor, ci, sql, segs, dict({k: V("wrong")}, **extra), (tag, len(extra)))
                single(sh, q, cfg, ctor, ci, sql, segs, {num: V("right"), k: V("wrong")}, (tag, 3))
                single(sh, q, cfg, ctor, ci, sql, segs, {k: V("wrong"), num: V("right")}, (tag, 4))
                many(sh, q, cfg, ctor, ci, sql, [{num: V("right")}, {k: V("wrong")}], tag)
    sh.sample("%s->%s near misses of %r" % (cfg.in_style, cfg.out_style, sql))


class Index:
    """Converts to an integer in every way, and is not one."""

    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n

    __int__ = __trunc__ = __index__

    def __float__(self):
        return float(self.n)


FORMS = [lambda s: unicodedata.normalize("NFC", s), lambda s: unicodedata.normalize("NFD", s), lambda s: unicodedata.normalize("NFKC", s),
         lambda s: unicodedata.normalize("NFKD", s), str.lower, str.upper, str.casefold, str.title, str.swapcase]
_unicode = []


def unicode_names():
    if not _unicode:
        for c in range(0x80, sys.maxunicode + 1):
            ch = chr(c)
            if not (ch.isalnum() or ch == "_") or 0xac00 <= c < 0xd7a4 and c % 28:
                continue
            name = "a" + ch
            near = sorted({f(name) for f in FORMS} - {name, name.title(), name.upper()[:1] + name[1:], "A" + ch}) + (["A" + ch] if not c % 64 else [])
            if near:
                _unicode.append((name, near))
    return _unicode


def part_U(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    if cfg.expand and cfg.out_kind == NAMED and not b["all_unicode"]:
        return
    for name, near in unicode_names():
        sql = "x " + spell(style, name)
        segs = cfg.scan(sql)
        for k in near:
            single(sh, q, cfg, ctor, ci, sql, segs, {k: V("wrong")}, k)
    sh.sample("%s->%s %r must not find %r" % (cfg.in_style, cfg.out_style, sql, near))


def part_Y(sh, q, cfg, ctor, ci, b):
    style, kind = cfg.in_style, cfg.kind
    for case in ladder.cases(style, b["sizes"], cfg.expand, "PTDL"):
        segs = cfg.scan(case.sql)
        n = len(case.keys)
        for out in sorted({0, n // 2, n - 1}):
            bad = case.params(style, 7, leave_out=out)
            single(sh, q, cfg, ctor, ci, case.sql, segs, bad, (case.tag, out))
            many(sh, q, cfg, ctor, ci, case.sql, [case.params(style), bad], (case.tag, out))
    names = NAMES[kind]
    sql = text(style, names)
    good = lambda r: {k: V("r%d%s" % (r, k)) for k in names} if kind == NAMED else [V("r%d%s" % (r, k)) for k in names]
    bads = [lambda: None, lambda: "abc", lambda: b"abc", lambda: 3, lambda: {"a": V(1), "b": V(2)} if kind == NAMED else [V(1), V(2)],
            lambda: {} if kind == NAMED else [], lambda: {"a": V(1), "c": V(2)} if kind == NAMED else {1: V(1), 3: V(2)}]
    for n in b["sizes"]:
        for tag, bad in enumerate(bads):
            for at in sorted({1, n // 2, n - 1}):
                rows = [good(r) for r in range(n)]
                rows[at] = bad()
                many(sh, q, cfg, ctor, ci, sql, rows, (tag, at))
    sh.sample("%s->%s %s with parameter %d left out" % (cfg.in_style, cfg.out_style, case.tag, out))


def part_T(sh, q, cfg, ctor, ci, b):
    kind, style = cfg.kind, cfg.in_style
    right = {"a": V(0), "b": V(1)} if kind == NAMED else [V(0), V(1)]
    for keys in ((), (NAMES[kind][0],), tuple(NAMES[kind][:2])):
        for wrap in (str, str.encode):
            sql = wrap(text(style, keys)) if keys else wrap("SELECT 1")
            for tag in range(len(zoo(kind))):
                single_bad(sh, q, ctor, ci, sql, "format", zoo(kind)[tag], (tag,), TypeError)
                for n in range(1, b["rows"] + 1):
                    for at in range(n):
                        for it in (list, iter):
                            rows = [right] * n
                            rows[at] = zoo(kind)[tag]
                            single_bad(sh, q, ctor, ci, sql, "formatmany", it(rows), (tag, n, at), TypeError)
    sh.sample("%s->%s wrong containers" % (cfg.in_style, cfg.out_style))


def single_bad(sh, q, ctor, ci, sql, method, arg, tag, cls):
    sh.transitions += 1
    got = attempt(getattr(q, method), sql, arg)
    sh.traces += 1
    sh.nontrivial += 1
    sh.state(ci, method, _name(sql), tag)
    if got[0] == "ok" or not isinstance(got[1], cls) or isinstance(got[1], StopIteration):
        sh.violation("%s must raise %s: %s->%s" % (method, cls.__name__, ctor[0], ctor[1]), ctor=ctor, sql=sql, params=arg, observed=show(got),
                     script=script(ctor, method, sql, arg, cls.__name__))
    else:
        sh.outcome("raises " + cls.__name__)


def _name(sql):
    return sql if isinstance(sql, (str, bytes)) else type(sql).__name__


def part_M(sh, q, cfg, ctor, ci, b):
    kind, style = cfg.kind, cfg.in_style
    right = {"a": V(0), "b": V(1)} if kind == NAMED else [V(0), V(1)]
    k = NAMES[kind][0]
    for sql in (text(style, [k]), text(style, [k]).encode(), "SELECT 1", b"SELECT 1"):
        for tag, bad in enumerate([None, 0, 1, 1.5, True, object(), "", "ab", "abc" * 50, b"", b"ab", len, int, types.SimpleNamespace(a=1),
                                   Ellipsis, type("S", (str,), {})("ab"), type("B", (bytes,), {})(b"ab"),
                                   # iterable, but of things which are no rows
                                   ["ab"], [b"ab"], [1], [None], "x".split(), iter("ab"), {"ab": [1]}, {1: {"a": 1}}, range(3), bytearray(b"ab"), {1, 2}, [{1, 2}],
                                   [[right][0], "ab"], [right, None], [right, right, 5], (x for x in "ab"), map(str, [1]), array.array("i", [1])]):
            single_bad(sh, q, ctor, ci, sql, "formatmany", bad, (1, tag), TypeError)
        if kind == NAMED:
            single_bad(sh, q, ctor, ci, sql, "formatmany", [["a"]], (2,), TypeError)
    t = text(style, [k])
    for tag, bad in enumerate([None, 0, 1, 1.5, True, object(), bytearray(t.encode()), memoryview(t.encode()), [t], (t,), {t: 1}, {t}, collections.UserString(t), iter(t),
                               len, Ellipsis, list(t), array.array("u", t), Exception(t), types.SimpleNamespace(s=t)]):
        single_bad(sh, q, ctor, ci, bad, "format", right, (3, tag), TypeError)
        single_bad(sh, q, ctor, ci, bad, "formatmany", [right], (3, tag), TypeError)
        single_bad(sh, q, ctor, ci, bad, "formatmany", iter([right, right]), (4, tag), TypeError)
    # A subclass of str or bytes is a str or bytes.
    for sub in (type("S", (str,), {})(t), type("B", (bytes,), {})(t.encode())):
        got = attempt(q.format, sub, right)
        sh.traces += 1
        if got[0] != "ok":
            sh.violation("a query of a subclass of str/bytes is refused", ctor=ctor, sql=sub, observed=show(got))
    sh.sample("%s->%s wrong many_params and queries" % (cfg.in_style, cfg.out_style))
