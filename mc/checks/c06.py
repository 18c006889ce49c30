"""C06: formatmany is format applied to every row, or an error.

 R  all row sequences up to a length over all assignments of {single value, (), 1-tuple, 2-tuple} to two parameters, for all
    81 pairs and expand_tuples in {False, True}; query patterns with repetition; judged by the model and by format() itself;
 C  all sequences of container classes for the rows (dict/list/tuple/str keys/mappings/custom classes), equal shapes;
 I  all kinds of iterables (list, tuple, generator, one-shot iterator, dict views, map, custom, itertools), 0..3 rows;
 M  many rows (a ladder), uniform and with one odd row at every position;
 B  all sequences of up to three rows out of good rows and every way for a row to be unusable (a value missing from each kind of
    container, keys of other meaning, not a container at all);
 Y  the size ladder (mc/ladder.py): rows with many parameters, long tuples and names, the last row equal in shape or odd;
 S  every place in SQL (mc/sqlctx.py): rows whose values are equal, None, or tuples of one length;
 V  values of some 180 classes, of the expected length or not, where the first row has a tuple of 0 to 3 elements or a single value, in
    every one of the first five rows;
 Z  queries without parameters, rows empty or not.
"""
import collections
import itertools
import types

from .. import compare, ladder, model, sqlctx, zoo as classes
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one (query, row sequence) run through the real formatmany(); states are distinct (query, shapes of the rows) "
        "per configuration; non-trivial: at least two rows of different shape or container")
ASSUMPTIONS = ["row sequences longer than the bounds are handled row by row like the shorter ones"]
SHAPES = (None, 0, 1, 2)
REPR = ("named", "numeric", "format")


def bounds(tier):
    q = tier == "quick"
    return dict(ladder_sizes=ladder.COARSE if q else ladder.FINE, long_runs=[500, 512, 513, 1000, 1001, 1024, 1025, 2001, 2049] if q else [1000, 1001, 2049, 4097, 10001, 65537], places=len(sqlctx.PLACES), rows=3, params_per_query=2, shapes="scalar/tuple0/1/2", container_rows=3, container_rows_all_pairs=not q, rows_one_param=3 if q else 5, ladder=64 if q else 400,
                pairs=81)


def items(tier):
    out = [(i, o, part) for i, o in PAIRS for part in "RCIMBYSV"]
    return out


class Map(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Seq(collections.abc.Sequence):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        return self.s[k]

    def __len__(self):
        return len(self.s)


def containers(style, vals):
    """Every way to hand over the values of parameters 1..n (a, b, ... for named styles)."""
    kind = KIND[style]
    if kind == NAMED:
        names = ["a", "b", "c"][:len(vals)]
        d = dict(zip(names, vals))
        out = [d, dict(reversed(list(d.items()))), collections.OrderedDict(d), types.MappingProxyType(d), Map(d),
               collections.UserDict(d), dict(d, extra=V("x")), collections.ChainMap({"extra": 1}, d)]
        if style == "named_oracle":
            out += [{k.upper(): v for k, v in d.items()}, {'"%s"' % k.upper(): v for k, v in d.items()}]
        return out
    start = 1 if kind == NUMERIC else 0
    d = {n + start: v for n, v in enumerate(vals)}
    vals = list(vals)
    return [vals, tuple(vals), collections.deque(vals), Seq(vals), collections.UserList(vals), vals + [V("x")], d,
            {str(k): v for k, v in d.items()}, dict(reversed(list(d.items()))), Map(d), types.MappingProxyType(d),
            dict(d, **{"99": V("x"), "x": V("y")})]


def row(style, vals):
    if KIND[style] == NAMED:
        return dict(zip(["a", "b", "c"], vals))
    return list(vals)


def queries(style):
    """(text, number of parameters)"""
    kind = KIND[style]
    a, b, c = {NAMED: "abc", NUMERIC: "123", ORDINAL: "012"}[kind]
    s = lambda *ks: "SELECT " + ", ".join(spell(style, k) for k in ks) + " END"
    out = [(s(a), 1), (s(a, b), 2)]
    if kind != ORDINAL:
        out += [(s(b, a, a), 2), (s(a, a), 1)]
    return out


def value(shape, label):
    return V(label) if shape is None else tuple(V("%s.%d" % (label, j)) for j in range(shape))


def bare_rows(sh, q, ctor, sql, rows):
    """Metamorphic: the rows one by one through format()."""
    got = attempt(q.formatmany, sql, rows)
    sh.traces += 1
    single = [attempt(q.format, sql, r) for r in rows]
    if got[0] == "ok":
        if any(s[0] != "ok" for s in single) or len(got[1][1]) != len(rows) or got[1][0] != single[0][1][0]:
            ok = False
        else:
            ok = all(compare.same_values(s[1][1], g) for s, g in zip(single, got[1][1]))
        if not ok and not all(s[0] == "ok" and s[1][0] == single[0][1][0] for s in single):
            return  # a row of another shape: judged by the model (known finding or violation there)
        if not ok:
            sh.violation("formatmany differs from format row by row: %s->%s" % ctor[:2], ctor=ctor, sql=sql, rows=rows,
                         observed=show(got), expected=[show(s) for s in single],
                         script=script(ctor, "formatmany", sql, rows, "format() of each row"))
    elif all(s[0] == "ok" and s[1][0] == single[0][1][0] for s in single) and rows:
        sh.violation("formatmany fails where format works for every row: %s->%s" % ctor[:2], ctor=ctor, sql=sql, rows=rows,
                     observed=show(got), script=script(ctor, "formatmany", sql, rows, "format() of each row"))


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part = item
    b = bounds(tier)
    for ci, ex in enumerate((False, True)):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            globals()["part_" + part](sh, q, cfg, ctor, (ci, qu), b)


def part_R(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    for sql, n in queries(style):
        single = list(itertools.product(SHAPES, repeat=n))
        for depth in range(1, (b["rows"] if n > 1 else b["rows_one_param"]) + 1):
            for shapes in itertools.product(single, repeat=depth):
                if n == 2 and depth == 3 and len(set(shapes)) == 3 and cfg.quotes:
                    continue
                sh.transitions += 1
                rows = [row(style, [value(s, "r%dp%d" % (r, p)) for p, s in enumerate(sp)]) for r, sp in enumerate(shapes)]
                res = check_many(sh, q, cfg, ctor, sql, rows)
                if depth == 2:
                    bare_rows(sh, q, ctor, sql, rows)
                sh.state(ci, sql, shapes)
                sh.outcome(res)
                if len(set(shapes)) > 1:
                    sh.nontrivial += 1
    sh.sample("%s->%s expand=%s %r shapes of the rows %r" % (cfg.in_style, cfg.out_style, cfg.expand, sql, shapes))


def part_C(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    top = b["container_rows"]
    for sql, n in queries(style)[1:3]:
        for shapes in ((None, None), (None, 2)):
            kinds = len(containers(style, [0] * n))
            for depth in range(1, (top if cfg.expand and n == 2 and shapes[1] and not cfg.quotes and (b["container_rows_all_pairs"] or cfg.out_style in REPR) else 2) + 1):
                for pick in itertools.product(range(kinds), repeat=depth):
                    sh.transitions += 1
                    rows = [containers(style, [value(s, "r%dp%d" % (r, p)) for p, s in enumerate(shapes)])[k]
                            for r, k in enumerate(pick)]
                    sh.outcome(check_many(sh, q, cfg, ctor, sql, rows, what="formatmany with row containers %r" % (pick,)))
                    sh.state(ci, sql, shapes, pick)
                    if len(set(pick)) > 1:
                        sh.nontrivial += 1
    sh.sample("%s->%s containers of the rows %r" % (cfg.in_style, cfg.out_style, [type(r).__name__ for r in rows]))


class Rows:
    """Iterable only: neither a sequence nor a collection."""

    def __init__(self, rows):
        self.rows = rows

    def __iter__(self):
        return iter(self.rows)


class Once:
    """One-shot iterator that must be drawn in order and never after its end."""

    def __init__(self, rows):
        self.rows = list(rows)
        self.pos = 0
        self.ended = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.rows):
            self.ended += 1
            raise StopIteration
        self.pos += 1
        return self.rows[self.pos - 1]


class Unsized(Rows):
    """Iterable whose length is not known before it has been drawn (as with a database cursor)."""
    size = 0

    def __iter__(self):
        for r in self.rows:
            self.size += 1
            yield r

    def __len__(self):
        return self.size


class NoLen(Rows):
    def __len__(self):
        raise TypeError("unknown length")


class Falsy(Rows):
    def __bool__(self):
        return False


class Vague(Rows):
    """Truth and equality of it are errors, as with an array."""
    __hash__ = None

    def __bool__(self):
        raise ValueError("ambiguous")

    def __eq__(self, other):
        raise ValueError("ambiguous")




def iterables(rows):
    yield "list", rows
    yield "tuple", tuple(rows)
    yield "iterator", iter(rows)
    yield "generator", (r for r in rows)
    yield "map", map(lambda r: r, rows)
    yield "dict values", dict(enumerate(rows)).values()
    yield "deque", collections.deque(rows)
    yield "chain", itertools.chain(rows[:1], rows[1:])
    yield "iterable", Rows(rows)
    yield "sequence", Seq(rows)
    yield "unsized", Unsized(rows)
    yield "no length", NoLen(rows)
    yield "falsy", Falsy(rows)
    yield "vague", Vague(rows)
    yield "userlist", collections.UserList(rows)
    yield "once", Once(rows)
    yield "reversed", reversed(rows[::-1])
    yield "filter", filter(lambda r: True, rows)
    yield "islice", itertools.islice(itertools.chain(rows, [None]), len(rows))


class KeyRow(tuple):
    """A sequence of parameters that can be a dictionary key whatever it contains."""
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class KeyMap(Map):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


def keyed(rows, decoys):
    """Iterables that yield the rows and have other parameter sets in store."""
    rows = [KeyMap(r) if isinstance(r, dict) else KeyRow(r) for r in rows]
    yield "dict", rows, dict(zip(rows, decoys))
    yield "ordered dict", rows, collections.OrderedDict(zip(rows, decoys))
    yield "defaultdict", rows, collections.defaultdict(list, zip(rows, decoys))
    yield "counter", rows, collections.Counter(rows)
    yield "userdict", rows, collections.UserDict(zip(rows, decoys))
    yield "mapping", rows, Map(dict(zip(rows, decoys)))
    yield "proxy", rows, types.MappingProxyType(dict(zip(rows, decoys)))
    yield "dict keys", rows, dict(zip(rows, decoys)).keys()
    yield "chain map", rows, collections.ChainMap(dict(zip(rows, decoys)))
    if len(rows) < 2:
        yield "set", rows, set(rows)
        yield "frozenset", rows, frozenset(rows)


def part_I(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    noparam = [("SELECT 1", 0), ("", 0)]
    for sql, n in queries(style) + noparam:
        for depth in range(0, 4):
            for bad in [None] + list(range(1, depth)):
                def build():
                    rows = []
                    for r in range(depth):
                        shapes = [2, None][:n]
                        if bad == r and n:
                            shapes[0] = None        # not a tuple where row 0 has one
                        rows.append(row(style, [value(s, "r%dp%d" % (r, p)) for p, s in enumerate(shapes)]))
                    return rows
                rows = build()
                for name, it in iterables(rows):
                    sh.transitions += 1
                    res = check_many(sh, q, cfg, ctor, sql, rows, it, what="formatmany over %s" % name)
                    sh.outcome(res)
                    sh.state(ci, sql, depth, bad, name)
                    if depth > 1:
                        sh.nontrivial += 1
                    if name == "generator":
                        # Rows that exist only while they are drawn: the next one can get the address of the one before.
                        fresh = (type(r)(r) for r in rows)
                        sh.outcome(check_many(sh, q, cfg, ctor, sql, rows, fresh, what="formatmany over temporary rows"))
                    if isinstance(it, Once) and res == "ok" and it.pos != depth:
                        sh.violation("formatmany drew %d rows of %d" % (it.pos, depth), ctor=ctor, sql=sql)
                if bad is None and depth:
                    decoys = [row(style, [value(s, "d%dp%d" % (r, p)) for p, s in enumerate([2, None][:n])]) for r in range(depth)]
                    for name, rows, it in keyed(rows, decoys):
                        sh.transitions += 1
                        sh.nontrivial += 1
                        sh.outcome(check_many(sh, q, cfg, ctor, sql, rows, it, what="formatmany over the keys of a %s" % name))
    # No rows at all: an ordinary error, and StopIteration never escapes (it would end a caller's generator silently).
    for name, it in iterables([]):
        got = attempt(q.formatmany, "SELECT 1", it)
        sh.traces += 1
        if got[0] == "ok" or isinstance(got[1], StopIteration):
            sh.violation("formatmany of no rows (%s): %s" % (name, show(got)), ctor=ctor)
    sh.sample("%s->%s iterables %r" % (cfg.in_style, cfg.out_style, [n for n, _ in iterables([])]))


def bad_rows(style, n, tag):
    """Rows that do not provide parameters 1..n, or do so in an unusual way (the model tells which); the first two are good."""
    vals = [V("%s%d" % (tag, k)) for k in range(n)]
    if KIND[style] == NAMED:
        names = ["a", "b", "c"][:n]
        d = dict(zip(names, vals))
        e = dict(d)
        del e[names[-1]]
        out = [d, Map(d), {}, Map({}), e, Map(e), {5: V("w")}, {"zz": V("w")}, {None: V("w")}, {b"a": V("w")}, vals, tuple(vals), "a", b"a", 5, None,
               [("a", V("w"))], {"a", "b"}, iter([V("w")]), {"b": V("w")}, {"a__0_sqlp": V("w")}]
        if style != "named_oracle":
            out.append({k.upper(): v for k, v in d.items()})
        else:
            out = [x for x in out if not isinstance(x, (dict, Map)) or all(isinstance(k, str) for k in x)]
        return out
    start = 1 if KIND[style] == NUMERIC else 0
    d = {k + start: v for k, v in enumerate(vals)}
    return [vals, d, [], (), {}, Map({}), vals[:-1], tuple(vals[:-1]), {k: v for k, v in list(d.items())[:-1]}, {5: V("w")}, {"5": V("w")}, {"x": V("w")},
            {None: V("w")}, {-1: V("w")}, {"-1": V("w")}, {"": V("w")}, {1.0: V("w")}, {n - 1 + start: vals[-1]}, {str(k): v for k, v in d.items()}, "ab", b"ab", 5,
            None, iter(vals), set("ab"), {}.keys(), {"_1": V("w")}, {(0,): V("w")}]


def part_B(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    for sql, n in queries(style)[:2]:
        kinds = len(bad_rows(style, n, ""))
        for depth in range(1, 4):
            for pick in itertools.product(range(kinds), repeat=depth):
                # Up to two good rows anywhere, everything in the last place.
                if depth == 3 and (pick[0] > 1 or pick[1] > 1):
                    continue
                sh.transitions += 1
                rows = [bad_rows(style, n, "r%d" % r)[k] for r, k in enumerate(pick)]
                sh.outcome(check_many(sh, q, cfg, ctor, sql, rows, what="formatmany with unusable rows %r" % (pick,)))
                sh.state(ci, sql, "bad", pick)
                if len(set(pick)) > 1:
                    sh.nontrivial += 1
        for k, r in enumerate(bad_rows(style, n, "f")):
            check_format(sh, q, cfg, ctor, sql, cfg.scan(sql), r)
    sh.sample("%s->%s %r rows %r" % (cfg.in_style, cfg.out_style, sql, rows))


def part_V(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    pool = classes.scalars() + classes.tuples() + [V("s"), [], [V("e")], [V("e"), V("f")], "ab", "", b"ab", range(2), {V("e"), V("f")}, {1: 2, 3: 4}, frozenset((1, 2)), collections.deque([1, 2]), {}.items(), {1: 2, 3: 4}.keys(),
                                                   iter((1, 2)), (n for n in (1, 2)), collections.UserList([1, 2]), Seq([1, 2]), bytearray(2), memoryview(b"ab"), ([1, 2],), ((1, 2), (3, 4)), (), (None,), (None, None), [None, None]]
    pool = [v for v in pool if attempt(repr, v)[0] == "ok"]      # the message of the error contains the value
    for sql, n in queries(style)[:2]:
        for shape in (None, 0, 1, 2, 3) if cfg.expand else (None,):
            for at in range(n):
                for late in range(1 if n == 1 else 2, 5):
                    if late == 3 and n > 1:
                        continue
                    for k, v in enumerate(pool):
                        rows = [row(style, [value(shape if p == at else None, "r%d.%d" % (r, p)) for p in range(n)]) for r in range(late + 1 + k % 2)]
                        mine = row(style, [v if p == at else V("o%d" % p) for p in range(n)])
                        rows[late] = mine
                        sh.transitions += 1
                        sh.outcome(check_many(sh, q, cfg, ctor, sql, rows, what="formatmany with a value of another class in row %d" % late))
                    sh.state(ci, sql, shape, at, late)
                    sh.nontrivial += len(pool)
    sh.sample("%s->%s %r rows %r" % (cfg.in_style, cfg.out_style, sql, rows))


def part_Y(sh, q, cfg, ctor, ci, b):
    ladder.walk(sh, q, cfg, ctor, b["ladder_sizes"], "PTDLR", odd=True)
    sh.sample("%s->%s size ladder" % (cfg.in_style, cfg.out_style))


def part_S(sh, q, cfg, ctor, ci, b):
    """Every place in SQL, rows whose values are equal, None, or tuples of one length."""
    style, kind = cfg.in_style, cfg.kind
    x, y = {NAMED: "ab", NUMERIC: "12", ORDINAL: "  "}[kind]
    p, r = spell(style, x.strip()), spell(style, y.strip())
    for n, (a, z) in enumerate(sqlctx.PLACES):
        for sql in (a + p + ", " + r + z, a + p + z + " " + r):
            segs = cfg.scan(sql)
            k = sum(s[0] == "P" for s in segs)
            if not k or not sqlctx.only(segs, (x, y), kind == ORDINAL):
                continue

            def row(v, w):
                return dict(zip((x, y), (v, w))) if kind == NAMED else [v, w] if kind == NUMERIC else ([v, w] * k)[:k]
            o = V("o")
            for rows in ([row(1, 2), row(3, 4), row(5, 6)], [row(None, o), row(o, None)], [row((o, 1), 2), row((3, 4), o), row((5, 6), None)], [row((), o), row((), 2)], [row(o, o)] * 3):
                check_many(sh, q, cfg, ctor, sql, rows)
                sh.transitions += len(rows)
            sh.state(ci, "place", n)
            sh.nontrivial += 1
    sh.sample("%s->%s %r three rows" % (cfg.in_style, cfg.out_style, sql))


def part_M(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    sizes = [4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 256, 257, 399, 400]
    for size in b["long_runs"] + (ladder.HUGE if cfg.out_style in REPR and cfg.expand and not cfg.quotes else []):
        sql, n = queries(style)[1]
        base = [row(style, [value(s, "r%dp%d" % (r, p)) for p, s in enumerate([None, 1])]) for r in range(size)]
        sh.transitions += 1
        sh.outcome(check_many(sh, q, cfg, ctor, sql, base, iter(base)))
        sh.state(ci, "long", size)
        base[-1] = row(style, [V("x"), (V("y"), V("z"))])
        sh.outcome(check_many(sh, q, cfg, ctor, sql, base))
    for sql, n in queries(style)[1:]:
        for size in [s for s in sizes if s <= b["ladder"]]:
            base = [row(style, [value(s, "r%dp%d" % (r, p)) for p, s in enumerate([None, 2][:n])]) for r in range(size)]
            sh.transitions += 1
            sh.outcome(check_many(sh, q, cfg, ctor, sql, base))
            sh.outcome(check_many(sh, q, cfg, ctor, sql, base, (type(r)(r) for r in base), what="formatmany over %d temporary rows" % size))
            bare_rows(sh, q, ctor, sql, base)
            sh.state(ci, sql, size)
            odd = ([None, None], [None, 0], [None, 1], [None, 3]) if n > 1 else ()
            for pos in (range(1, size) if size <= 33 else (1, size // 2, size - 1)):
                for shapes in odd:
                    rows = list(base)
                    rows[pos] = row(style, [value(s, "odd%d" % p) for p, s in enumerate(shapes)])
                    sh.transitions += 1
                    sh.outcome(check_many(sh, q, cfg, ctor, sql, rows))
                    sh.state(ci, sql, size, pos, shapes[1])
                    sh.nontrivial += 1
                # A row without the value.
                rows = list(base)
                rows[pos] = {} if cfg.kind == NAMED else []
                sh.outcome(check_many(sh, q, cfg, ctor, sql, rows))
    sh.sample("%s->%s %d rows, odd row at every position" % (cfg.in_style, cfg.out_style, size))
