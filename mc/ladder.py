"""The size dimension: queries whose parameter counts, tuple lengths, name lengths, number lengths and texts climb a fixed ladder.

Every check that bounds its structures at a few parameters walks this ladder as well, so that behaviour which changes beyond some
size (limits, chunks, caches of limited size, counters of limited width) is met at 2^k and 10^k and their neighbours.
"""
from . import model
from .common import *

COARSE = [3, 5, 9, 10, 11, 17, 27, 33, 65, 101, 129, 257]
MIDDLE = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 26, 27, 31, 32, 33, 50, 51, 64, 65, 99, 100, 101, 102, 128, 129, 200, 256, 257, 300, 512, 513, 1000, 1001, 1025, 1200]
FINE = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 26, 27, 31, 32, 33, 36, 37, 50, 51, 63, 64, 65, 99, 100, 101, 102, 120, 127, 128, 129, 199, 200, 201,
        255, 256, 257, 258, 300, 499, 500, 501, 511, 512, 513, 998, 999, 1000, 1001, 1002, 1023, 1024, 1025, 1200]
DEEP = FINE + [2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10001]
HUGE = [66001]      # past what 15 and 16 bits count
TEXT_SIZES = [15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 10001]


class Case:
    def __init__(self, tag, sql, keys, shapes):
        self.tag, self.sql, self.keys, self.shapes = tag, sql, keys, shapes

    def params(self, style, row=0, leave_out=None, value=None, kind="list"):
        """A parameter set for the query; leave_out: index of a parameter to leave out (mapping, or shorter sequence)."""
        value = value or shaped
        vs = [value(s, "r%d.%s." % (row, k)) for k, s in zip(self.keys, self.shapes)]
        pairs = [(k, v) for n, (k, v) in enumerate(zip(self.keys, vs)) if n != leave_out]
        if KIND[style] == NAMED:
            return dict(('"%s"' % k if style == "named_oracle" else k, v) for k, v in pairs)
        if kind == "list" and leave_out is None or leave_out == len(vs) - 1:
            if KIND[style] == ORDINAL:
                return [v for _, v in pairs]
            by = {int(k): v for k, v in pairs}
            if by and max(by) < 100000:
                return [by.get(n, None) for n in range(1, max(by) + 1)]
            return by
        return {int(k): v for k, v in pairs}


def shaped(shape, label):
    if shape is None:
        return V(label)
    if isinstance(shape, tuple):        # ("same", n): one object n times; ("mixed", n): two objects; ("last", n): all the same but the last
        a, b = V(label + "x"), V(label + "y")
        if shape[0] == "same":
            return (a,) * shape[1]
        if shape[0] == "mixed":
            return (a, b) * (shape[1] // 2) + (a,) * (shape[1] % 2)
        if shape[0] == "last":
            return (a,) * (shape[1] - 1) + (b,)
        return (None,) * shape[1]
    return tuple(V("%s%d" % (label, j)) for j in range(shape))


def names(style, n, base="n"):
    if KIND[style] == NUMERIC:
        return [str(k) for k in range(1, n + 1)]
    if KIND[style] == NAMED:
        return ["%s%d" % (base.upper() if style == "named_oracle" else base, k) for k in range(1, n + 1)]
    return [str(k) for k in range(n)]


def cases(style, sizes, expand=True, what="PTLDX"):
    """All ladder cases for an input style: P parameter counts, T tuple lengths, R repetitions of one parameter, L lengths of names and numbers, D tuples in every
    tenth place among many parameters, X lengths of literal text, E many parameters with long
    tuples among them, S numbers far apart, some of them tuples."""
    kind = KIND[style]
    up = str.upper if style == "named_oracle" else str
    for n in sizes:
        ks = names(style, n)
        big = n > 300
        if "P" in what and not (style == "named_oracle" and n > 130):
            order = ks if kind == ORDINAL else ks + ks[::-1]
            yield Case("params %d" % n, "SELECT " + ", ".join(spell(style, k) for k in order) + " END", ks, [None] * n)
        if "D" in what and expand and not big and not (style == "named_oracle" and n > 130):
            order = ks if kind == ORDINAL else ks[n // 2:] + ks
            for place in sorted({0, 1, n // 2, n - 1} if n < 40 else {n // 2, n - 1}):
                yield Case("tuple at %d of %d" % (place, n), " ".join(spell(style, k) for k in order), ks, [2 if p == place else None for p in range(n)])
            if n < 130:
                yield Case("all tuples %d" % n, " ".join(spell(style, k) for k in order), ks, [(0, 1, 2, 3)[p % 4] for p in range(n)])
        if "R" in what and kind != ORDINAL:
            ks = names(style, 2)
            for shapes in ([None, None], [2, None], [0, 1]) if expand and not big else ([None, None], [2, None]):
                yield Case("repeated %d %s" % (n, shapes), " x ".join([spell(style, ks[0])] * n + [spell(style, k) for k in ks[::-1]]), ks, shapes)
            if not big:
                yield Case("alternating %d" % n, " x ".join([spell(style, ks[0]), spell(style, ks[1])] * n), ks, [None, 2])
        if "T" in what:
            ks = names(style, 3)
            order = ks if kind == ORDINAL else ks + [ks[1], ks[0]]
            for shape in (n, ("same", n), ("mixed", n), ("none", n), ("last", n)) if not big else (n,):
                yield Case("tuple of %s" % (shape,), "a " + " b ".join(spell(style, k) for k in order) + " c", ks, [None, shape, None])
        if "L" in what and not big:
            pairs = []
            if kind == NAMED:
                pairs = [["x" * n + "a", "x" * n + "b"], ["a" + "x" * n, "b" + "x" * n], ["_" * n + "1", "_" * n + "2"], ["x" * n, "x" * (n + 1)], ["a1" * n, "a1" * n + "_"]]
            elif kind == NUMERIC:
                pairs = [["0" * n + "1", "0" * n + "2"]]
                if n < 40:
                    pairs.append(["1" * n + "1", "1" * n + "2"])
            for pair in pairs:
                pair = [up(k) for k in pair]
                keys = pair if kind == NAMED else [str(int(k)) for k in pair]
                for shapes in ([None, None], [2, 2], [2, None]) if expand else ([None, None], [2, None]):
                    yield Case("length %d %s" % (n, shapes), " ".join(spell(style, k) for k in pair + pair[::-1]), keys, shapes)
    if "E" in what:
        # Enough of both for the names and numbers made for elements to meet those of other parameters.
        for tag, long in (("even", lambda k: k % 2 == 0), ("odd", lambda k: k % 2), ("first", lambda k: k < 14), ("ending in 2", lambda k: k % 10 == 2)) if expand else ():
            ks = names(style, 131)
            yield Case("131 parameters, tuples of 12 where %s" % tag, " ".join(spell(style, k) for k in (ks if kind == ORDINAL else ks + ks[::7])), ks, [12 if long(k) else None for k in range(131)])
    if "S" in what:
        for k in (1, 2, 9, 10, 99, 100, 999, 1001) if expand else ():
            # Numbers that meet when combined with the place of an element.
            others = sorted({x * m + j for x in (k - 1, k) for m in (10, 31, 100, 256, 1000, 1024, 65536) for j in (-1, 0, 1, 2, 3)} - {k, -1, 0})
            if kind == ORDINAL:
                if k == 999:
                    ks = names(style, 10015)
                    yield Case("10015 ordinals, some of them tuples", " ".join(spell(style, x) for x in ks), ks, [3 if x in (0, 1, 9, 10, 99, 100, 998, 999, 1000, 1001) else None for x in range(10015)])
                continue
            ks = [up("n%d" % x) if kind == NAMED else str(x) for x in [k] + others]
            for order in (ks, ks[::-1]):
                for long in (True, False):
                    yield Case("sparse %d" % k, " ".join(spell(style, x) for x in order), order, [3 if (int(x.lower().strip("n")) == k) == long else None for x in order])
    if "X" in what:
        ks = names(style, 2)
        for n in TEXT_SIZES:
            for fill in ("x", "'", "\n", "\xe9 ", "(1)\t"):
                lit = (fill * n)[:n]
                yield Case("text %d" % n, lit + " " + spell(style, ks[0]) + " " + lit + " " + spell(style, ks[1]) + " " + lit, ks, [None, 1 if expand else None])


def odd_rows(case, style):
    """Rows whose last one differs from the first in the length of one tuple, or has a single value for it."""
    for n, s in enumerate(case.shapes):
        if s is None:
            continue
        size = s[1] if isinstance(s, tuple) else s
        for other in (size + 1, None) + ((size - 1,) if size else ()):
            odd = Case(case.tag, case.sql, case.keys, case.shapes[:n] + [other] + case.shapes[n + 1:])
            yield [case.params(style, 0), case.params(style, 1), odd.params(style, 2)]
        break


def walk(sh, q, cfg, ctor, sizes, what="PTLDX", odd=False):
    """format and formatmany (three rows of different values) for every case, judged by the model."""
    style = cfg.in_style
    for case in cases(style, sizes, True, what):
        sh.transitions += len(case.keys)
        sh.nontrivial += 1
        sh.state("ladder", case.tag, ctor[1], cfg.expand, cfg.quotes)
        rows = [case.params(style, r) for r in range(3)]
        segs = cfg.scan(case.sql)
        check_format(sh, q, cfg, ctor, case.sql, segs, rows[0], what="ladder, %s" % case.tag)
        check_many(sh, q, cfg, ctor, case.sql, rows, what="ladder, %s" % case.tag)
        if odd and cfg.expand:
            for rows in odd_rows(case, style):
                check_many(sh, q, cfg, ctor, case.sql, rows, what="ladder with an odd row, %s" % case.tag)


def huge(sh, q, cfg, ctor, what):
    """One far step of the ladder: so many parameters or so long a tuple, through format and formatmany."""
    style = cfg.in_style
    if style == "named_oracle":
        what = what.replace("P", "")        # its lookup takes time in the square of the size
    for n in HUGE:
        for case in cases(style, [n], cfg.expand, what):
            sh.transitions += n
            sh.nontrivial += 1
            sh.state("huge", case.tag, ctor[1])
            rows = [case.params(style, r) for r in range(2)]
            check_format(sh, q, cfg, ctor, case.sql, cfg.scan(case.sql), rows[0], what="ladder, %s" % case.tag)
            if what == "T":
                check_many(sh, q, cfg, ctor, case.sql, rows, what="ladder, %s" % case.tag)
