"""C01: every placeholder keeps the value of the parameter it replaces.

Space, explored completely for all 81 style pairs, expand_tuples in {False, True} and both output quotings:
 S  structure: all sequences of up to L slots over 3 parameters (repetition and any order), times all assignments of
    {single value, (), 1-tuple, 2-tuple} to the parameters used;
 N  spelling: all ordered pairs (thorough: triples) of confusable names / numbers, the first parameter repeated at the end;
 K  size: for every n up to a bound, n parameters in rising, falling and doubled order, and one tuple of length n;
 X  values: all sequences of up to 3 values from a pool of awkward ones (falsy, equal but distinct, unhashable, ...), and
    values of some 150 classes (mc/zoo.py) in every place, alone, repeated, in tuples and in every row;
 Y  the size ladder (mc/ladder.py): counts, tuple lengths (also of one repeated object), names and numbers of all sizes, three rows.
Values are compared by identity, and the opaque values compare equal to one another.
"""
import itertools

from .. import compare, ladder, model, zoo
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one query built slot by slot with one parameter assignment, run through the real format(); states are "
        "distinct model plans per configuration; non-trivial: at least two placeholders bound to different values")
ASSUMPTIONS = ["parameter sets beyond the stated sizes behave as the sizes explored"]
SHAPES = (None, 0, 1, 2)
NAMES = ["a", "A", "aa", "a_", "_a", "_", "a1", "a10", "ab", "name", "name2", "_1", "_0", "a\u00e9", "x" * 40, "None"]
WORDS = """self sql params param row rows many_params many_param class def lambda in is not None null true escape quote out_percent in_style out_style expand tuple list dict
    int str text date json s d i r f x u format pyformat name names value values key keys items index pos count num number start end match group regex pattern lookup out_sql out_params
    _ __ ___ __init__ __class__ __dict__ __len__ __name__ __missing__ __getitem__ __0_sqlp _sqlp sqlp _1 _0 _0_1 _1_0 _1_1 a_1 a__1 a__sqlp sqlparams select from where order by insert into
    update set desc user pass timestamp time zone interval array numeric named qmark ordinal default literal prefix suffix delimiter l O0 O1 Il lI e1 e10 j1 inf nan b0 x0f""".split()
LARGE = [31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1002, 1024]
NUMS = ["1", "2", "9", "10", "11", "12", "19", "21", "99", "100", "101", "01", "002", "\u0663"]


def bounds(tier):
    return dict(huge=ladder.HUGE, slots=4 if tier == "quick" else 6, params=3, shapes="scalar/tuple0/1/2",
                names_per_query=2 if tier == "quick" else 3, max_n=24 if tier == "quick" else 300, larger_n=LARGE if tier == "quick" else LARGE + [2047, 2048, 4096, 5000],
                ladder=(ladder.MIDDLE if tier == "quick" else ladder.DEEP)[-1], awkward_values_per_query=2 if tier == "quick" else 3,
                value_classes=len({type(v) for v in zoo.scalars() + zoo.tuples()}), pairs=81)


def items(tier):
    out = []
    for i, o in PAIRS:
        for part in "SNKXY":
            if part == "N" and KIND[i] == ORDINAL:
                continue
            out.append((i, o, part))
    return out


def configs(i, o):
    for ex in (False, True):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            yield opts


def build(style, keys):
    """Query text with one slot per key, and the segments it must scan to."""
    text, segs = [], []
    for n, k in enumerate(keys):
        lit = " c%d=" % n if n else "SELECT c0="
        text.append(lit + spell(style, k))
    return "".join(text) + " END"


def container(style, assign):
    """assign: list of (key, value)."""
    kind = KIND[style]
    if kind == NAMED:
        return dict(assign)
    if kind == NUMERIC:
        by = {int(k): v for k, v in assign}
        if by and max(by) > 6000:
            return by
        pad = [V("pad%d" % n) for n in range(max(by) if by else 0)]
        for n, v in by.items():
            pad[n - 1] = v
        return pad
    return [v for _, v in assign]


def value(shape, label):
    return V(label) if shape is None else tuple(V("%s.%d" % (label, j)) for j in range(shape))


def one(sh, q, cfg, ctor, sql, nslots, params):
    segs = cfg.scan(sql)
    assert sum(1 for s in segs if s[0] == "P") == nslots, (sql, segs)
    r = check_format(sh, q, cfg, ctor, sql, segs, params)
    return segs


def note(sh, cfg, ci, segs, params):
    pl, _ = model.plan(cfg, segs, params)
    vs = [t for t in pl if t[0] == "V"]
    sh.state(ci, tuple((t[1][1], t[2]) if t[0] == "V" else None for t in pl))
    if len({id(t[3]) for t in vs}) > 1:
        sh.nontrivial += 1
    sh.outcome("placeholders=%d" % len(vs) if len(vs) < 10 else "placeholders>=10")


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part = item
    b = bounds(tier)
    for ci, opts in enumerate(configs(i, o)):
        ctor = (i, o, opts)
        cfg = Cfg(i, o, **opts)
        q = make(i, o, **opts)
        if part == "S":
            structure(sh, q, cfg, ctor, ci, b["slots"])
        elif part == "N":
            spelling(sh, q, cfg, ctor, ci, b["names_per_query"])
        elif part == "K":
            size(sh, q, cfg, ctor, ci, sorted(set(range(1, b["max_n"] + 1)) | set(b["larger_n"])))
        elif part == "Y":
            ladder.walk(sh, q, cfg, ctor, ladder.MIDDLE if tier == "quick" else ladder.DEEP, "PTDLRES")
            if not cfg.quotes:
                ladder.huge(sh, q, cfg, ctor, "P")
        else:
            awkward(sh, q, cfg, ctor, ci, b["awkward_values_per_query"])
            classes(sh, q, cfg, ctor, ci)


def structure(sh, q, cfg, ctor, ci, depth):
    style = cfg.in_style
    kind = cfg.kind
    pool = {"named": ["a", "b", "A2"], "numeric": [1, 2, 3], "ordinal": [0]}[kind]
    if style == "named_oracle":
        pool = ["a", '"a"', "b"]
    for n in range(depth + 1):
        for pat in itertools.product(pool, repeat=n):
            if pat:
                sh.transitions += 1
            keys = list(range(n)) if kind == ORDINAL else list(dict.fromkeys(pat))
            sql = build(style, pat)
            segs = cfg.scan(sql)
            assert sum(1 for s in segs if s[0] == "P") == n, (sql, segs)
            for shapes in itertools.product(SHAPES, repeat=len(keys)):
                params = container(style, [(k, value(s, "p%s" % k)) for k, s in zip(keys, shapes)])
                sh.transitions += len(keys)
                check_format(sh, q, cfg, ctor, sql, segs, params)
                note(sh, cfg, ci, segs, params)
                if n > 3:
                    continue
                # Two rows; in the first, parameters of one shape share one object.
                by_shape = {s: value(s, "shared") for s in set(shapes)}
                rows = [container(style, [(k, by_shape[s]) for k, s in zip(keys, shapes)]), params]
                check_many(sh, q, cfg, ctor, sql, rows, what="first row with shared objects")
    sh.sample("%s->%s %r %r" % (ctor[0], ctor[1], sql, params))


def spelling(sh, q, cfg, ctor, ci, depth):
    style = cfg.in_style
    pool = NUMS if cfg.kind == NUMERIC else NAMES
    if style == "named_oracle":
        pool = [n for n in NAMES if n != "A"] + ['"a"', '"ab"']
    for n in range(1, depth + 1):
        for pat in [(w,) for w in dict.fromkeys(WORDS) if w not in pool] if n == 1 and cfg.kind == NAMED else []:
            sql = build(style, [pat[0], "a", pat[0]])
            other = WORDS[WORDS.index(pat[0]) - 1]
            for shape in (None, 2):
                params = container(style, [(pat[0], value(shape, "w")), ("a", V("a")), (other, V("unused"))])
                segs = one(sh, q, cfg, ctor, sql, 3, params)
                note(sh, cfg, ci, segs, params)
            check_many(sh, q, cfg, ctor, sql, [container(style, [(pat[0], value(shape, "%d" % r)), ("a", V("a"))]) for r in range(2)])
        for pat in itertools.permutations(pool, n):
            if cfg.kind == NUMERIC and len({int(k) for k in pat}) < len(pat):
                continue
            sh.transitions += 1
            full = pat + pat[:1]
            sql = build(style, full)
            for shape in (None, 2):
                params = container(style, [(k, value(shape if j == 0 else None, "p%s" % k)) for j, k in enumerate(pat)])
                segs = one(sh, q, cfg, ctor, sql, len(full), params)
                note(sh, cfg, ci, segs, params)


def size(sh, q, cfg, ctor, ci, sizes):
    style = cfg.in_style
    for n in sizes:
        sh.transitions += 1
        names = [str(k) for k in range(1, n + 1)] if cfg.kind == NUMERIC else ["n%d" % k for k in range(1, n + 1)]
        orders = [names, names[::-1], names + names[::-1], names[::2] + names[1::2]]
        if n > 130:
            orders = orders[2:3]    # the longest one
        if style == "named_oracle" and n > 300:
            continue                # its lookup takes time in the square of the size
        if cfg.kind == ORDINAL:
            orders = [names]
        for order in orders:
            params = container(style, [(k, V(k)) for k in names])
            segs = one(sh, q, cfg, ctor, build(style, order), len(order), params)
            note(sh, cfg, ci, segs, params)
        if cfg.kind != ORDINAL and n < 400:
            # Names and numbers of every length that differ in the last character only.
            pair = ["x" * n + "a", "x" * n + "b"] if cfg.kind == NAMED else ["1" * min(n, 18) + "1", "1" * min(n, 18) + "2"]
            params = container(style, [(k, V(k)) for k in pair])
            segs = one(sh, q, cfg, ctor, build(style, pair + pair[::-1]), 4, params)
            note(sh, cfg, ci, segs, params)
        if n <= 12 and cfg.expand:
            # A tuple in every place among n parameters.
            order = names if cfg.kind == ORDINAL else names + names[::-1]
            for place in range(n):
                params = container(style, [(k, tuple(vals(3, "t")) if at == place else V(k)) for at, k in enumerate(names)])
                segs = one(sh, q, cfg, ctor, build(style, order), len(order), params)
                note(sh, cfg, ci, segs, params)
        # One tuple of length n between two single values, twice.
        keys = ["1", "2", "3"] if cfg.kind == NUMERIC else ["a", "t", "b"]
        order = keys if cfg.kind == ORDINAL else keys + [keys[1], keys[0]]
        params = container(style, [(keys[0], V("a")), (keys[1], tuple(vals(n, "t"))), (keys[2], V("b"))])
        segs = one(sh, q, cfg, ctor, build(style, order), len(order), params)
        note(sh, cfg, ci, segs, params)


class Tup(tuple):
    pass


class Str(str):
    pass


def awkward_pool():
    return [None, 0, False, 0.0, "", b"", [], {}, set(), 1, True, 1.0, "a", "".join(["a"]), float("nan"),
            [1], {"a": 1}, ["x", ("y",)], Str("a"), bytearray(b"a"), range(2), frozenset(), object, len, ..., NotImplemented,
            10 ** 30, -1, "?", ":a", "%s", V("x")]


def awkward(sh, q, cfg, ctor, ci, depth):
    style = cfg.in_style
    pool = awkward_pool()
    keys = {"named": ["a", "b", "c"], "numeric": ["1", "2", "3"], "ordinal": ["0", "1", "2"]}[cfg.kind]
    for n in range(1, depth + 1):
        sql = build(style, keys[:n])
        for pat in itertools.product(pool, repeat=n):
            sh.transitions += 1
            params = container(style, list(zip(keys, pat)))
            segs = cfg.scan(sql)
            check_format(sh, q, cfg, ctor, sql, segs, params)
            note(sh, cfg, ci, segs, params)
            if cfg.expand and n > 1:
                params = container(style, [(keys[0], tuple(pat))])
                sql1 = build(style, keys[:1])
                check_format(sh, q, cfg, ctor, sql1, cfg.scan(sql1), params)


def classes(sh, q, cfg, ctor, ci):
    style = cfg.in_style
    keys = {"named": ["a", "b", "c"], "numeric": ["1", "2", "3"], "ordinal": ["0", "1", "2"]}[cfg.kind]
    sql = build(style, keys if cfg.kind == ORDINAL else [keys[0], keys[1], keys[0], keys[2]])
    segs = cfg.scan(sql)
    sql1 = build(style, keys[:1])
    segs1 = cfg.scan(sql1)
    row = lambda vs: container(style, list(zip(keys, vs)))
    for v in zoo.scalars() + zoo.tuples():
        x, y = V("x"), V("y")
        sh.state("class", ci, type(v).__name__)
        sh.nontrivial += 1
        for vs in ((v, x, y), (x, v, y), (x, y, v), (v, v, v), ((v, x), v, (x, v, v)), ([v], x, ((v,), v))):
            sh.transitions += 1
            check_format(sh, q, cfg, ctor, sql, segs, row(vs), what="a value of class %s" % type(v).__name__)
        check_format(sh, q, cfg, ctor, sql1, segs1, row([v]), what="a value of class %s" % type(v).__name__)
        if isinstance(v, tuple) and cfg.expand:
            check_many(sh, q, cfg, ctor, sql1, [row([v]), row([tuple(v)]), row([v])], what="a value of class %s" % type(v).__name__)
        else:
            check_many(sh, q, cfg, ctor, sql, [row([v, x, y]), row([x, v, v]), row([v, v, x])], what="a value of class %s" % type(v).__name__)
            check_many(sh, q, cfg, ctor, sql, [row([x, (v, x), y]), row([v, (x, v), v])], what="a value of class %s" % type(v).__name__)
