"""C11: values never influence or leak into the query text.

 H  hostile values: objects of which every special method and attribute (but __class__, which isinstance may ask for) raises and is
    recorded, alone, in tuples, in tuple subclasses, in nested tuples, for every slot pattern and shape assignment;
 T  text values: all strings up to a length over an alphabet of quotes, parameter syntax, percent signs, braces and backslashes, and
    all tokens of C02, in every position; the returned query must be the one for opaque values of the same shape;
 K  values of many kinds against each other: the query depends on the shape only; functions, classes and iterators are neither called nor advanced.
Each through format and formatmany.
 S  every place in SQL (mc/sqlctx.py) with values that code which knows SQL would treat specially there.
"""
import collections
import collections.abc
import datetime
import decimal
import functools
import itertools
import types
import uuid
import weakref

from .. import compare, ladder, model, sqlctx, zoo as classes
from ..common import *
from ..texts import strings
from .c05 import zoo
from .c02 import tokens

LEVEL = "model_checking"
RULE = ("a trace is one query with one assignment of values run through the real format()/formatmany(); states are distinct "
        "(configuration, pattern, shape, value kind); non-trivial: a value that would betray being looked at, or contains syntax")
ASSUMPTIONS = ["calls that raise may show a value in their message: only successful calls are judged"]
SHAPES = (None, 0, 1, 2, "sub", "nested")


class Touched(Exception):
    pass


LOG = []
DUNDERS = """__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __bool__ __len__ __length_hint__ __iter__ __next__ __reversed__ __getitem__
__setitem__ __delitem__ __contains__ __missing__ __str__ __repr__ __bytes__ __format__ __int__ __float__ __complex__ __index__ __round__
__trunc__ __floor__ __ceil__ __call__ __copy__ __deepcopy__ __reduce__ __reduce_ex__ __getstate__ __setstate__ __getnewargs__
__sizeof__ __dir__ __enter__ __exit__ __await__ __aiter__ __anext__ __add__ __radd__ __iadd__ __sub__ __rsub__ __mul__ __rmul__
__imul__ __truediv__ __rtruediv__ __floordiv__ __mod__ __rmod__ __imod__ __divmod__ __pow__ __lshift__ __rshift__ __and__ __rand__
__or__ __ror__ __xor__ __neg__ __pos__ __abs__ __invert__ __matmul__ __get__ __set__ __delete__ __fspath__ __buffer__
__setattr__ __delattr__ __conform__ keys items values""".split()


# What isinstance, issubclass and the dispatch of functools look at.
CLASS_TEST = {"__class__", "__mro__", "__bases__", "__subclasshook__", "__instancecheck__", "__subclasscheck__", "__abstractmethods__", "__dict__", "__weakref__", "__flags__",
              "__orig_class__", "mro"}


class Meta(type):
    """The class of a value does not like to be asked for anything either, hooks and names included."""

    def __getattribute__(cls, n):
        if n in CLASS_TEST or not Armed.on:
            return type.__getattribute__(cls, n)
        LOG.append("getattr of the class: " + n)
        raise AttributeError(n)

    def __call__(cls, *a, **k):
        if Armed.on:
            LOG.append("class called")
        return type.__call__(cls, *a, **k)


def called(*a, **k):
    LOG.append("called")


def function():
    def f(*a, **k):
        called()
    return f


def closure():
    return lambda: called()


def method():
    return types.MethodType(called, 1)


def partial():
    return functools.partial(called, 1)


def cached():
    return functools.lru_cache(called)


def coroutine():
    async def f(*a):
        called()
    return f


def generator_function():
    def f(*a):
        called()
        yield
    f()
    return f


def class_():
    class Model:
        def __new__(cls, *a):
            called()
    return Model


def metaclass_hooked():
    return Meta("Table", (), {})


def generator():
    return (k for k in range(2))


def list_iterator():
    return iter([1, 2])


def mapped():
    return map(str, (1, 2))


def descriptor():
    return property(called)


def reference():
    return weakref.ref(called)


def static():
    return staticmethod(called)


CALLABLES = [function, closure, method, partial, cached, coroutine, generator_function, class_, metaclass_hooked, generator, list_iterator, mapped, descriptor, reference, static]


class Armed:
    on = False


def _hostile(name, base, keep=()):
    d = {}
    for n in DUNDERS:
        if n in keep:
            continue

        def f(self, *a, _n=n, **k):
            LOG.append(_n)
            raise Touched(_n)
        d[n] = f

    def ga(self, n):
        if n == "__class__" or n in keep:
            return object.__getattribute__(self, n)
        LOG.append("getattr " + n)
        raise Touched(n)
    d["__getattribute__"] = ga
    d["__slots__"] = ()
    return Meta(name, (base,), d)


Hostile = _hostile("Hostile", object)
HostileTuple = _hostile("HostileTuple", tuple, ("__len__", "__iter__", "__getitem__", "__bool__", "__new__", "count", "index", "__length_hint__"))
HostileStr = _hostile("HostileStr", str)
HostileInt = _hostile("HostileInt", int)


def bounds(tier):
    q = tier == "quick"
    return dict(slots=3 if q else 4, shapes=[str(s) for s in SHAPES], text_length=3 if q else 4, text_alphabet=ALPH, places=len(sqlctx.PLACES), pairs=81, sizes=ladder.MIDDLE if q else ladder.FINE)


ALPH = "'?:%s\\{1"


def items(tier):
    return [(i, o, part) for i, o in PAIRS for part in "HTKYS"]


def hostile(shape, k):
    mk = (Hostile, HostileStr, HostileInt)[k % 3]
    if shape is None:
        return mk()
    if shape == "sub":
        return HostileTuple((mk(), Hostile()))
    if shape == "nested":
        return ((), (mk(), (Hostile(),)), HostileTuple((mk(),)))
    return tuple(mk() for _ in range(shape))


def patterns(style, n):
    kind = KIND[style]
    if kind == ORDINAL:
        return [tuple(range(n))]
    pool = "abc" if kind == NAMED else "123"
    return list(itertools.product(pool[:n], repeat=n))


def cont(style, d):
    kind = KIND[style]
    if kind == NAMED:
        return dict(d)
    if kind == NUMERIC:
        return [d.get(str(k + 1)) for k in range(max(map(int, d)))]
    return list(d.values())


def run(item, sh, tier):
    i, o, part = item
    b = bounds(tier)
    for ex in (False, True):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, ctor = Cfg(i, o, **opts), (i, o, opts)
            q = make(i, o, **opts)
            globals()["part_" + part](sh, q, cfg, ctor, (ex, qu), b)


def part_H(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    for n in range(1, b["slots"] + 1):
        for pat in patterns(style, n):
            keys = list(dict.fromkeys(pat))
            sql = "SELECT " + ", ".join(spell(style, k) for k in pat) + " END"
            segs = cfg.scan(sql)
            for shapes in itertools.product(SHAPES if len(keys) < 3 else (None, 2), repeat=len(keys)):
                sh.transitions += 1
                d = {k: hostile(s, j) for j, (k, s) in enumerate(zip(keys, shapes))}
                params = cont(style, d)
                del LOG[:]
                judge(sh, q, cfg, ctor, sql, segs, "format", params, [params])
                d2 = {k: hostile(s, j + 1) for j, (k, s) in enumerate(zip(keys, shapes))}
                rows = [params, cont(style, d2)]
                judge(sh, q, cfg, ctor, sql, segs, "formatmany", rows, rows)
                sh.state(ci, pat, shapes)
                sh.nontrivial += 1
    sh.sample("%s->%s %r with hostile values shaped %r" % (cfg.in_style, cfg.out_style, sql, shapes))


def part_Y(sh, q, cfg, ctor, ci, b):
    """Hostile values at every size of the ladder."""
    style = cfg.in_style

    def hv(shape, label):
        if isinstance(shape, tuple):
            x, y = Hostile(), HostileInt()
            return {"same": (x,) * shape[1], "mixed": (x, y) * (shape[1] // 2), "none": (None,) * shape[1], "last": (x,) * (shape[1] - 1) + (y,)}[shape[0]]
        return Hostile() if shape is None else tuple((Hostile, HostileStr)[k % 2]() for k in range(shape))
    for case in ladder.cases(style, b["sizes"], cfg.expand, "PTDL"):
        segs = cfg.scan(case.sql)
        rows = [case.params(style, value=hv), case.params(style, value=hv)]
        sh.transitions += 1
        sh.state(ci, case.tag)
        sh.nontrivial += 1
        judge(sh, q, cfg, ctor, case.sql, segs, "format", rows[0], rows[:1])
        judge(sh, q, cfg, ctor, case.sql, segs, "formatmany", rows, rows)
    sh.sample("%s->%s hostile values, %s" % (cfg.in_style, cfg.out_style, case.tag))


def judge(sh, q, cfg, ctor, sql, segs, method, args, rows):
    sh.traces += 1
    call = getattr(q, method)
    Armed.on = True
    try:
        got = attempt(call, sql, args)
    finally:
        Armed.on = False
    touched = list(LOG)
    del LOG[:]
    if got[0] == "ok" and not touched:
        outs = [got[1][1]] if method == "format" else got[1][1]
        if len(outs) == len(rows) and all(compare.allowed(cfg, model.plan(cfg, segs, r)[0], (got[1][0], x)) for r, x in zip(rows, outs)):
            sh.outcome("untouched")
            return
    sh.violation("%s->%s %s of values that must not be looked at: %s" % (ctor[0], ctor[1], method, touched[0] if touched else
                 type(got[1]).__name__ if got[0] == "err" else "wrong result"), ctor=ctor, sql=sql, touched=touched[:5],
                 observed=show(got))


def part_T(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    keys = {NAMED: ["a", "b"], NUMERIC: ["1", "2"], ORDINAL: ["0", "1"]}[cfg.kind]
    sql = "SELECT " + ", ".join(spell(style, k) for k in keys) + " END"
    segs = cfg.scan(sql)
    base = {}
    for shape in (None, 1):
        v = V("x") if shape is None else (V("x"),)
        base[shape] = attempt(q.format, sql, cont(style, dict(zip(keys, [v, V("y")]))))
    texts = [s for n in range(1, b["text_length"] + 1) for s in strings(ALPH, n)]
    texts += tokens(style) + tokens(cfg.out_style) + ["-- x", "/* x */", "(NULL)", "NULL", "; DROP TABLE t", "__0_sqlp", "a", "b", "1", "2"]
    for s in texts:
        sh.transitions += 1
        for shape in (None, 1):
            v = s if shape is None else (s,)
            params = cont(style, dict(zip(keys, [v, s])))
            for method, args in (("format", params), ("formatmany", [params])):
                if method == "formatmany" and len(s) == b["text_length"]:
                    continue
                got = attempt(getattr(q, method), sql, args)
                sh.traces += 1
                if got[0] == "ok":
                    out = got[1][1] if method == "format" else got[1][1][0]
                if got[0] != "ok" or got[1][0] != base[shape][1][0] or \
                        not compare.allowed(cfg, model.plan(cfg, segs, params)[0], (got[1][0], out)):
                    sh.violation("%s->%s the query depends on a text value" % ctor[:2], ctor=ctor, sql=sql, params=params,
                                 expected=base[shape][1], observed=show(got), script=script(ctor, "format", sql, params, base[shape][1][0]))
        sh.state(ci, s)
        sh.nontrivial += 1
    sh.outcome("same query")
    sh.sample("%s->%s %r with text values such as %r" % (cfg.in_style, cfg.out_style, sql, texts[-30:-25]))


def part_S(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    key = {NAMED: "a", NUMERIC: "1", ORDINAL: "0"}[cfg.kind]
    p = spell(style, key)
    singles = [None, True, False, 0, 1, -1, 1.5, float("nan"), float("inf"), "", "x", "NULL", "DEFAULT", "it's", "a%b", "1 OR 1=1", "*", "ASC", b"", b"x", [], [1, 2], {}, {"a": 1}, {1}, range(2), Ellipsis,
               decimal.Decimal(1), datetime.date(2000, 1, 1), datetime.timedelta(1), uuid.UUID(int=1), int, Hostile(), HostileStr(), HostileInt()]
    tuples = [()] + [(v,) for v in singles[:12]] + [(v, w) for v in (None, 0, "", "x", True) for w in (None, 1, "", "x")]
    for a, z in sqlctx.PLACES:
        sql = a + p + z
        segs = cfg.scan(sql)
        n = sum(s[0] == "P" for s in segs)
        if not n or not sqlctx.only(segs, (key,), cfg.kind == ORDINAL):
            continue
        base = {}
        for v in [V("single")] + singles + [tuple(map(V, range(k))) for k in range(3)] + tuples:
            params = cont(style, {key: v}) if cfg.kind != ORDINAL else [v] * n
            shape = len(v) if cfg.expand and isinstance(v, tuple) else None
            for method, arg in (("format", params), ("formatmany", [params])):
                got = attempt(getattr(q, method), sql, arg)
                sh.traces += 1
                sh.transitions += 1
                text = got[1][0] if got[0] == "ok" else show(got)
                if got[0] != "ok" or base.setdefault(shape, text) != text:
                    sh.violation("%s->%s the query depends on a value and its place" % ctor[:2], ctor=ctor, sql=sql, params=params,
                                 expected=base.get(shape), observed=show(got), script=script(ctor, method, sql, arg, base.get(shape)))
        sh.state(ci, "place", sql)
        sh.nontrivial += 1
    sh.outcome("same query")
    sh.sample("%s->%s %r with values of all kinds" % (cfg.in_style, cfg.out_style, sql))
    del LOG[:]


def part_K(sh, q, cfg, ctor, ci, b):
    style = cfg.in_style
    keys = {NAMED: ["a", "b"], NUMERIC: ["1", "2"], ORDINAL: ["0", "1"]}[cfg.kind]
    order = keys if cfg.kind == ORDINAL else [keys[1], keys[0], keys[1]]
    sql = "SELECT " + ", ".join(spell(style, k) for k in order) + " END"
    by_shape = {}
    pool = zoo() + [float("nan"), 10 ** 40, Hostile(), HostileStr(), -1, True, 3 + 4j]
    more = classes.scalars() + classes.tuples()
    pairs = list(itertools.product(pool, repeat=2)) + [(v, w) for x in more for v, w in ((x, x), (x, None), (None, x))]
    for v, w in pairs:
        params = cont(style, dict(zip(keys, [v, w])))
        shape = tuple(len(x) if cfg.expand and isinstance(x, tuple) else None for x in (v, w))
        got = attempt(q.format, sql, params)
        sh.traces += 1
        sh.transitions += 1
        text = got[1][0] if got[0] == "ok" else show(got)
        if by_shape.setdefault(shape, text) != text or got[0] != "ok":
            sh.violation("%s->%s the query depends on more than the shape" % ctor[:2], ctor=ctor, sql=sql, params=params,
                         expected=by_shape[shape], observed=show(got))
        sh.state(ci, shape, type(v).__name__, type(w).__name__)
    segs = cfg.scan(sql)
    for mk in CALLABLES:
        for wrap in (lambda v: v, lambda v: (v,), lambda v: (V("w"), v, v)):
            v = mk()
            params = cont(style, dict(zip(keys, [wrap(v), v])))
            del LOG[:]
            judge(sh, q, cfg, ctor, sql, segs, "format", params, [params])
            judge(sh, q, cfg, ctor, sql, segs, "formatmany", [params, params], [params, params])
            if isinstance(v, collections.abc.Iterator) and sum(1 for _ in v) != 2:
                sh.violation("%s->%s an iterator was advanced" % ctor[:2], ctor=ctor, sql=sql, params=params)
            sh.state(ci, "callable", mk.__name__, wrap(0))
    sh.nontrivial += len(by_shape)
    sh.outcome("shapes=%d" % len(by_shape))
    del LOG[:]
