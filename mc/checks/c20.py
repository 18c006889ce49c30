"""C20: errors of the caller's containers surface unchanged and leave no damage.

A dry run counts the accesses (item, iteration step, length, membership, key comparison, row drawn) that a call makes to the caller's
containers; then the call is repeated once per access and class of exception with that access failing, and the very exception object
must come out. Afterwards the same containers, no longer failing, and plain ones must give the results they gave before, on the same
instance. Histories of two faults (thorough: all pairs of points) precede the final success. Rows must be drawn once each, in order.
 E  the enumeration above over containers, styles, values and call forms;
 R  instead of failing, each access in turn uses the very same instance for another conversion;
 N  the same many levels deep: the access of the inner conversion uses the instance again, and so on, on every level with values and a
    query of its own; the innermost one succeeds, or fails and every level passes the exception on.
"""
import collections
import itertools

from .. import compare, engine, model
from ..common import *

LEVEL = "fault_enumeration"
RULE = ("an evaluation is one call with one access failing (or re-entering), or a call made afterwards; states are distinct (query, containers, "
        "failing access, class of exception) per configuration; non-trivial: the fault was reached")
ASSUMPTIONS = ["StopIteration raised by a container is not a fault but the end of an iteration", "values other than tuples are never read (C11)"]


class Ctl:
    count = 0
    target = None
    exc = None
    hook = None
    log = None


def tick(what):
    Ctl.count += 1
    if Ctl.log is not None:
        Ctl.log.append(what)
    if Ctl.target == Ctl.count:
        if Ctl.hook is not None:
            hook, Ctl.hook = Ctl.hook, None
            hook()
            return
        raise Ctl.exc


class FMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        tick("getitem")
        return self.d[k]

    def __iter__(self):
        tick("iter")
        for k in self.d:
            tick("next")
            yield k

    def __len__(self):
        tick("len")
        return len(self.d)

    def __contains__(self, k):
        tick("contains")
        return k in self.d

    def get(self, k, default=None):
        tick("get")
        return self.d.get(k, default)


class FDict(dict):
    def __getitem__(self, k):
        tick("getitem")
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        tick("contains")
        return dict.__contains__(self, k)

    def get(self, k, default=None):
        tick("get")
        return dict.get(self, k, default)

    def __iter__(self):
        tick("iter")
        return dict.__iter__(self)

    def items(self):
        tick("items")
        return dict.items(self)

    def keys(self):
        tick("keys")
        return dict.keys(self)

    def values(self):
        tick("values")
        return dict.values(self)


class FSeq(collections.abc.Sequence):
    def __init__(self, s):
        self.s = list(s)

    def __getitem__(self, k):
        tick("getitem")
        return self.s[k]

    def __len__(self):
        tick("len")
        return len(self.s)

    def __iter__(self):
        tick("iter")
        for v in self.s:
            tick("next")
            yield v

    def __contains__(self, v):
        tick("contains")
        return v in self.s


class FList(list):
    def __getitem__(self, k):
        tick("getitem")
        return list.__getitem__(self, k)

    def __iter__(self):
        tick("iter")
        return list.__iter__(self)

    def __len__(self):
        tick("len")
        return list.__len__(self)


class FTuple(tuple):
    def __iter__(self):
        tick("tuple iter")
        return tuple.__iter__(self)

    def __len__(self):
        tick("tuple len")
        return tuple.__len__(self)

    def __getitem__(self, k):
        tick("tuple getitem")
        return tuple.__getitem__(self, k)


class FKey:
    """Another key in the way of looking up a name: its hash is the name's, it is compared, and unequal."""

    def __init__(self, name):
        self.h = hash(name)

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        if other is self:
            return True
        tick("key eq")
        return False


class FRows:
    """Rows that can be iterated again; remembers what was drawn."""

    def __init__(self, rows):
        self.rows = rows
        self.drawn = []

    def __iter__(self):
        tick("rows iter")
        return FIter(self)


class FIter:
    def __init__(self, owner):
        self.owner = owner
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        tick("rows next")
        if self.pos >= len(self.owner.rows):
            raise StopIteration
        self.owner.drawn.append(self.pos)
        self.pos += 1
        return self.owner.rows[self.pos - 1]


def generator(rows):
    for r in rows.rows:
        tick("generator")
        rows.drawn.append(len(rows.drawn))
        yield r
    tick("generator end")


def exceptions():
    return [type("Boom" + b.__name__, (b,), {}) for b in (Exception, KeyError, IndexError, TypeError, ValueError, AttributeError, RuntimeError, OSError,
                                                          NotImplementedError, UnicodeError, BaseException, ArithmeticError)] + [
        KeyError, IndexError, LookupError, TypeError, ValueError, AttributeError, Exception, AssertionError, KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError,
        RecursionError, TimeoutError, ConnectionError, EOFError, StopAsyncIteration, ZeroDivisionError, NameError, BufferError, Warning, ImportError]


# What Python and drivers say, so that code which tells errors apart by their text takes none of these for its own.
SAID = [(ValueError, "I/O operation on closed file."), (ValueError, "generator already executing"), (RuntimeError, "dictionary changed size during iteration"),
        (RuntimeError, "deque mutated during iteration"), (RuntimeError, "generator raised StopIteration"), (RuntimeError, "Set changed size during iteration"),
        (IndexError, "list index out of range"), (IndexError, "tuple index out of range"), (KeyError, 0), (KeyError, "a"), (KeyError, 1), (KeyError,), (IndexError,), (ValueError,), (TypeError,),
        (AttributeError, "'NoneType' object has no attribute 'get'"), (AttributeError, "'list' object has no attribute 'items'"), (TypeError, "'NoneType' object is not subscriptable"),
        (TypeError, "'X' object is not iterable"), (TypeError, "object of type 'X' has no len()"), (TypeError, "unhashable type: 'list'"), (ValueError, "empty"), (ValueError, "is empty."),
        (RecursionError, "maximum recursion depth exceeded"), (OSError, 2, "No such file or directory"), (OSError, 32, "Broken pipe"), (OSError, 4, "Interrupted system call"),
        (LookupError, "closed"), (Exception, "connection already closed"), (Exception, "no results to fetch"), (ValueError, "not enough values to unpack"), (RuntimeError, "Event loop is closed"),
        (UnicodeDecodeError, "latin1", b"a", 0, 1, "ordinal not in range"), (UnicodeEncodeError, "latin1", "\u20ac", 0, 1, "ordinal not in range(256)"),
        (TypeError, "__len__() should return >= 0"), (NotImplementedError, "len"), (TypeError, None), (ValueError, "x is missing"), (KeyError, "x is not in values")]
EXC = [(cls, "boom") for cls in exceptions()] + SAID


def bounds(tier):
    q = tier == "quick"
    return dict(fault_points="every access of the dry run", exception_classes=len(EXC), faults_per_history=2, fault_pairs="adjacent" if q else "all",
                rows=3, pairs=81,
                nesting=DEPTHS if q else DEPTHS + MORE_DEPTHS)


def items(tier):
    return [(i, o, part) for i, o in PAIRS for part in "ERN"]


def text(style, keys):
    return "SELECT " + ", ".join(spell(style, k) for k in keys) + " END"


def queries(style):
    kind = KIND[style]
    n = {NAMED: "ab", NUMERIC: "12", ORDINAL: "01"}[kind]
    return [text(style, n)] + ([text(style, n[1] + n[0] + n[1])] if kind != ORDINAL else [])


VALUES = {r: (V("r%ds" % r), FTuple((V("r%dt0" % r), V("r%dt1" % r)))) for r in range(4)}


def plain(kind, r):
    a, t = VALUES[r]
    return {"a": a, "b": t} if kind == NAMED else [a, t]


def wrapped(style, r):
    """Containers for row r: (name, builder)."""
    kind = KIND[style]
    a, t = VALUES[r]
    if kind == NAMED:
        out = [("FMap", lambda: FMap({"a": a, "b": t})), ("FDict", lambda: FDict({"a": a, "b": t})), ("FMap2", lambda: FMap({"zz": 1, "b": t, "a": a})),
               ("plain", lambda: {"a": a, "b": t})]
        if style != "named_oracle":
            out.append(("FKey", lambda: {FKey("a"): 1, FKey("b"): 2, "a": a, "b": t}))
        return out
    s = 1 if kind == NUMERIC else 0
    return [("FSeq", lambda: FSeq([a, t])), ("FList", lambda: FList([a, t])), ("FMap", lambda: FMap({s: a, s + 1: t})),
            ("FMap2", lambda: FMap({"x": 1, str(s + 1): t, str(s): a})), ("FDict", lambda: FDict({s: a, s + 1: t})), ("plain", lambda: [a, t])]


def calls(style):
    """(name, method, builder of the argument, plain argument, rows wrapper or None)"""
    kind = KIND[style]
    for name, mk in wrapped(style, 0):
        yield name, "format", (lambda mk=mk: (mk(), None)), plain(kind, 0), 1
    for n in (1, 3):
        rows = [plain(kind, r) for r in range(n)]

        def frows(rows=rows):
            f = FRows(rows)
            return f, f

        def gen(rows=rows):
            f = FRows(rows)
            return generator(f), f
        yield "rows", "formatmany", frows, rows, n
        yield "generator", "formatmany", gen, rows, n
    for name, _ in wrapped(style, 0):
        def both(name=name):
            rows = [dict(wrapped(style, r))[name]() for r in range(2)]
            f = FRows(rows)
            return f, f
        yield "rows of " + name, "formatmany", both, [plain(kind, r) for r in range(2)], 2

        def drawn(name=name):
            rows = [dict(wrapped(style, r))[name]() for r in range(2)]
            rows = FRows(rows + [plain(kind, 2)])
            return generator(rows), rows
        yield "generator of " + name, "formatmany", drawn, [plain(kind, r) for r in range(3)], 3


def call(q, method, sql, arg):
    try:
        return "ok", getattr(q, method)(sql, arg)
    except engine.Hang:
        raise
    except BaseException as e:
        return "err", e


def same(method, a, b):
    if a[0] != "ok" or b[0] != "ok" or a[1][0] != b[1][0]:
        return False
    if method == "format":
        return compare.same_values(a[1][1], b[1][1])
    return type(b[1][1]) is list and len(a[1][1]) == len(b[1][1]) and all(compare.same_values(x, y) for x, y in zip(a[1][1], b[1][1]))


def arm(target=None, exc=None, hook=None, log=None):
    Ctl.count, Ctl.target, Ctl.exc, Ctl.hook, Ctl.log = 0, target, exc, hook, log


DEPTHS = [2, 3, 5, 9]
MORE_DEPTHS = [4, 8, 17, 33]


def nest(sh, q, cfg, ctor, ci, depths):
    style = cfg.in_style
    kind = cfg.kind
    level_sql = [(queries(style) * 2)[n % 2] for n in range(max(depths))]
    forms = [(name, "format") for name, _ in wrapped(style, 0) if name != "plain"] + [("rows", "formatmany"), ("generator", "formatmany")]
    for name, method in forms:
        def build(r):
            if method == "format":
                return dict(wrapped(style, r))[name]()
            f = FRows([plain(kind, r), plain(kind, (r + 1) % 4)])
            return f if name == "rows" else generator(f)
        arm()
        call(q, method, level_sql[0], build(0))
        points = Ctl.count
        for depth in depths:
            for k in range(1, points + 1):
                for boom in (None, KeyError("boom")):
                    got = [None] * depth

                    def go(level):
                        arm()
                        arg = build(level % 4)
                        if level == depth - 1:
                            arm(k if boom else None, boom)
                        else:
                            arm(k, hook=lambda: go(level + 1))
                        got[level] = call(q, method, level_sql[level], arg)
                        if level:
                            arm()
                            if boom and got[level][0] == "err":
                                raise got[level][1]
                    go(0)
                    arm()
                    sh.traces += depth
                    sh.transitions += depth
                    sh.nontrivial += 1
                    sh.state(ci, "nest", name, depth, k, boom is None)
                    reached = sum(g is not None for g in got)
                    for level in range(reached):
                        arg = plain(kind, level % 4) if method == "format" else [plain(kind, level % 4), plain(kind, (level + 1) % 4)]
                        g = got[level]
                        if boom and reached == depth and got[-1][0] == "err":
                            good = g[0] == "err" and g[1] is boom
                        else:
                            good = g[0] == "ok" and _allowed(cfg, method, level_sql[level], arg, g[1])
                        if not good:
                            sh.violation("%s of %s used by access %d of itself, %d levels deep: wrong on level %d: %s->%s" % (method, name, k, depth, level, ctor[0], ctor[1]),
                                         ctor=ctor, sql=level_sql[level], params=arg, observed=show(g), script=_script(ctor, method, level_sql[level], "nested use"))
                            break
                    sh.outcome("nested")
    sh.sample("%s->%s %s of %s, %d levels" % (ctor[0], ctor[1], method, name, depth))


def run(item, sh, tier):
    i, o, part = item
    for ex in (False, True):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            if part == "N":
                nest(sh, q, cfg, ctor, (ex, qu), DEPTHS if tier == "quick" else DEPTHS + MORE_DEPTHS)
                continue
            for sql in queries(i):
                for name, method, mk, plain_arg, n in calls(i):
                    ci = (ex, qu, sql, name, method, n)
                    arm()
                    base = call(q, method, sql, plain_arg)
                    want = model.convert(cfg, sql, plain_arg) if method == "format" else model.convert_many(cfg, sql, plain_arg)
                    sh.traces += 1
                    if base[0] != "ok" or base[1] != want:      # V objects are equal to everything; identities are C01's business
                        if base[0] != "ok" or not _allowed(cfg, method, sql, plain_arg, base[1]):
                            sh.violation("plain containers: wrong result", ctor=ctor, sql=sql, params=plain_arg, observed=show(base), expected=want)
                            continue
                    arg, rows = mk()
                    log = []
                    arm(log=log)
                    dry = call(q, method, sql, arg)
                    points = Ctl.count
                    arm()
                    sh.traces += 1
                    sh.maximum("max_accesses", points)
                    if not same(method, base, dry):
                        sh.violation("another result with working containers of another class (%s)" % name, ctor=ctor, sql=sql, observed=show(dry), expected=show(base))
                        continue
                    if rows is not None and rows.drawn != list(range(n)):
                        sh.violation("rows drawn %r instead of once each in order" % rows.drawn, ctor=ctor, sql=sql, container=name,
                                     script=_script(ctor, method, sql, "rows drawn once"))
                    (faults if part == "E" else reenter)(sh, q, cfg, ctor, ci, sql, name, method, mk, plain_arg, base, points, log, tier, n)
    if part != "N":
        sh.sample("%s->%s %s of %s: accesses %r" % (i, o, method, name, log[:20]))


def _allowed(cfg, method, sql, arg, got):
    segs = cfg.scan(sql)
    if method == "format":
        return compare.allowed(cfg, model.plan(cfg, segs, arg)[0], got)
    return all(compare.allowed(cfg, model.plan(cfg, segs, r)[0], (got[0], x)) for r, x in zip(arg, got[1]))


def _script(ctor, method, sql, expected):
    return "# %s on SQLParams(%r, %r, **%r), query %r: %s\n" % (method, ctor[0], ctor[1], ctor[2], sql, expected)


def faults(sh, q, cfg, ctor, ci, sql, name, method, mk, plain_arg, base, points, log, tier, n):
    for k in range(1, points + 1):
        for e, (cls, *said) in enumerate(EXC):
            arg, rows = mk()
            exc = cls(*said)
            arm(k, exc)
            got = call(q, method, sql, arg)
            reached = Ctl.count >= k
            arm()
            sh.traces += 1
            sh.transitions += 1
            sh.state(ci, k, e)
            sh.nontrivial += reached
            if not reached:
                sh.outcome("not reached")
                continue
            if got[0] == "ok" and log[k - 1] in ("len", "tuple len") and issubclass(cls, TypeError):
                # list(x) asks for len(x) as a hint and takes a TypeError for "no hint": Python's doing, nothing is lost.
                sh.outcome("length hint")
                continue
            if got[0] == "ok" or got[1] is not exc:
                sh.violation("%s of %s: error in access %d (%s) does not reach the caller: %s->%s" % (method, name, k, log[k - 1], ctor[0], ctor[1]), ctor=ctor,
                             sql=sql, accesses=log, exception=cls.__mro__[1].__name__, observed=show(got),
                             script=_script(ctor, method, sql, "%s raised by access %d (%s) of %s must propagate" % (cls.__mro__[1].__name__, k, log[k - 1], name)))
                sh.outcome("swallowed")
                continue
            sh.outcome("propagates " + cls.__mro__[1].__name__)
            if rows is not None and rows.drawn != list(range(len(rows.drawn))):
                sh.violation("rows drawn %r, not in order" % rows.drawn, ctor=ctor, sql=sql)
            if name.startswith("generator of") and not log[k - 1].startswith("generator"):
                # The caller's iterator is in working order: the rows that were not drawn are still there.
                for _ in arg:
                    pass
                if rows.drawn != list(range(n)):
                    sh.violation("the iterator of the rows does not work after an error in access %d (%s): %s->%s" % (k, log[k - 1], ctor[0], ctor[1]), ctor=ctor, sql=sql,
                                 accesses=log, exception=cls.__name__, observed=rows.drawn)
            if e % 4:
                continue
            # The second fault of the history hits the same containers.
            seconds = range(1, points + 1) if tier != "quick" else (k,)
            for k2 in seconds:
                if name.startswith("generator"):
                    arg, rows = mk()
                if rows is not None:
                    rows.drawn.clear()
                exc = cls("again")
                arm(k2, exc)
                got = call(q, method, sql, arg)
                reached = Ctl.count >= k2
                arm()
                sh.traces += 1
                if got[0] == "ok" and k2 <= len(log) and log[k2 - 1] in ("len", "tuple len") and issubclass(cls, TypeError):
                    continue
                if reached and (got[0] == "ok" or got[1] is not exc):
                    sh.violation("second fault does not reach the caller", ctor=ctor, sql=sql, container=name, observed=show(got))
            if name.startswith("generator"):
                arg, rows = mk()
            if rows is not None:
                rows.drawn.clear()
            for what, a in (("the containers that failed", arg), ("plain containers", plain_arg)):
                got = call(q, method, sql, a)
                sh.traces += 1
                if not same(method, base, got):
                    sh.violation("after an error, %s give another result: %s->%s" % (what, ctor[0], ctor[1]), ctor=ctor, sql=sql, container=name, access=k,
                                 expected=show(base), observed=show(got), script=_script(ctor, method, sql, "the result after a fault equals the one before"))
            if rows is not None and rows.drawn != list(range(n)):
                sh.violation("after an error, rows drawn %r" % rows.drawn, ctor=ctor, sql=sql)


def reenter(sh, q, cfg, ctor, ci, sql, name, method, mk, plain_arg, base, points, log, tier, n):
    kind = cfg.kind
    other = [("format", queries(cfg.in_style)[-1], plain(kind, 3)), ("formatmany", queries(cfg.in_style)[0], [plain(kind, 2), plain(kind, 3)]),
             ("format", sql, {} if kind == NAMED else [])]
    for t, (m2, sql2, arg2) in enumerate(other):
        arm()
        base2 = call(q, m2, sql2, arg2)
        for k in range(1, points + 1):
            arg, rows = mk()
            inner = []
            arm(k, hook=lambda: inner.append(call(q, m2, sql2, arg2)))
            got = call(q, method, sql, arg)
            arm()
            sh.traces += 1
            sh.transitions += 1
            sh.state(ci, "r", k, t)
            sh.nontrivial += 1
            ok = same(method, base, got)
            if inner:
                ok = ok and (same(m2, base2, inner[0]) if base2[0] == "ok" else inner[0][0] == "err" and type(inner[0][1]) is type(base2[1]))
            if not ok:
                sh.violation("using the instance while access %d (%s) of %s runs changes a result: %s->%s" % (k, log[k - 1], name, ctor[0], ctor[1]), ctor=ctor,
                             sql=sql, inner_call=(m2, sql2), expected=show(base), observed=show(got), inner=[show(x) for x in inner],
                             script=_script(ctor, method, sql, "re-entrant use"))
            sh.outcome("re-entered %d" % len(inner))
