"""C21: nothing of a call is kept once its results are dropped.

All sequences up to a depth of calls (format, formatmany; successful, failing in the library, failing in the caller's containers, nested,
abandoned) on instances of several configurations, for all 81 pairs of styles. Every value, container, row and iterable of a call can be
weakly referenced; after each call its results are dropped, the reference cycles collected, and none of them may be alive. The same after
runs of n similar calls for n on a ladder (a cache that keeps the last n).
 V  values and containers that cannot be weakly referenced (text, numbers, plain dicts, lists and tuples): their reference counts;
 H  histories;  L  runs;  R  results kept: the containers they were made from must be free, the values they hold alive.
"""
import collections
import gc
import itertools
import sys
import weakref

from .. import model, repo
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one call of the real format()/formatmany() after which the weak references to everything the caller passed are read; "
        "states are distinct histories per configuration; non-trivial: at least two calls, or a call that fails")
ASSUMPTIONS = ["objects are freed by reference counting or by one run of the cycle collector", "what a raised exception refers to is the exception's, which the caller drops"]


class W:
    """A value that can be weakly referenced."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return "W(%s)" % self.label


class Tup(tuple):
    pass


class WDict(dict):
    pass


class WList(list):
    pass


class WMap(collections.abc.Mapping):
    def __init__(self, d, fail=None, hook=None):
        self.d, self.fail, self.hook = d, fail, hook

    def __getitem__(self, k):
        if self.fail:
            raise self.fail("boom")
        if self.hook:
            self.hook()
        return self.d[k]

    def __iter__(self):
        if self.fail:
            raise self.fail("boom")
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class WSeq(collections.abc.Sequence):
    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, n):
        return self.xs[n]

    def __len__(self):
        return len(self.xs)


def bounds(tier):
    q = tier == "quick"
    return dict(depth=3 if q else 4, operations=len(OPS), pairs=81, runs=RUNS if q else RUNS + [1000, 1001, 1024, 1025, 5000])


RUNS = [2, 3, 5, 9, 17, 33, 65, 101, 129, 257]


def items(tier):
    return [(i, o, part) for i, o in PAIRS for part in "HLRV"]


class World:
    def __init__(self, i, o, pkg):
        self.i, self.o = i, o
        self.kind = KIND[i]
        self.refs = []
        expand = dict(expand_tuples=True)
        self.a = pkg.SQLParams(i, o, **expand)
        self.b = pkg.SQLParams(i, o, escape_char=True, strip_comments=True, **expand)
        self.c = pkg.SQLParams(i, o, expand_tuples=False)
        x, y = {NAMED: "ab", NUMERIC: "12", ORDINAL: "01"}[self.kind]
        sx, sy = spell(i, x), spell(i, y)
        self.q1 = "SELECT %s , %s" % (sx, sy) + ("" if self.kind == ORDINAL else " , %s" % sx)
        self.q2 = "-- c\nSELECT %s - %s" % (sy, sx)
        self.n = 0

    def watch(self, x, what):
        self.refs.append((weakref.ref(x), what))
        return x

    def value(self, shape=None):
        self.n += 1
        if shape is None:
            return self.watch(W(self.n), "a value")
        t = Tup(self.watch(W("%d.%d" % (self.n, k)), "an element of a tuple") for k in range(shape))
        return t    # tuples cannot be weakly referenced; their elements can

    def row(self, x=None, y=None, cls=0, short=False):
        vs = [self.value(x), self.value(y)][:1 if short else 2]
        if self.kind == NAMED:
            d = dict(zip("ab", vs))
            r = WDict(d) if cls == 0 else WMap(d)
        elif cls == 2:
            r = WMap({k + (self.kind == NUMERIC): v for k, v in enumerate(vs)})
        else:
            r = WList(vs) if cls == 0 else WSeq(vs)
        return self.watch(r, "a parameter container")

    def alive(self):
        """What is still alive of what was passed."""
        left = [what for r, what in self.refs if r() is not None]
        if left:
            gc.collect()
            left = [what for r, what in self.refs if r() is not None]
        self.refs = []
        return left


def call(q, method, *args):
    try:
        return getattr(q, method)(*args)
    except BaseException as e:
        return None


def op_format(w):
    call(w.a, "format", w.q1, w.row())


def op_tuple(w):
    call(w.a, "format", w.q1, w.row(2, None, 1))


def op_empty(w):
    call(w.a, "format", w.q1, w.row(0, 1, 2))


def op_comments(w):
    call(w.b, "format", w.q2, w.row(None, 2))


def op_plain(w):
    call(w.c, "format", w.q1, w.row(2, None, 1))


def op_bytes(w):
    call(w.a, "format", w.q1.encode(), w.row())


def op_many(w):
    call(w.a, "formatmany", w.q1, w.watch(WList([w.row(), w.row(None, None, 1), w.row(None, None, 2)]), "a list of rows"))


def op_many_tuples(w):
    call(w.b, "formatmany", w.q1, w.watch(WList([w.row(2, 0), w.row(2, 0, 1)]), "a list of rows"))


def op_generator(w):
    g = (w.row(None, 1, n % 3) for n in range(4))
    call(w.a, "formatmany", w.q1, w.watch(g, "a generator of rows"))


def op_missing(w):
    call(w.a, "format", w.q1, w.row(short=True))


def op_wrong_type(w):
    call(w.a, "format", w.q1, w.watch(W("params"), "a wrong container"))


def op_wrong_query(w):
    call(w.a, "format", w.watch(W("query"), "a wrong query"), w.row())


def op_wrong_rows(w):
    call(w.a, "formatmany", w.q1, w.watch(WList([w.row(), w.watch(W("row"), "a wrong row")]), "a list of rows"))
    call(w.a, "formatmany", w.q1, w.watch(W("rows"), "wrong rows"))


def op_wrong_length(w):
    call(w.a, "formatmany", w.q1, w.watch(WList([w.row(2), w.row(3)]), "a list of rows"))
    call(w.a, "formatmany", w.q1, w.watch(WList([w.row(2), w.row()]), "a list of rows"))


def op_missing_later(w):
    call(w.b, "formatmany", w.q1, iter([w.row(2), w.row(2, short=True)]))


def op_fault(w):
    for fail in (KeyError, ValueError, KeyboardInterrupt):
        call(w.a, "format", w.q1, w.watch(WMap({}, fail), "a failing container"))


def op_rows_fault(w):
    def gen():
        yield w.row()
        yield w.row()
        raise OSError("boom")
    call(w.a, "formatmany", w.q1, w.watch(gen(), "a failing generator"))


class Boom(ValueError):
    """An exception of the caller that refers to the caller's objects."""


class BoomKey(KeyError):
    pass


class Boomed(collections.abc.Mapping):
    def __init__(self, e):
        self.e = [e]

    def __getitem__(self, k):
        raise self.e.pop()

    def __iter__(self):
        raise self.e.pop()

    def __len__(self):
        return 2


def op_own_errors(w):
    """Exceptions that refer to values, from containers and from iterables of rows."""
    for cls in (Boom, BoomKey, TypeError, OSError, ValueError, KeyboardInterrupt):
        e = cls(w.value(), "boom")
        if cls in (Boom, BoomKey):
            w.watch(e, "an exception of the caller")
        r = w.watch(Boomed(e), "a failing container")
        del e
        call(w.a, "format", w.q1, r)
        del r

        def gen(e):
            yield w.row(2)
            raise e
        e = cls(w.value())
        rows = w.watch(gen(e), "a failing generator")
        del e
        call(w.b, "formatmany", w.q1, rows)
        del rows


def op_nested(w):
    keys = "ab" if w.kind == NAMED else (1, 2) if w.kind == NUMERIC else (0, 1)
    hook = lambda: (op_tuple(w), op_missing(w))
    call(w.a, "format", w.q1, w.watch(WMap(dict(zip(keys, (w.value(), w.value(2)))), hook=hook), "a container that uses the instance"))


def op_other_query(w):
    w.n += 1
    call(w.a, "format", w.q1 + " /* %d */" % w.n, w.row())
    call(w.b, "formatmany", w.q2 + " /* %d */" % w.n, [w.row()])


OPS = [op_format, op_tuple, op_many, op_missing, op_generator, op_comments, op_wrong_length, op_fault, op_own_errors, op_nested, op_empty, op_plain, op_bytes, op_many_tuples,
       op_wrong_type, op_wrong_query, op_wrong_rows, op_missing_later, op_rows_fault, op_other_query]


def judge(sh, w, i, o, history):
    left = w.alive()
    sh.traces += 1
    sh.transitions += 1
    if left:
        sh.violation("%s is kept after %s: %s->%s" % (left[0], history[-1], i, o), history=history, kept=left,
                     script="# %s on SQLParams(%r, %r): %s stays alive\n" % (" ; ".join(history), i, o, ", ".join(sorted(set(left)))))
        sh.outcome("kept")
        return False
    sh.outcome("freed")
    return True


def run(item, sh, tier):
    i, o, part = item
    b = bounds(tier)
    gc.collect()
    gc.freeze()
    try:
        globals()["part_" + part](sh, i, o, b)
    finally:
        gc.unfreeze()


def part_H(sh, i, o, b):
    pkg = repo.fresh()
    for depth in range(1, b["depth"] + 1):
        for seq in itertools.product(OPS, repeat=depth):
            w = World(i, o, pkg)
            history = []
            for op in seq:
                history.append(op.__name__[3:])
                op(w)
                if not judge(sh, w, i, o, history):
                    break
            sh.state(tuple(history))
            sh.nontrivial += 1
    sh.sample("%s->%s %s" % (i, o, " ; ".join(history)))


def part_L(sh, i, o, b):
    pkg = repo.fresh()
    for op in OPS:
        w = World(i, o, pkg)
        done = 0
        for n in b["runs"] if op in OPS[:4] or op is op_other_query else b["runs"][:3]:
            while done < n:
                op(w)
                done += 1
            if not judge(sh, w, i, o, ["%d times %s" % (n, op.__name__[3:])]):
                break
            sh.state("run", op.__name__, n)
            sh.nontrivial += 1
    sh.sample("%s->%s %d times %s" % (i, o, n, op.__name__[3:]))


def part_R(sh, i, o, b):
    w = World(i, o, repo.fresh())
    for method, many in (("format", False), ("formatmany", True)):
        for q in (w.a, w.b, w.c):
            for cls in range(3):
                for x in (None, 2) if q is not w.c else (None,):
                    rows = [w.row(x, None, cls) for _ in range(3 if many else 1)]
                    refs, w.refs = w.refs, []
                    got = call(q, method, w.q1, WList(rows) if many else rows[0])
                    del rows
                    gc.collect()
                    sh.traces += 1
                    sh.transitions += 1
                    sh.nontrivial += 1
                    sh.state(method, q is w.a, q is w.b, cls, x)
                    containers = [r() for r, what in refs if "container" in what]
                    values = [r() for r, what in refs if "container" not in what]
                    if got is None or any(c is not None for c in containers) or any(v is None for v in values):
                        sh.violation("a result keeps the container it was made from, or not its values: %s->%s" % (i, o), method=method, observed=repr(got))
                        sh.outcome("kept")
                    else:
                        sh.outcome("values only")
                    del values, containers, got
                    gc.collect()
                    if any(r() is not None for r, _ in refs):
                        sh.violation("values are kept after their result is dropped: %s->%s" % (i, o), method=method)
    sh.sample("%s->%s %s keeps values only" % (i, o, method))


def odd_values(n):
    """Values that can only be counted, each a new object."""
    import datetime
    import decimal
    t = "value %d " % n * 2
    return [t, t * 100, t.encode(), t.encode() * 50, 10 ** 30 + n, 1.5 + n, complex(n, 1), (t + "a", t + "b"), (), (n + 1000000,), [t], {t: t}, {t}, frozenset((t,)),
            bytearray(t.encode()), decimal.Decimal(t[6:8]), datetime.date.fromordinal(1 + n % 1000), range(n, n + 5), "k%d" % n, b"k%d" % n, -n - 70000]


def counted(w, call, row, watched):
    """What is referred to more often after the call than before."""
    before = [sys.getrefcount(x) for x in watched]
    call()
    after = [sys.getrefcount(x) for x in watched]
    if after != before:
        gc.collect()
        after = [sys.getrefcount(x) for x in watched]
    return [type(x).__name__ for x, a, b in zip(watched, before, after) if b > a]


def part_V(sh, i, o, b):
    w = World(i, o, repo.fresh())
    n = 0
    for q in (w.a, w.b, w.c):
        for k in range(len(odd_values(0))):
            for what in ("format", "formatmany", "missing", "uneven", "bytes"):
                n += 1
                x, y = odd_values(n)[k], W(n)

                def row(*vs):
                    return dict(zip("ab", vs)) if w.kind == NAMED else list(vs) if n % 2 else {m + (w.kind == NUMERIC): v for m, v in enumerate(vs)}
                r, other = row(x, y), row(x, (y,))
                rows = [r, other]
                watched = [x, y, r, other, rows] + (list(x) if isinstance(x, (tuple, list)) else [])
                fn = {"format": lambda: call(q, "format", w.q1, r), "formatmany": lambda: call(q, "formatmany", w.q1, [r, r]), "missing": lambda: call(q, "format", w.q1, row(x)),
                      "uneven": lambda: call(q, "formatmany", w.q1, rows), "bytes": lambda: call(q, "formatmany", w.q2.encode(), (r, r))}[what]
                left = counted(w, fn, r, watched)
                sh.traces += 1
                sh.transitions += 1
                sh.nontrivial += 1
                sh.state("count", q is w.a, q is w.b, k, what)
                if left:
                    sh.violation("%s is kept after %s: %s->%s" % (left[0], what, i, o), kept=left, value=safe_repr(x))
                    sh.outcome("kept")
                else:
                    sh.outcome("freed")
    sh.sample("%s->%s %s of %s, counted" % (i, o, what, type(x).__name__))
