"""C22: an interrupted call leaves no damage.

An exception from outside (Ctrl-C, a timeout raised by a signal handler) can end a conversion between any two of its steps. A dry run under
a trace function counts the steps (source lines begun) of a call inside the package; then the call is repeated once per step on an
identically prepared pristine copy of the package, with the exception raised at that step. It must reach the caller, and afterwards the same
instance, an older one and a new one must give exactly the results an undisturbed copy gives.
 I  one interruption, at every step of every operation, first thing ever or after other calls;
 T  two interruptions: all pairs of steps of two calls (for three pairs of styles, thorough: nine, and of more operations);
 C  construction interrupted, the first one ever or after others of the same configuration.
"""
import ast
import os
import sys

from .. import model, repo
from ..common import *

LEVEL = "fault_enumeration"
RULE = ("an evaluation is one real call, interrupted at one step or made afterwards as a probe; states are distinct (operation, preparation, step) "
        "per configuration; non-trivial: the interruption was reached")
ASSUMPTIONS = ["interruptions arrive between source lines of the package (not inside the standard library, nor between the opcodes of a line)",
               "code that acquires or releases a resource (with headers, try lines and what directly precedes them, finally and except blocks) is not interrupted: "
               "Python itself gives no guarantee there"]


class Interrupted(BaseException):
    pass


T_PARTS = 8
COLD = None     # no instance has been made before
TWICE = [("named", "qmark"), ("format", "named"), ("named_oracle", "numeric"), ("pyformat", "named_oracle"), ("numeric", "format"), ("numeric_dollar", "pyformat"),
         ("numeric", "numeric"), ("qmark", "numeric_dollar"), ("qmark", "format")]
CLASSES = [KeyboardInterrupt, Interrupted]
CONFIGS = [dict(), dict(expand_tuples=True), dict(escape_char=True, strip_comments=("--", "#", ("/*", "*/")), expand_tuples=True)]


def bounds(tier):
    q = tier == "quick"
    return dict(configurations_preparations_operations={str(CONFIGS[c]): [list(x) for x in p] for c, p in PLAN[tier].items()}, pairs_of_steps="format, first thing" if q else "format and formatmany",
                classes=1 if q else 2, pairs=81, pairs_interrupted_twice=3 if q else len(TWICE))


def items(tier):
    twice = [("named", "qmark"), ("format", "named"), ("named_oracle", "numeric")] if tier == "quick" else TWICE
    out = [(i, o, 2, "T", r) for i, o in twice for r in range(T_PARTS)]
    out += [(i, o, c, "I") for i, o in PAIRS for c in sorted(PLAN[tier])]
    out += [(i, o, 0, "C") for i, o in PAIRS]
    return out


# ---- where interruptions may arrive ----

_closed, _mine = {}, {}


def closed(path):
    """Lines of a file where no interruption is injected."""
    if path not in _closed:
        lines = set()
        with open(path, "rb") as fh:
            tree = ast.parse(fh.read())

        def span(a, b):
            lines.update(range(a.lineno, b.end_lineno + 1))
        for node in ast.walk(tree):
            for body in (getattr(node, f, None) for f in ("body", "orelse", "finalbody")):
                if isinstance(body, list):
                    for before, stmt in zip(body, body[1:]):
                        if isinstance(stmt, ast.Try) and stmt.finalbody:
                            span(before, before)
            if isinstance(node, ast.Try):
                lines.add(node.lineno)
                for h in node.handlers:
                    span(h, h)
                if node.finalbody:
                    span(node.finalbody[0], node.finalbody[-1])
            if isinstance(node, ast.With):
                lines.update(range(node.lineno, max(node.lineno, node.items[-1].context_expr.end_lineno) + 1))
            if isinstance(node, ast.FunctionDef) and node.name in ("__enter__", "__exit__", "__del__"):
                span(node, node)
        _closed[path] = lines
    return _closed[path]


class Tracer:
    """Raises exc at the target-th step of fn()."""

    def __init__(self, fn, target=None, exc=None):
        self.fn, self.target, self.exc = fn, target, exc
        self.steps = 0
        self.where = None
        self.root = os.path.abspath(repo.PKG) + os.sep

    def mine(self, code):
        path = code.co_filename
        if path not in _mine:
            _mine[path] = os.path.abspath(path).startswith(self.root)
        return _mine[path]

    def shut(self, frame):
        while frame is not None and frame is not self.base:
            path = frame.f_code.co_filename
            if self.mine(frame.f_code) and frame.f_lineno in closed(path):
                return True
            frame = frame.f_back
        return False

    def glob(self, frame, event, arg):
        return self.local if self.mine(frame.f_code) else None

    def local(self, frame, event, arg):
        if event == "line" and not self.shut(frame):
            self.steps += 1
            if self.steps == self.target:
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise self.exc
        return self.local

    def __call__(self):
        self.base = sys._getframe()
        sys.settrace(self.glob)
        try:
            return "ok", self.fn()
        except BaseException as e:
            if self.exc is None and not isinstance(e, Exception):
                raise
            return "err", e
        finally:
            sys.settrace(None)


# ---- the world ----

class World:
    """A pristine copy of the package with some instances."""

    def __init__(self, i, o, opts, prep):
        self.i, self.o, self.opts = i, o, opts
        self.pkg = repo.fresh()
        if prep is not COLD:
            self.instances()
        if prep:
            for n in range(prep):
                for op in "FM":
                    operation(self, op)()


    def instances(self):
        self.main = self.pkg.SQLParams(self.i, self.o, **self.opts)
        self.other = self.pkg.SQLParams(self.i, self.o, **self.opts)


_inputs = {}


def inputs(i, opts):
    """Two queries, and rows for them: fixed objects, so that results of different worlds can be compared."""
    key = i, tuple(sorted(opts.items()))
    if key not in _inputs:
        kind = KIND[i]
        a, b, c = {NAMED: ("ab", "b", "c"), NUMERIC: "123", ORDINAL: "012"}[kind]
        sa, sb, sc = (spell(i, x) for x in (a, b, c))
        q1 = "# 'c'\n-- c\n/* c\n */\nSELECT %s, x IN %s -- %s\n" % (sa, sb, sc) + ("" if kind == ORDINAL else " AND %s" % sa)
        q2 = "SELECT 'zz' || %s || %s || %s" % (sc, sa, sb)
        v = vals(6)
        ex = opts.get("expand_tuples")

        def row(x, y, z, odd):
            if kind == NAMED:
                return {a: x, b: y, c: z}
            return {0 + (kind == NUMERIC): x, 1 + (kind == NUMERIC): y, 2 + (kind == NUMERIC): z} if odd and kind == NUMERIC else [x, y, z]
        r1 = row(v[0], (v[1], v[2]) if ex else v[1], v[3], 0)
        r2 = row(v[4], (v[2], v[5]) if ex else v[5], v[0], 1)
        r3 = row(v[2], (v[3], v[3]) if ex else v[0], v[1], 0)
        _inputs[key] = q1, q2, [r1, r2, r3]
    return _inputs[key]


OPS = "FMEGB"


def operation(w, op, q=None):
    """F format, M formatmany, E a failing call, G rows from a generator, B bytes and another query."""
    q = q or w.main
    q1, q2, rows = inputs(w.i, w.opts)
    if op == "F":
        return lambda: q.format(q1, rows[0])
    if op == "M":
        return lambda: q.formatmany(q1, rows[:2])
    if op == "E":
        return lambda: attempt(q.formatmany, q1, [rows[0], type(rows[0])()])[0]
    if op == "G":
        return lambda: q.formatmany(q2, iter(rows[1:]))
    if op == "B":
        return lambda: q.format(q2.encode(), rows[1])


def probes(w):
    """What a caller sees afterwards."""
    out = []
    new = w.pkg.SQLParams(w.i, w.o, **w.opts)
    for q, ops in ((w.main, "FGM"), (w.other, "M"), (new, "B")):
        for op in ops:
            out.append(attempt(operation(w, op, q)))
    return out


NAMES = ["same instance: %s" % x for x in "FGM"] + ["older instance: M", "new instance: B"]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, V):
        return a is b
    if isinstance(a, Exception):
        return a.args == b.args
    return a == b


def expected(sh, i, o, opts):
    """Results of an undisturbed copy, themselves judged by the model."""
    w = World(i, o, opts, 0)
    got = probes(w)
    q1, q2, rows = inputs(i, opts)
    cfg = Cfg(i, o, **opts)
    for q in (w.main, w.other):
        for r in rows:
            for sql in (q1, q2):
                check_format(sh, q, cfg, (i, o, opts), sql, cfg.scan(sorted(model.strip(sql, cfg.comments))[0]), r)
        check_many(sh, q, cfg, (i, o, opts), q1, rows[:2])
        check_many(sh, q, cfg, (i, o, opts), q2, rows[1:])
    for name, g in zip(NAMES, got):
        if g[0] != "ok":
            sh.violation("an undisturbed call fails: %s->%s" % (i, o), probe=name, observed=show(g))
    return got


def ctor(w):
    return "SQLParams(%r, %r%s)" % (w.i, w.o, "".join(", %s=%r" % x for x in w.opts.items()))


def disturb(sh, w, op, step, cls, q=None):
    """Interrupts one operation; returns False when it ends before the step, None when the exception does not surface."""
    exc = cls("stop")
    t = Tracer(operation(w, op, q), step, exc)
    kind, x = t()
    sh.transitions += 1
    sh.traces += 1
    if t.where is None:
        return False, None
    sh.nontrivial += 1
    if kind != "err" or x is not exc:
        sh.violation("an interruption does not reach the caller: %s->%s" % (w.i, w.o), where=t.where, operation=op, observed=show((kind, x)))
        sh.outcome("swallowed")
        return None, t.where
    exc.__traceback__ = None
    sh.outcome("interrupted")
    return True, t.where


def judge(sh, w, want, history):
    got = probes(w)
    sh.traces += len(got)
    sh.transitions += len(got)
    for name, g, e in zip(NAMES, got, want):
        if g[0] != e[0] or not same(g[1], e[1]):
            sh.violation("an interrupted call leaves damage: %s->%s" % (w.i, w.o), history=history, probe=name, expected=show(e), observed=show(g),
                         script="# %s: interrupted %s; then %s\n#   gives %s\n#   instead of %s\n" % (ctor(w), history, name, show(g), show(e)))
            sh.outcome("damage")
            return False
    sh.outcome("no damage")
    return True


def run(item, sh, tier):
    i, o, c, part = item[:4]
    old = sys.gettrace()
    try:
        globals()["part_" + part](sh, i, o, CONFIGS[c], tier, *item[4:])
    finally:
        sys.settrace(old)


PLAN = {"quick": {0: ((0, "E"), (1, "B")), 2: ((0, "FM"), (1, "G"))},
        "thorough": {c: ((0, OPS), (1, OPS), (3, "FM")) for c in range(3)}}


def part_I(sh, i, o, opts, tier):
    want = expected(sh, i, o, opts)
    bad = 0
    for prep, ops in PLAN[tier][CONFIGS.index(opts)]:
        for op in ops:
            for cls in CLASSES[:1] if tier == "quick" else CLASSES:
                step = 0
                while bad < 3:
                    step += 1
                    w = World(i, o, opts, prep)
                    hit, where = disturb(sh, w, op, step, cls)
                    if hit is False:
                        break
                    sh.state(op, prep, step)
                    if not hit or not judge(sh, w, want, [op, prep, where]):
                        bad += 1
    sh.sample("%s->%s %s interrupted at step %d of %s" % (i, o, opts, step - 1, op))


def part_T(sh, i, o, opts, tier, part):
    want = expected(sh, i, o, opts)
    bad = 0
    for op1, op2 in ("FF",) if tier == "quick" else ("FF", "FM", "MB"):
        first = part + 1 - T_PARTS
        while bad < 3:
            first += T_PARTS
            second = 0
            done = False
            while bad < 3:
                second += 1
                w = World(i, o, opts, 0)
                hit, at = disturb(sh, w, op1, first, CLASSES[0])
                if hit is False:
                    done = True
                    break
                hit, where = disturb(sh, w, op2, second, CLASSES[1])
                if hit is False:
                    break
                sh.state(op1, op2, first, second)
                if not hit or not judge(sh, w, want, [op1, at, op2, where]):
                    bad += 1
            if done:
                break
    sh.sample("%s->%s %s and %s interrupted, first up to step %d" % (i, o, op1, op2, first))


def part_C(sh, i, o, opts, tier):
    for opts in CONFIGS[1:] if tier == "quick" else CONFIGS:
        want = expected(sh, i, o, opts)
        for prep in (COLD, 0) if tier == "quick" else (COLD, 0, 1):
            step = 0
            bad = 0
            while bad < 3:
                step += 1
                w = World(i, o, opts, prep)
                exc = KeyboardInterrupt("stop")
                t = Tracer(lambda: w.pkg.SQLParams(i, o, **opts), step, exc)
                kind, x = t()
                sh.traces += 1
                sh.transitions += 1
                if t.where is None:
                    break
                sh.nontrivial += 1
                sh.state(str(opts), prep, step)
                if kind != "err" or x is not exc:
                    sh.violation("an interruption of the construction does not reach the caller: %s->%s" % (i, o), where=t.where)
                    bad += 1
                    continue
                if prep is COLD:
                    w.instances()
                if not judge(sh, w, want, ["construction", prep, t.where]):
                    bad += 1
    sh.sample("%s->%s construction interrupted at step %d" % (i, o, step - 1))
