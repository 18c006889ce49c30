"""C23: conversions have no side effects on the process.

All sequences up to a depth of operations (construction, format, formatmany, each succeeding and failing in several ways) on pristine copies
of the package, for all 81 pairs of styles, under monitors: audit events of the interpreter (files opened for writing, processes, sockets,
threads, deletions, environment), text printed, warnings, log records that Python prints by default, and a snapshot of the interpreter's
settings before and after each operation. Reading the package's or the library's modules (a late import) is allowed.
"""
import _abc
import atexit
import builtins
import codecs
import collections
import collections.abc
import contextvars
import copyreg
import decimal
import faulthandler
import functools
import gc
import itertools
import linecache
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import sqlite3
import string
import sys
import threading
import time
import tracemalloc
import warnings

from .. import repo
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one operation on the real code after which all monitors are read; states are distinct histories per configuration; "
        "non-trivial: at least two operations, or one that fails")
ASSUMPTIONS = ["the monitors listed in the module's documentation; other effects are not claimed"]

DENY = {"os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.putenv", "os.unsetenv", "os.chdir",
        "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "os.utime", "os.lockf", "os.setxattr",
        "subprocess.Popen", "socket.__new__", "socket.connect", "socket.bind", "socket.sendto", "socket.getaddrinfo", "_thread.start_new_thread", "_thread.start_joinable_thread",
        "shutil.copyfile", "shutil.move", "shutil.rmtree", "tempfile.mkstemp", "tempfile.mkdtemp", "sqlite3.connect", "builtins.input", "builtins.breakpoint",
        "sys.settrace", "sys.setprofile", "sys.addaudithook", "syslog.syslog", "signal.pthread_kill", "ctypes.dlopen", "fcntl.flock", "fcntl.fcntl", "fcntl.ioctl"}


class Monitor:
    events = None
    hooked = False


def hook(event, args):
    if Monitor.events is None:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None,) * 3)[:3]
        writes = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if writes and "__pycache__" not in str(path):
            Monitor.events.append("open %r for writing" % (path,))
    elif event in DENY:
        Monitor.events.append("%s%r" % (event, tuple(type(a).__name__ for a in args)))


class Sink:
    """Stands in for stdout and stderr."""

    def __init__(self, name):
        self.name = name
        self.encoding = "utf-8"

    def write(self, text):
        if Monitor.events is not None:
            Monitor.events.append("%s: %r" % (self.name, text[:60]))
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


def recorder(module, name, real):
    """Stands in for a function that changes the process in a way nobody can ask for afterwards."""
    def call(*a, **k):
        if Monitor.events is not None:
            Monitor.events.append("%s.%s called" % (module.__name__, name))
            return None
        return real(*a, **k)
    return functools.wraps(real)(call)


for _module, _name in ((codecs, "register"), (codecs, "register_error"), (codecs, "unregister"), (os, "umask"), (os, "nice"), (os, "setpriority"), (os, "sched_setaffinity"),
                       (signal, "alarm"), (signal, "setitimer"), (signal, "pthread_sigmask"), (resource, "setrlimit"), (time, "tzset"), (atexit, "unregister"),
                       (re, "purge"), (linecache, "clearcache"), (sys, "set_asyncgen_hooks"), (sys, "set_coroutine_origin_tracking_depth"), (sys, "addaudithook")):
    setattr(_module, _name, recorder(_module, _name, getattr(_module, _name)))


class Records(logging.Handler):
    def emit(self, record):
        if Monitor.events is not None and record.levelno >= logging.WARNING:
            Monitor.events.append("log: %s" % record.levelname)


SIGNALS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGVTALRM, signal.SIGPIPE, signal.SIGUSR1, signal.SIGHUP, signal.SIGCHLD)]


def snapshot():
    """Settings of the interpreter that anyone could notice to have changed."""
    c = decimal.getcontext()
    return {
        "recursion limit": sys.getrecursionlimit(), "digit limit": sys.get_int_max_str_digits(), "switch interval": sys.getswitchinterval(),
        "signal handlers": [signal.getsignal(s) for s in SIGNALS], "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "random state": random.getstate(),
        "decimal context": (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(map(str, (k for k, v in c.traps.items() if v))), sorted(map(str, (k for k, v in c.flags.items() if v)))),
        "environment": dict(os.environ), "directory": os.getcwd(), "locale": locale.setlocale(locale.LC_ALL), "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace()),
        "warning filters": list(warnings.filters), "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook), "streams": (sys.stdout, sys.stderr, sys.stdin),
        "threads": threading.active_count(), "built-ins": dict(vars(builtins)), "context": dict(contextvars.copy_context().items()), "path": list(sys.path), "arguments": list(sys.argv),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)), "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions,
                                                                                  logging.getLoggerClass(), logging.getLogRecordFactory(), dict(logging._levelToName)),
        "other modules": [(m.__name__, {k: id(v) for k, v in vars(m).items()}) for m in MODULES], "class registries": [set(_abc._get_dump(c)[0]) for c in ABCS],
        "exit handlers": atexit._ncallbacks(), "pickling table": dict(copyreg.dispatch_table), "database adapters": (dict(sqlite3.adapters), dict(sqlite3.converters)), "time-out": socket.getdefaulttimeout(),
        "memory tracing": (tracemalloc.is_tracing(), faulthandler.is_enabled(), gc.get_freeze_count(), len(gc.callbacks)), "stack size": threading.stack_size(),
        "codec errors": [codecs.lookup_error(n) for n in ("strict", "replace", "ignore", "surrogateescape")],
    }


MODULES = [re, itertools, functools, collections, collections.abc, string, codecs, copyreg]
ABCS = [getattr(collections.abc, n) for n in ("Sequence", "MutableSequence", "Mapping", "MutableMapping", "Iterable", "Iterator", "Collection", "Sized", "Container", "Set", "Hashable", "Callable")]


def bounds(tier):
    return dict(depth=2 if tier == "quick" else 3, operations=len(OPS), pairs=81, monitors=len(snapshot()) + 4)


def items(tier):
    return [(i, o) for i, o in PAIRS]




class World:
    def __init__(self, i, o):
        self.i, self.o = i, o
        self.kind = KIND[i]
        x, y = {NAMED: "ab", NUMERIC: "12", ORDINAL: "01"}[self.kind]
        self.sql = "-- c\n/* c */\nSELECT %s , %s -- x" % (spell(i, x), spell(i, y))
        self.pkg = repo.fresh()
        self.qs = [self.pkg.SQLParams(i, o), self.pkg.SQLParams(i, o, escape_char=True, strip_comments=True, expand_tuples=True), self.pkg.SQLParams(i, o, expand_tuples=False)]

    def row(self, *vs, extra=False):
        if self.kind == NAMED:
            return dict(zip("abc", vs + (7,) * extra))
        return list(vs + (7,) * extra)


def op_new(w):
    for opts in (dict(), dict(escape_char="!", strip_comments=["--", ("/*", "*/")], expand_tuples=True)):
        attempt(lambda: w.pkg.SQLParams(w.i, w.o, **opts))


def op_new_wrong(w):
    attempt(w.pkg.SQLParams, "nostyle", w.o)
    attempt(w.pkg.SQLParams, w.i, None)
    attempt(lambda: w.pkg.SQLParams(w.i, w.o, escape_char=5))
    attempt(lambda: w.pkg.SQLParams(w.i, w.o, strip_comments=[5]))


def op_new_own(w):
    """An upper-case style name, a tuple, an empty string."""
    attempt(lambda: w.pkg.SQLParams(w.i.upper(), w.o))
    attempt(lambda: w.pkg.SQLParams(w.i, w.o, escape_char="", strip_comments=[]))
    attempt(lambda: repr(w.qs[0]))


def op_format(w):
    for q in w.qs:
        attempt(q.format, w.sql, w.row(1, "x" * 10))


def op_tuples(w):
    for q in w.qs:
        attempt(q.format, w.sql, w.row((1, None, 2), ()))


def op_large(w):
    for q in w.qs:
        attempt(q.format, w.sql, w.row(tuple(range(1200)), "y" * 70000))
        attempt(q.formatmany, w.sql, [w.row(n, None) for n in range(1200)])


def op_extra(w):
    for q in w.qs:
        attempt(q.format, w.sql, w.row(1.5, b"x", extra=True))
        attempt(q.format, w.sql.encode() + b" \xff", w.row(None, True))


def op_many(w):
    for q in w.qs:
        attempt(q.formatmany, w.sql, iter([w.row(1, (2, 3)), w.row(4, (5, 6))]))


def op_missing(w):
    for q in w.qs:
        attempt(q.format, w.sql, w.row(1))
        attempt(q.formatmany, w.sql, [w.row(1, 2), w.row(1)])


def op_wrong(w):
    for q in w.qs:
        attempt(q.format, w.sql, 5)
        attempt(q.format, 5, w.row(1, 2))
        attempt(q.formatmany, w.sql, 5)
        attempt(q.formatmany, w.sql, [])
        attempt(q.formatmany, w.sql, [w.row(1, 2), 5])


def op_lengths(w):
    for q in w.qs:
        attempt(q.formatmany, w.sql, [w.row((1, 2), 2), w.row((1, 2, 3), 2)])
        attempt(q.formatmany, w.sql, [w.row((1, 2), 2), w.row(1, 2)])
        attempt(q.formatmany, w.sql, [w.row(1, 2), w.row((1,), 2)])


def op_fault(w):
    def rows():
        yield w.row(1, 2)
        raise OSError("boom")
    for q in w.qs:
        attempt(q.formatmany, w.sql, rows())


def op_number(w):
    for n in (1, 3, 5, 10, 11, 19, 20, 40, 300, 4300, 4301):
        digits = "1" * n
        for q in w.qs:
            attempt(q.format, w.sql + " " + (spell(w.i, digits) if w.kind == NUMERIC else spell(w.i, "a" * n)), w.row(1, 2))
            attempt(q.formatmany, spell(w.i, "0" * n + "1" if w.kind == NUMERIC else "a"), [w.row(1, 2), w.row(1, (2,))])


def op_unused(w):
    for n in (1, 2, 5, 9, 10, 11, 17, 33, 65, 101, 257, 1001):
        for q in w.qs:
            row = w.row(1, (2,))
            if w.kind == NAMED:
                row.update(("x%d" % k, k) for k in range(n))
            else:
                row.extend(range(n))
            attempt(q.format, w.sql, row)
            attempt(q.formatmany, w.sql, [row, row])
            attempt(q.format, "SELECT 1", row)
            if w.kind == NUMERIC:
                attempt(q.format, w.sql, {str(k + 1): v for k, v in enumerate(row)})


def op_failures(w):
    """The same errors again and again."""
    for q in w.qs[:2]:
        for n in range(120):
            attempt(q.format, w.sql, w.row(1))
            attempt(q.formatmany, w.sql, [w.row((1,), 2), w.row(1, 2)])


def op_odd_text(w):
    for q in w.qs:
        attempt(q.format, w.sql + " \u0130\ud800 '", w.row(1, 2))
        attempt(q.format, w.sql + " 'drop; -- " + "(" * 1200, w.row("'; --", "\x00"))
        attempt(q.format, "", w.row())


OPS = [op_new, op_new_wrong, op_new_own, op_format, op_tuples, op_large, op_extra, op_many, op_missing, op_wrong, op_lengths, op_fault, op_number, op_odd_text, op_unused, op_failures]


def watched(op, w):
    """Effects of one operation."""
    before = snapshot()
    Monitor.events = []
    try:
        op(w)
    finally:
        events, Monitor.events = Monitor.events, None
    after = snapshot()
    if before != after:
        events += ["%s changed" % k for k in before if before[k] != after[k]]
    return events


def run(item, sh, tier):
    i, o = item
    if not Monitor.hooked:
        sys.addaudithook(hook)
        Monitor.hooked = True
    handler = Records(logging.NOTSET)
    saved = sys.stdout, sys.stderr, warnings.showwarning
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = lambda *a, **k: Monitor.events is not None and Monitor.events.append("warning: %s" % a[1].__name__)
            sys.stdout, sys.stderr = Sink("stdout"), Sink("stderr")
            logging.root.addHandler(handler)
            depth = bounds(tier)["depth"]
            bad = 0
            effects = watched(lambda w: World(i, o), None)
            if effects:
                sh.violation("importing the package or making instances has side effects: %s->%s" % (i, o), effects=effects[:5])
            for d in range(1, depth + 1):
                for seq in itertools.product(OPS, repeat=d):
                    if d == depth and d > 1 and not {op_large, op_unused, op_number, op_failures}.isdisjoint(seq[1:]):
                        continue
                    w = World(i, o)
                    history = []
                    for op in seq:
                        history.append(op.__name__[3:])
                        effects = watched(op, w)
                        sh.transitions += 1
                    sh.traces += 1
                    sh.state(tuple(history))
                    sh.nontrivial += 1
                    if effects:
                        sh.violation("an operation has side effects: %s->%s" % (i, o), history=history, effects=effects[:5],
                                     script="# %s on SQLParams(%r, %r): %s\n" % (" ; ".join(history), i, o, "; ".join(effects[:5])))
                        sh.outcome("effects")
                        bad += 1
                        if bad > 3:
                            return
                    else:
                        sh.outcome("none")
            sh.sample("%s->%s %s" % (i, o, " ; ".join(history)))
    finally:
        logging.root.removeHandler(handler)
        sys.stdout, sys.stderr, warnings.showwarning = saved
