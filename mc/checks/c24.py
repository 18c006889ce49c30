"""C24: no input makes a conversion run away.

 X  texts that repeat a unit of one or two (thorough: three) tokens out of everything that means something to a style, an escape or a comment,
    behind several beginnings and before several ends: what a badly written scanner backtracks over, or recurses into;
 N  numbers of rows, parameters, tuple elements, unused entries and lengths of names, each large alone.
Every call must end within an amount of CPU time some ten times what the slowest of them takes, and none may exhaust the stack.
"""
import itertools
import re
import time

from .. import model
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one real call whose CPU time is read; states are distinct texts or sizes per configuration; non-trivial: the text contains an introducing "
        "character, or the call succeeds")
ASSUMPTIONS = ["growth is judged by absolute limits on CPU time at large sizes, chosen so that quadratic work in the length of the query passes and cubic or exponential does not"]
LIMIT = 5.0
OUTS = ["qmark", "format", "numeric", "named", "named_oracle"]
OPTS = [dict(), dict(escape_char=True, strip_comments=True, expand_tuples=True), dict(escape_char="\\", strip_comments=["#", ("(*", "*)"), "--", ("/*", "*/")])]


def bounds(tier):
    q = tier == "quick"
    return dict(unit_tokens=2 if q else 3, text_length=3000, starts_and_ends=6, pairs=45 if q else 81, cpu_limit_s=LIMIT, rows=150000, elements=100000, parameters=20000,
                oracle_parameters=700)


def items(tier):
    return [(i, o, n, "X") for i in STYLES for o in (OUTS if tier == "quick" else STYLES) for n in range(len(OPTS))] + [(i, o, 0, "N") for i, o in PAIRS]


def tokens(i):
    p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[KIND[i]])
    out = [model.INTRO[i], p, "a", "1", " ", "\t", "\n", "\r\n", '"', "'", "(", ")", "%", "_", "--", "/*", "*/", "*", "#", "\\", "?", ":", "$", "\xe9", ","]
    return list(dict.fromkeys(out))


def timed(sh, q, ctor, method, sql, args, what):
    t = time.process_time()
    try:
        got = attempt(getattr(q, method), sql, args)
    finally:
        t = time.process_time() - t
    sh.traces += 1
    sh.transitions += 1
    sh.maximum("max_cpu_ms", int(t * 1000))
    sh.outcome(got[0])
    if t > LIMIT:
        sh.violation("a call runs away: %.1f s of CPU time for %s, %s->%s" % (t, what, ctor[0], ctor[1]), ctor=ctor, sql=sql[:60], length=len(sql))
        return False
    if got[0] == "err" and isinstance(got[1], (RecursionError, MemoryError, OverflowError)):
        sh.violation("a call exhausts the interpreter: %s for %s, %s->%s" % (type(got[1]).__name__, what, ctor[0], ctor[1]), ctor=ctor, sql=sql[:60], length=len(sql))
        return False
    return got[0] == "ok"


def values_for(i, text):
    kind = KIND[i]
    if kind == ORDINAL:
        return [0] * (text.count(model.INTRO[i]) + 1)
    if kind == NUMERIC:
        return list(range(12))
    names = set(re.findall(r"\w+", text))
    if i == "named_oracle":
        return {'"%s"' % n: n for n in {n.upper() for n in names} | set(text.split('"')[:50]) - {""}}
    return dict.fromkeys(names)


def run(item, sh, tier):
    i, o, n, part = item
    if part == "N":
        return part_N(sh, i, o)
    b = bounds(tier)
    opts = OPTS[n]
    q, ctor = make(i, o, **opts), (i, o, opts)
    intro = model.INTRO[i]
    toks = tokens(i)
    bad = 0
    for k in range(1, b["unit_tokens"] + 1):
        for unit in itertools.product(toks if k < 3 else toks[:16], repeat=k):
            unit = "".join(unit)
            body = unit * max(1, b["text_length"] // len(unit))
            for start, end in (("", ""), (intro, "!"), (intro + "(", ""), ("/*", "!"), (intro + '"', "!"), ("\n", " ")) if k < 3 else (("", "!"), (intro + "(", "!")):
                text = start + body + end
                sh.state(start, unit, end)
                sh.nontrivial += intro in text
                if not timed(sh, q, ctor, "format", text, values_for(i, text), "%r, %r repeated, %r" % (start, unit, end)) and sh.nviol > bad:
                    bad = sh.nviol
                    if bad > 3:
                        return
    sh.sample("%s->%s %r %r..." % (i, o, opts, text[:30]))


def part_N(sh, i, o):
    """One dimension large at a time."""
    kind = KIND[i]
    keys = {NAMED: ["a", "b"], NUMERIC: ["1", "2"], ORDINAL: ["", ""]}[kind]
    sql = "SELECT %s , %s" % tuple(spell(i, k) for k in keys)

    def row(*vs):
        return dict(zip("ab", vs)) if kind == NAMED else list(vs)
    for opts in (dict(), dict(expand_tuples=True, escape_char=True, strip_comments=True)):
        q, ctor = make(i, o, **opts), (i, o, opts)
        n = 30000
        one = row(1, 2)
        jobs = [("formatmany", sql, [row(k, str(k)) for k in range(n)], "%d rows" % n), ("formatmany", sql, [one] * 150000, "150000 times the same row"),
                ("formatmany", sql, (row(k, -k) for k in range(n)), "%d rows of a generator" % n), ("formatmany", "SELECT 1", [row(k) for k in range(n)], "%d rows unused" % n),
                ("formatmany", sql, [row((k, k), None) for k in range(n)], "%d rows of tuples" % n),
                ("format", sql, row(tuple(range(n)), 2), "a tuple of %d" % n), ("format", sql, row((None,) * 100000, (1,) * 100000), "tuples of 100000 equal elements"),
                ("formatmany", sql, [row(tuple(range(n)), 2)] * 3, "rows with a tuple of %d" % n),
                ("format", sql, row(1, 2, *range(n)) if kind != NAMED else dict(row(1, 2), **{"x%d" % k: k for k in range(n)}), "%d unused values" % n)]
        if kind != ORDINAL:
            jobs.append(("format", " ".join(spell(i, keys[k % 2]) for k in range(n)), one, "%d uses" % n))
            jobs.append(("format", " ".join(spell(i, keys[k % 2]) for k in range(2000)), row(tuple(range(20)), 2), "2000 uses of a tuple"))
        m = 700 if i == "named_oracle" else 20000
        names = {NAMED: ["n%d" % k for k in range(m)], NUMERIC: [str(k + 1) for k in range(m)], ORDINAL: [""] * m}[kind]
        many = dict(zip(names, range(m))) if kind == NAMED else list(range(m))
        jobs.append(("format", " ".join(spell(i, k) for k in names), many, "%d parameters" % m))
        jobs.append(("formatmany", " ".join(spell(i, k) for k in names), [many] * 2, "rows of %d parameters" % m))
        if kind == NUMERIC:
            jobs.append(("format", " ".join(spell(i, k) for k in names), {str(k + 1): k for k in range(m)}, "a mapping of %d numbers" % m))
        if kind == NAMED:
            jobs.append(("format", spell(i, "x" * n), {"x" * n: 1}, "a name of %d characters" % n))
        jobs.append(("format", ("-- comment\n" + "/* more\n */ x\n") * 4000 + sql, one, "8000 comments"))
        jobs.append(("format", "\n".join(" " * 500 + "x" for _ in range(400)) + sql, one, "deeply indented lines"))
        jobs.append(("format", "/*\n" * 3000 + sql, one, "3000 comments that do not end"))
        jobs.append(("format", "x" * 1000000 + sql, one, "a million characters"))
        jobs.append(("format", " \n" * 300000 + sql, one, "300000 lines"))
        jobs.append(("format", ("x" * 600000 + sql).encode(), one, "600000 bytes"))
        for method, text, args, what in jobs:
            sh.state(what, str(opts))
            ok = timed(sh, q, ctor, method, text, args, what)
            sh.nontrivial += ok
            if not ok and sh.nviol:
                return
            if not ok:
                sh.outcome("not converted: " + what)
    sh.sample("%s->%s %s" % (i, o, what))
