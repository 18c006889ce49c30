"""C19: SQLite reads the converted query as intended.

For every input style and every output style SQLite understands: SQL templates (SELECT list, arithmetic, WHERE, IN lists, sub-select,
CASE, literals and comments with other styles' syntax) times all slot sequences, times all assignments of a value zoo and of tuples;
the converted query is executed with the converted parameters in an in-memory database and its rows (values and storage classes) are
compared with those of the same template with the values written in by hand. executemany: all row sequences up to a length over the
zoo are inserted, updated and deleted, and the table is compared with one filled by hand.
"""
import itertools
import sqlite3
import warnings

from .. import model
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one converted query executed by SQLite and compared with the hand-written one; states are distinct (template, slots, "
        "values) per pair; non-trivial: a parameter repeats, a tuple expands, or a text value contains quotes or parameter syntax")
ASSUMPTIONS = ["SQLite %s is an independent judge of the output styles it understands; the others (format, pyformat, quoted Oracle) are not "
               "executed" % sqlite3.sqlite_version]
OUTS = ["qmark", "numeric", "numeric_dollar", "named", "named_dollar", "named_sqlserver", "named_oracle"]
ZOO = [None, 0, -1, 1.5, "", "x", "it's", '"', "?", ":a", "$1", "%s %(a)s %%", "'); DROP TABLE t;--", b"", b"\x00\xff'", "\u00e9\U0001f600", 2 ** 62, True, ":1 @a ?1"]
TUPLES = [(), (1,), (None,), ("x",), (1, 2), ("it's", None, 1.5), ("?", ":a", "$1", "@a", "%s"), (b"\x00\xff'", 0), tuple(range(30)), (2,) * 3, ("it's",) * 4, (None,) * 5,
          (1, 1, 1, "x")]
# Tuples in other places than directly after IN; the empty tuple is (NULL) there, as documented.
PLACES = [
    "SELECT n FROM t WHERE v IN/* ? :a */{0} ORDER BY n", "SELECT n FROM t WHERE v in\n{0}\nORDER BY n", "SELECT n FROM t WHERE v NOT IN {0} OR n IN -- $1 @a\n {1} ORDER BY n",
    "SELECT * FROM (VALUES {0})", "SELECT ({1}) IN (VALUES {0})", "SELECT {0} IS {0}, {0} < {1}", "SELECT {0} IN (VALUES {1})", "SELECT max{0}, count{1}", "SELECT 1 WHERE {0}\nIS{1}",
    "WITH w AS (VALUES {0}) SELECT * FROM w, (VALUES {1})", "SELECT CASE WHEN 1 IN {0} THEN 'a' ELSE 'b' END, 2 IN{1}\tOR 1", "SELECT n FROM t WHERE (n) IN {0} AND n NOT IN {1} OR v IN {0}",
]
SIZES = [3, 7, 8, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 998, 999, 1000, 1001, 1023, 1024, 1025, 1200]


def bounds(tier):
    q = tier == "quick"
    return dict(values=len(ZOO), tuples=len(TUPLES), slots=3, rows=2 if q else 3, templates=len(TEMPLATES) + len(IN) + len(PLACES) + len(GROW), tuple_lengths_and_parameter_counts_up_to=SIZES[-1], out_styles=len(OUTS),
                triples_of_values=not q)


def items(tier):
    return [(i, o, part) for i in STYLES for o in OUTS for part in "SIMPG"]


# {0}, {1}, {2} are slots. Literal text avoids the syntax of each input style by itself (see usable()).
TEMPLATES = [
    ("SELECT {0}, typeof({0}), {1}", 2), ("SELECT {0}", 1), ("SELECT {0},{1},{2}", 3), ("SELECT {0} || {1}, {1}||{0}", 2),
    ("SELECT v FROM t WHERE v = {0} OR n>{1}", 2), ("SELECT CASE WHEN {0} IS NULL THEN {1} ELSE {0} END", 2),
    ("SELECT n FROM t WHERE v IS {0} AND n IN (SELECT n FROM t WHERE v IS NOT {1}) ORDER BY n", 2),
    ("SELECT '?', {0}, '??', {1}, '$1'", 2), ("SELECT ':a', {0} /* @a ? $1 */, '@a', {1} -- :b", 2), ("SELECT 5%3, {0}, '%%' || '%s', {1} % 2", 2),
    ("SELECT '''', {0}, \"n\" FROM t WHERE n = {1} LIMIT 1", 2), ("SELECT coalesce({0},{1},{2}), max({0},{2})", 3), ("SELECT({0})+({1})AS z", 2),
]
IN = [
    "SELECT n FROM t WHERE v IN {0} ORDER BY n", "SELECT n FROM t WHERE v IN {0} AND n IN {1} ORDER BY n", "SELECT {2}, n FROM t WHERE v IN{0} OR n IN {1} ORDER BY n DESC",
    "SELECT {0} IS NULL, n FROM t WHERE n IN {1} OR n = {2} ORDER BY n", "SELECT count(*) FROM t WHERE v IN {1} OR v IN {0} OR v IN {1}",
]


def lit(v):
    if isinstance(v, tuple):
        return "(%s)" % ",".join(map(lit, v))
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, (int, float)):
        return repr(v) if not (isinstance(v, (int, float)) and v < 0) else "(%r)" % v
    if isinstance(v, bytes):
        return "X'%s'" % v.hex()
    return "'%s'" % v.replace("'", "''")


def connect():
    warnings.simplefilter("ignore")
    db = sqlite3.connect(":memory:", isolation_level=None)
    db.execute("CREATE TABLE t (n INTEGER PRIMARY KEY, v)")
    for v in [x for x in ZOO] + [1, 2, 3]:
        db.execute("INSERT INTO t (v) VALUES (%s)" % lit(v))
    return db


def lit_null(v):
    return "(NULL)" if v == () else lit(v)


def bindable(o, params):
    """The converted parameters the way sqlite3 takes them: number n means element n."""
    if KIND[o] == NUMERIC:
        return {str(n + 1): v for n, v in enumerate(params)}
    return params


def fetch(db, sql, params=()):
    try:
        return [tuple((type(x).__name__, x) for x in row) for row in db.execute(sql, params).fetchall()]
    except sqlite3.Error as e:
        return "%s: %s" % (type(e).__name__, e)


def names(i, n):
    return {NAMED: ["a", "b", "c"], NUMERIC: ["1", "2", "3"], ORDINAL: ["0", "1", "2"]}[KIND[i]][:n]


def usable(i, template, holes):
    """The template's own text holds no parameter of the input style."""
    bare = template.format(*["\x01"] * 3)
    return all(s[0] == "L" for s in model.scan(bare, i)) and not (i == "format" and "%s" in bare)


def holes_of(template):
    """Slot numbers in order of appearance."""
    return [int(template[k + 1]) for k in range(len(template)) if template[k] == "{"]


def build(i, template, assign):
    """Query text of the input style where slot n holds parameter assign[n], and the order of ordinals."""
    order = holes_of(template)
    if KIND[i] == ORDINAL:
        return template.format(*[spell(i, 0)] * 3), order
    ns = names(i, 3)
    return template.format(*[spell(i, ns[a]) for a in assign]), order


def container(i, vals, assign, order):
    if KIND[i] == NAMED:
        return dict(zip(names(i, 3), vals))
    if KIND[i] == NUMERIC:
        return list(vals)
    return [vals[assign[k]] for k in order]


def run(item, sh, tier):
    i, o, part = item
    b = bounds(tier)
    opts = {} if KIND[o] != NAMED else dict(expand_tuples=True)
    q = make(i, o, **opts)
    db = connect()
    try:
        globals()["part_" + part](sh, i, o, (i, o, opts), q, db, b)
    finally:
        db.close()


def one(sh, i, o, ctor, q, db, template, assign, vals, ref, lit=lit):
    sql, order = build(i, template, assign)
    params = container(i, vals, assign, order)
    hand = template.format(*[lit(vals[a]) for a in assign])
    if hand not in ref:
        ref[hand] = fetch(db, hand)
    want = ref[hand]
    sh.transitions += 1
    sh.traces += 1
    sh.state(template, assign, hand)
    if any(isinstance(v, tuple) or isinstance(v, str) and set(v) & set("'?:$@%") for v in vals) or len(set(assign)) < len(assign):
        sh.nontrivial += 1
    got = attempt(q.format, sql, params)
    rows = fetch(db, got[1][0], bindable(o, got[1][1])) if got[0] == "ok" else None
    if isinstance(want, str):
        # SQLite refuses the hand-written statement (such as a LIMIT of text): it must refuse the converted one too.
        ok = isinstance(rows, str)
    else:
        ok = rows == want
    if not ok:
        sh.violation("%s->%s: SQLite reads the converted query differently" % (i, o), ctor=ctor, sql=sql, params=params, converted=show(got), hand=hand,
                     expected=want, observed=rows, script=script(ctor, "format", sql, params, "rows of " + hand))
        sh.outcome("bad")
    else:
        sh.outcome("rows=%s" % ("error" if isinstance(want, str) else min(len(want), 9)))


def assigns(i, n):
    """All ways to put up to n parameters into n slots."""
    if n == 1:
        return [(0,)]
    if n == 2:
        return [(0, 1), (1, 0), (0, 0)]
    return list(itertools.product(range(3), repeat=3))


def part_S(sh, i, o, ctor, q, db, b):
    for template, n in TEMPLATES:
        if not usable(i, template, n):
            continue
        ref = {}
        zoo = ZOO if n < 3 or b["triples_of_values"] else ZOO[::4]
        for vals in itertools.product(zoo, repeat=n):
            vals = list(vals) + ["\x02"] * (3 - n)
            for assign in assigns(i, n):
                if n == 3 and len(set(map(repr, vals))) < 3 and assign != (0, 1, 2):
                    continue
                one(sh, i, o, ctor, q, db, template, tuple(assign) + (0,) * (3 - n), vals, ref)
    sh.sample("%s->%s %s" % (i, o, template))


def part_I(sh, i, o, ctor, q, db, b):
    for template in IN:
        ref = {}
        scalars = [3, "x", None] if "{2}" in template else [0]
        for t0, t1, s in itertools.product(TUPLES, TUPLES, scalars):
            if "{0} IS NULL" in template:
                vals = [s, t1, 5]
                one(sh, i, o, ctor, q, db, template, (0, 1, 2), vals, ref)
                continue
            vals = [t0, t1, s]
            one(sh, i, o, ctor, q, db, template, (0, 1, 2), vals, ref)
            one(sh, i, o, ctor, q, db, template, (1, 0, 2), vals, ref)
            one(sh, i, o, ctor, q, db, template, (0, 0, 2), vals, ref)
    sh.sample("%s->%s %s" % (i, o, template))


def part_P(sh, i, o, ctor, q, db, b):
    for template in PLACES:
        if not usable(i, template, 2):
            continue
        ref = {}
        for t0, t1 in itertools.product(TUPLES, TUPLES if "{1}" in template else TUPLES[:1]):
            for assign in ((0, 1, 0), (1, 0, 0), (0, 0, 0)):
                one(sh, i, o, ctor, q, db, template, assign, [t0, t1, 0], ref, lit_null)
    sh.sample("%s->%s %s" % (i, o, template))


# {T} is a tuple of n elements, {P} n different parameters, both among other parameters.
GROW = ["SELECT {0}, n FROM t WHERE n IN {T} OR n = {1} ORDER BY n", "SELECT {0} WHERE {1} IN {T} OR {1} IN {T}", "SELECT max({P}), min({P}), {0}", "SELECT {1} IN ({P}), {0}",
        "SELECT {1} IN {T} + ({0} IN ({P}))"]


def part_G(sh, i, o, ctor, q, db, b):
    kind = KIND[i]
    for n in SIZES:
        many = [(k * 7919) % 100003 for k in range(n)]
        for tup in (tuple(many), (5,) * n, (5,) * (n - 1) + (6,), tuple(str(k) for k in many), (many[-1], "x") * (n // 2)):
            for template in GROW:
                order = []                                  # values in order of appearance
                out = hand = ""
                vals = {0: many[-1], 1: tup[-1]}
                key = lambda k: {NAMED: "p%d", NUMERIC: "%d", ORDINAL: "%d"}[kind] % (k + 1)
                if i == "named_oracle":
                    key = lambda k: "P%d" % (k + 1)
                table = [vals[0], vals[1], tup] + many
                pos = 0
                for part in template.replace("{", "|{").replace("}", "}|").split("|"):
                    ids = {"{0}": [0], "{1}": [1], "{T}": [2], "{P}": list(range(3, 3 + n))}.get(part)
                    if ids is None:
                        out, hand = out + part, hand + part
                        continue
                    order += ids
                    out += ", ".join(spell(i, key(k)) for k in ids)
                    hand += ", ".join(lit(table[k]) for k in ids)
                if "{P}" in template and tup[:1] != tuple(many[:1]):
                    continue
                if kind == ORDINAL:
                    params = [table[k] for k in order]
                elif kind == NUMERIC:
                    params = table
                else:
                    params = {key(k): table[k] for k in order}
                want = fetch(db, hand)
                got = attempt(q.format, out, params)
                rows = fetch(db, got[1][0], bindable(o, got[1][1])) if got[0] == "ok" else None
                sh.transitions += 1
                sh.traces += 1
                sh.nontrivial += 1
                sh.state(template, n, tup[:2])
                if isinstance(want, str) and "too many" not in want or rows != want and not (isinstance(rows, str) and "too many" in rows):
                    sh.violation("%s->%s: SQLite reads the converted query with %d elements differently" % (i, o, n), ctor=ctor, sql=out, params=params, converted=show(got),
                                 hand=hand, expected=want, observed=rows, script=script(ctor, "format", out, params, "rows of " + hand))
                    sh.outcome("bad")
                else:
                    sh.outcome("grow %s" % type(rows).__name__)
    sh.sample("%s->%s up to %d elements" % (i, o, n))


def part_M(sh, i, o, ctor, q, db, b):
    ns = names(i, 3)
    a, bb, c = [spell(i, k) for k in ns]
    for n in range(1, b["rows"] + 1):
        zoo = list(itertools.product(range(len(ZOO)), repeat=2)) if n == 1 else [(x, (x * 7 + 3) % len(ZOO)) for x in range(len(ZOO))]
        if n == 3:
            zoo = zoo[::2]
        for pick in itertools.product(zoo, repeat=n):
            pairs = [(ZOO[x], ZOO[y]) for x, y in pick]
            db.execute("CREATE TABLE m (k INTEGER PRIMARY KEY, x, y, z)")
            try:
                if KIND[i] == ORDINAL:
                    ins = "INSERT INTO m (x, y, z) VALUES (%s, %s, %s)" % (a, bb, a)
                    rows = [[x, y, x] for x, y in pairs]
                else:
                    ins = "INSERT INTO m (x, y, z) VALUES (%s, %s, %s)" % (a, bb, a)
                    rows = [dict(zip(ns, p)) if KIND[i] == NAMED else list(p) for p in pairs]
                sh.transitions += 1
                sh.traces += 1
                sh.nontrivial += 1
                sh.state(pick)
                got = attempt(q.formatmany, ins, rows)
                obs = None
                if got[0] == "ok":
                    try:
                        db.executemany(got[1][0], [bindable(o, r) for r in got[1][1]])
                        obs = fetch(db, "SELECT x, y, z FROM m ORDER BY k")
                    except sqlite3.Error as e:
                        obs = repr(e)
                norm = lambda v: int(v) if isinstance(v, bool) else v
                want = [tuple((type(norm(v)).__name__, norm(v)) for v in (x, y, x)) for x, y in pairs]
                if obs != want:
                    sh.violation("%s->%s: executemany stores other rows" % (i, o), ctor=ctor, sql=ins, params=rows, converted=show(got), expected=want,
                                 observed=obs, script=script(ctor, "formatmany", ins, rows, repr(want)))
                    sh.outcome("bad")
                    continue
                # Update by key in reverse order of rows, with tuples of equal length in the condition.
                upd = "UPDATE m SET y = %s, z = 'up' WHERE k IN %s AND x IS %s" % (a, bb, c)
                prm = [(y, (k + 1, 99), x) for k, (x, y) in reversed(list(enumerate(pairs)))]
                rows = [dict(zip(ns, p)) if KIND[i] == NAMED else list(p) for p in prm]
                got = attempt(q.formatmany, upd, rows)
                obs = None
                sh.traces += 1
                if got[0] == "ok":
                    try:
                        db.executemany(got[1][0], [bindable(o, r) for r in got[1][1]])
                        obs = fetch(db, "SELECT x, y, z FROM m ORDER BY k")
                    except sqlite3.Error as e:
                        obs = repr(e)
                want = [(r[0], r[1], ("str", "up")) for r in want]
                if obs != want:
                    sh.violation("%s->%s: executemany updates other rows" % (i, o), ctor=ctor, sql=upd, params=rows, converted=show(got), expected=want,
                                 observed=obs, script=script(ctor, "formatmany", upd, rows, repr(want)))
                    sh.outcome("bad")
                else:
                    sh.outcome("stored")
            finally:
                db.execute("DROP TABLE m")
    sh.sample("%s->%s %s" % (i, o, ins))
