"""C08: a call's result never depends on earlier calls.

Every sequence of operations up to a depth, over a menu of 26 that share queries, parameter objects and instances (successful and
failing calls, single and many, str and bytes, other configurations of the same and of other styles, nested calls from the
caller's own containers), each sequence on a pristine copy of the package whose instances are created on first use. After every
operation the result is compared with the reference model, which has no memory.
 S  sequences to the bound for a set of pairs covering all nine converters;
 P  sequences of two for all 81 pairs;
 L  long runs: the same operation and many different queries (past any cache size), with a probe operation in between.
"""
import collections
import collections.abc
import functools
import gc
import itertools

from .. import compare, model, repo
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one operation of a history run through the real code and compared with the model; states are histories "
        "(prefixes of operation sequences) per pair; non-trivial: histories of at least two operations")
ASSUMPTIONS = ["a re-executed copy of the package's modules stands for a fresh process (the standard library's own caches, such as "
               "re's, are shared)"]
S_PAIRS = [("named", "pyformat"), ("named_oracle", "named"), ("named", "numeric"), ("pyformat", "qmark"), ("numeric", "named"),
           ("numeric_dollar", "numeric"), ("numeric", "format"), ("format", "named_oracle"), ("qmark", "numeric_dollar"),
           ("format", "qmark"), ("named_oracle", "qmark"), ("named_sqlserver", "named_sqlserver")]


def bounds(tier):
    q = tier == "quick"
    return dict(depth=3, depth_pairs=len(S_PAIRS) if q else 81, deeper=None if q else "depth 4 for 6 pairs over 12 operations",
                two_step_pairs=81, operations=len(OPS), long_runs=300 if q else 3000)


def items(tier):
    out = []
    for i, o in (S_PAIRS if tier == "quick" else PAIRS):
        out += [(i, o, "S", first) for first in range(len(OPS))]
    if tier != "quick":
        for i, o in S_PAIRS[:2] + S_PAIRS[2:10:2]:
            out += [(i, o, "D", first) for first in range(12)]
    for i, o in PAIRS:
        out.append((i, o, "P", None))
        if tier != "quick" or (i, o) in S_PAIRS[:6]:
            out.append((i, o, "V", None))
        out.append((i, o, "L", None))
        out.append((i, o, "X", None))
    return out


# Instances that differ in one option only, used on the same text one after the other.
STYLES = {"c1": dict(strip_comments=["--"]), "c2": dict(strip_comments=["#"]), "c3": dict(strip_comments=[("/*", "*/")]),
          "c4": dict(strip_comments=["#", "--"]), "c5": dict(strip_comments=["--", "#"]), "c6": dict(strip_comments=[("{", "}")]),
          "e1": dict(escape_char=True), "e2": dict(escape_char="!"), "e3": dict(escape_char="\\"), "e4": dict(),
          "x1": dict(expand_tuples=True), "x2": dict(expand_tuples=False)}
OTHER = {"named": "named_dollar", "named_dollar": "pyformat", "named_oracle": "named", "named_sqlserver": "named", "pyformat": "format",
         "numeric": "numeric_dollar", "numeric_dollar": "qmark", "qmark": "numeric", "format": "named"}


class Nest(collections.abc.Mapping):
    """A mapping that makes other calls while it is being read."""

    def __init__(self, d, hook):
        self.d, self.hook = d, hook

    def __getitem__(self, k):
        self.hook()
        return self.d[k]

    def __iter__(self):
        self.hook()
        return iter(self.d)

    def __len__(self):
        return len(self.d)


@functools.lru_cache(maxsize=4096)
def scanned(text, *args):
    return model.scan(text, *args)


@functools.lru_cache(maxsize=4096)
def stripped(text, styles):
    return model.strip(text, styles)


class Cfg(model.Cfg):
    """The model's reading of a text is worked out once per process (the lists are only read)."""

    def scan(self, text):
        return scanned(text, self.in_style, self.esc, self.out_percent)


class World:
    """One history's environment: a pristine package, instances made on first use, one long-lived parameter object."""

    def __init__(self, sh, i, o, pkg=None):
        self.sh, self.i, self.o = sh, i, o
        self.pkg = pkg or repo.fresh()
        self.inst = {}
        self.kind = KIND[i]
        self.shared = self.row([V("s0"), V("s1")])
        self.shared_map = {}
        self.history = []
        a, b = {NAMED: "ab", NUMERIC: "12", ORDINAL: "01"}[self.kind]
        self.a, self.b = spell(i, a), spell(i, b)
        if self.kind == ORDINAL:
            self.q1 = "SELECT %s , %s END" % (self.a, self.b)
            self.q2 = "SELECT %s - %s" % (self.b, self.a)
        else:
            self.q1 = "SELECT %s , %s , %s END" % (self.a, self.b, self.a)
            self.q2 = "SELECT %s - %s" % (self.b, self.a)
        intro = model.INTRO[i]
        self.q3 = "-- %s\nSELECT %s%s 100%% %s\n/* %s */\n" % (self.a, intro, intro, self.a, self.b)

    def get(self, name):
        """(instance, model configuration, constructor)"""
        if name not in self.inst:
            i, o, opts = self.i, self.o, {}
            if name == "B":
                opts = dict(expand_tuples=KIND[o] == NAMED, escape_char=True, strip_comments=True)
            elif name == "C":
                o = OTHER[o]
            elif name == "D":
                o, opts = o, dict(allow_out_quotes=True, strip_comments=["#", ("/*", "*/")], escape_char="!")
            elif name == "E":
                opts = dict(expand_tuples=True)
            elif name in STYLES:
                opts = STYLES[name]
            self.inst[name] = (self.pkg.SQLParams(i, o, **opts), Cfg(i, o, **opts), (i, o, opts))
        return self.inst[name]

    def row(self, vals):
        return dict(zip("ab", vals)) if self.kind == NAMED else list(vals)

    def fmt(self, name, sql, params, given=None):
        q, cfg, ctor = self.get(name)
        what = "after %r: format" % (self.history,)
        text = sql
        if cfg.comments:
            (text,) = stripped(sql, tuple(cfg.comments))
        # The model sees the query without its comments; the code sees it with them.
        Q = q if text is sql else _With(q, sql)
        return check_format(self.sh, Q, cfg, ctor, text, cfg.scan(text), params, what, given=given)

    def many(self, name, sql, rows, given=None):
        q, cfg, ctor = self.get(name)
        return check_many(self.sh, q, cfg, ctor, sql, rows, given, what="after %r: formatmany" % (self.history,))


class _With:
    def __init__(self, q, sql):
        self.q, self.sql = q, sql

    def format(self, sql, params):
        return self.q.format(self.sql, params)


class _Was:
    """Stands for an instance whose call has been made."""

    def __init__(self, got):
        self.got = got

    def format(self, sql, params):
        if self.got[0] == "err":
            raise self.got[1]
        return self.got[1]


def t(label, n):
    return tuple(V("%s.%d" % (label, k)) for k in range(n))


def op_plain(w):
    w.fmt("A", w.q1, w.row([V("x"), V("y")]))


def op_tuple2(w):
    w.fmt("E", w.q1, w.row([t("x", 2), V("y")]))


def op_tuple01(w):
    w.fmt("E", w.q1, w.row([t("x", 1), ()]))


def op_missing(w):
    w.fmt("A", w.q1, w.row([V("x")]))


def op_badtype(w):
    w.fmt("A", w.q1, "ab")


def op_many(w):
    w.many("E", w.q1, [w.row([t("p", 2), V("q")]), w.row([t("r", 2), V("s")])])


def op_many_fail(w):
    w.many("E", w.q1, [w.row([t("p", 2), V("q")]), w.row([V("r"), V("s")])])


def op_many_fail_first(w):
    w.many("A", w.q1, [w.row([V("p")]), w.row([V("r"), V("s")])])


def op_config_b(w):
    w.fmt("B", w.q1, w.row([t("x", 2), V("y")]))


def op_config_b_text(w):
    w.fmt("B", w.q3, w.row([V("x"), V("y")]))


def op_other_style(w):
    w.fmt("C", w.q1, w.row([V("x"), t("y", 3)]))


def op_a_text(w):
    w.fmt("A", w.q3, w.row([V("x"), V("y"), V("z")][:3 if w.kind == ORDINAL else 2]))


def op_config_d(w):
    w.fmt("D", w.q1, w.row([V("x"), V("y")]))


def op_bytes(w):
    q, cfg, ctor = w.get("A")
    params = w.row([V("x"), V("y")])
    got = attempt(q.format, w.q1.encode("latin1"), params)
    w.sh.traces += 1
    want = model.convert(cfg, w.q1, params)
    if not (got[0] == "ok" and isinstance(got[1][0], bytes) and
            compare.allowed(cfg, model.plan(cfg, cfg.scan(w.q1), params)[0], (got[1][0].decode("latin1"), got[1][1]), want)):
        w.sh.violation("after %r: format of bytes" % (w.history,), ctor=ctor, sql=w.q1, observed=show(got), expected=want)


def op_shared(w):
    """The same parameter object as before, with other contents."""
    n = len(w.history)
    if isinstance(w.shared, dict):
        w.shared["a"], w.shared["b"] = V("new%d" % n), t("new%d" % n, n % 3)
    else:
        w.shared[0], w.shared[1] = V("new%d" % n), t("new%d" % n, n % 3)
    w.fmt("E", w.q1, w.shared)
    w.many("E", w.q1, [w.shared, w.shared])


def op_shared_map(w):
    """A mapping of the caller, changed in place between the calls."""
    n = len(w.history)
    keys = "ab" if w.kind == NAMED else (1, 2) if w.kind == NUMERIC else (0, 1)
    for k, v in zip(keys, (t("new%d" % n, (n + 1) % 3), V("other%d" % n))):
        w.shared_map[k] = v
    w.fmt("E", w.q1, w.shared_map)
    w.many("E", w.q1, [w.shared_map])
    w.shared_map[keys[1]] = V("again%d" % n)
    w.fmt("E", w.q1, w.shared_map)


def op_temporary(w):
    """Parameters that exist during the call only: the next ones can get the same address."""
    keys = "ab" if w.kind == NAMED else (1, 2) if w.kind == NUMERIC else (0, 1)
    for n in range(2):
        w.fmt("A", w.q1, dict(zip(keys, (V("t%d" % n), V("u%d" % n)))))
        w.many("E", w.q1, [dict(zip(keys, (t("t%d" % n, n), V("u%d" % n))))])
        w.fmt("A", w.q1, w.row([V("w%d" % n), V("v%d" % n)]))


def op_other_query(w):
    w.fmt("A", w.q2, w.row([V("x"), V("y")]))


def op_nested(w):
    """A call while another call reads its parameters (same instance, other instance, failing)."""
    d = w.row([t("x", 2), V("y")])
    depth = [0]

    def hook():
        if depth[0] == 0:
            depth[0] = 1
            try:
                op_tuple01(w)
                op_other_query(w)
                op_missing(w)
            finally:
                depth[0] = 0
    given = Nest(d if isinstance(d, dict) else {k + (w.kind == NUMERIC): v for k, v in enumerate(d)}, hook)
    w.fmt("E", w.q1, d, given=given)


def op_nested_many(w):
    """Calls while another call draws its rows."""
    rows = [w.row([t("p%d" % r, 2), V("q%d" % r)]) for r in range(3)]

    def gen():
        for n, r in enumerate(rows):
            (op_plain, op_tuple01, op_many_fail)[n](w)
            yield r
            op_many(w)
    w.many("E", w.q1, rows, given=gen())


def op_comment_styles(w):
    """The same text through instances with different comment styles."""
    text = "-- one %s\n# two\n%s /* three */ { four }\n%s\n" % (w.a, w.a, w.b)
    for name in ("c1", "c2", "c3", "c4", "c5", "c6"):
        w.fmt(name, text, w.row([V("x"), V("y"), V("z")][:3 if w.kind == ORDINAL else 2]))


def op_escape_styles(w):
    """The same text through instances with different escape characters (errors included) and expansion settings."""
    intro = model.INTRO[w.i]
    for text in ("%s !%s %s" % (w.a, w.b, intro * 2), "\\%s %s" % (w.a, w.b)):
        for name in ("e1", "e2", "e3", "e4", "x1", "x2"):
            for x in (V("x"), t("x", 2)):
                w.fmt(name, text, w.row([x, V("y")]))
                w.many(name, text, [w.row([x, V("y")]), w.row([x, V("z")])])


def op_temporary_instances(w):
    """Instances and queries that exist during one call only: the next ones can get the same address."""
    text = "-- one %s\n# two\n%s /* three */\n%s !%s\n" % (w.a, w.a, w.b, w.b)
    n = len(model.scan(text, w.i)) + 2
    for k, name in enumerate(("c1", "c2", "e1", "e2", "e4", "x2", "c4")):
        w.inst.pop(name, None)
        extra = V("x"), t("y", 2), V("z")
        w.fmt(name, text + "/*%d*/" % k, w.row((extra * n)[:n if w.kind == ORDINAL else 2]))
        del w.inst[name]
        q, cfg, ctor = w.get("B")
        params = w.row((extra * n)[:n if w.kind == ORDINAL else 2])
        for got, tail in [(attempt(q.format, text + "SELECT %d%d" % (k, j), params), "SELECT %d%d" % (k, j)) for j in range(3)]:
            (shown,) = stripped(text + tail, tuple(cfg.comments))
            check_format(w.sh, _Was(got), cfg, ctor, shown, cfg.scan(shown), params, "after %r: format of temporary texts" % (w.history,))
        w.fmt("E", w.q1 + " %d" % k, w.row([V("x"), V("y")]))
        w.fmt("E", " ".join(["SELECT", "%d" % k, w.b, ",", w.a]), w.row([t("x", 1), V("y")]))


PAD = "SELECT 'abcdefghijklmnopqrstuvwxyz' AS x, " * 30


def op_similar_texts(w):
    """Long texts of one length that differ at one place only, and whose parameters stand at the same or at other places."""
    for k in "01":
        for text in ("%s %s %s" % (k, PAD, w.q1), "0 %s%s%s %s" % (PAD, k, PAD, w.q1), "%s %s %s" % (w.q1, PAD, k),
                     "%s%s %s%s" % (w.a, PAD, w.b, w.a) if k == "0" and w.kind != ORDINAL else "%s%s %s" % (w.a, PAD, w.b)):
            w.fmt("E", text, w.row([V("x"), V("y")]))
            w.fmt("B", text, w.row([t("x", 1), V("y")]))
            w.many("E", text, [w.row([t("x", 1), V("y")])])
    w.fmt("c4", "%s\n# 1\n%s" % (w.q1, PAD), w.row([V("x"), V("y")]))
    w.fmt("c4", "%s\n- 1\n%s" % (w.q1, PAD), w.row([V("x"), V("y")]))
    w.fmt("c4", "# %s\n%s\n%s" % (w.a, PAD, w.q1), w.row([V("x"), V("y")]))
    w.fmt("c4", "- %s\n%s\n%s" % (w.a, PAD, w.q1), w.row([V("x"), V("y"), V("z")][:3 if w.kind == ORDINAL else 2]))


def op_same_named_classes(w, turn=0):
    """Containers and values of different classes with one name, made on the spot."""
    keys = "ab" if w.kind == NAMED else (1, 2) if w.kind == NUMERIC else (0, 1)
    bases = [list, dict, tuple, collections.UserDict, collections.UserList, str]
    for base in bases[turn % 6:] + bases[:turn % 6]:
        cls = type("Row", (base,), {})
        d = dict(zip(keys, (V("x"), V("y"))))
        if base is str:
            given = cls("ab")
        elif issubclass(base, (dict, collections.UserDict)):
            given = cls(d)
        else:
            given = cls(list(d.values()))
        w.fmt("E", w.q1, given)
        w.many("E", w.q1, [w.row([V("x"), V("y")]), given])
        if base in (list, tuple, str):
            v = type("Row", (base,), {})("ab" if base is str else (V("e"), V("f")))
            w.fmt("E", w.q1, w.row([V("x"), v]))
            w.many("E", w.q1, [w.row([v, V("x")]), w.row([v, V("y")])])


def op_new_instance(w):
    """A new instance of the same configuration, used at once; the old ones stay."""
    w.inst.pop("E", None)
    w.fmt("E", w.q1, w.row([(), t("y", 2)]))


OPS = [op_tuple2, op_plain, op_tuple01, op_many, op_many_fail, op_missing, op_config_b, op_nested, op_nested_many, op_shared,
       op_config_b_text, op_bytes, op_other_style, op_a_text, op_config_d, op_badtype, op_many_fail_first, op_other_query,
       op_new_instance, op_shared_map, op_temporary, op_comment_styles, op_escape_styles,
       op_temporary_instances, op_similar_texts, op_same_named_classes]


def play(sh, i, o, seq):
    w = World(sh, i, o)
    for k in seq:
        OPS[k](w)
        w.history.append(OPS[k].__name__[3:])
        sh.transitions += 1
        sh.outcome(OPS[k].__name__[3:])


def run(item, sh, tier):
    i, o, part, first = item
    b = bounds(tier)
    if part in "SD":
        n, depth = (len(OPS), b["depth"]) if part == "S" else (12, 4)
        for rest in itertools.product(range(n), repeat=depth - 1):
            seq = (first,) + rest
            play(sh, i, o, seq)
            for k in range(1, depth + 1):
                sh.state(seq[:k])
            sh.nontrivial += 1
        sh.sample("%s->%s %s" % (i, o, " ; ".join(OPS[k].__name__[3:] for k in seq)))
    elif part == "P":
        for seq in itertools.product(range(len(OPS)), repeat=2):
            play(sh, i, o, seq)
            sh.state(seq)
            sh.nontrivial += 1
    elif part == "V":
        alike(sh, i, o)
    elif part == "X":
        cross(sh, i, o)
    else:
        long_runs(sh, i, o, b["long_runs"])


COUNTS = [1, 2, 3, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 300, 500, 501,
          511, 512, 513, 1000, 1001, 1023, 1024, 1025]


ALIKE = [dict(strip_comments=x) for x in (["--"], [("-", "-")], ["-", "-"], ["-"], ["/*", "*/"], [("/*", "*/")], ["/**/"], [("/**", "/")], [("/", "**/")], [("*/", "/*")], ["*/", "/*"],
                                          ["#", "--"], ["#--"], [("#", "--")], [("--", "#")], ["--#"], ("--",), ("#", "--"), [], None, True, ["--", ("/*", "*/")], [("/*", "*/"), "--"],
                                          ["--", "#", "//"], ["--", "//", "#"], [("#", "#")], ["# "], ["#", " "], [["/*", "*/"]], ["a"], ["A"], ["True"], ["None"])]
ALIKE += [dict(escape_char=x) for x in (True, "True", "!", "!!", "\\", "/", "", False, "None", "e", "E", ":", "%", "?", "$", "@", "[", "[[", ".")]
ALIKE += [dict(expand_tuples=x) for x in (True, False, None)] + [dict(allow_out_quotes=True), dict(allow_out_quotes=False)]
ALIKE += [dict(expand_tuples=True, escape_char="--"), dict(escape_char="#", strip_comments=["--"]), dict(escape_char="--", strip_comments=["#"]), dict(expand_tuples=False, strip_comments=True)]


def alike(sh, i, o):
    """Options that look alike when joined, printed, folded or compared: an instance of each after one of each other, on texts that tell them apart."""
    kind = KIND[i]
    a = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[kind])
    intro = model.INTRO[i]
    bodies = ["-- %s -\n%s" % (a, a), "/* %s */\n%s" % (a, a), "/** %s /\n%s */" % (a, a), "*/ %s /*\n%s" % (a, a), "# %s --\n# %s #\n%s" % (a, a, a), "#-- %s\n--# %s\n%s" % (a, a, a),
              "- %s -\n// %s\n%s" % (a, a, a), "a %s\nA %s\n %s" % (a, a, a), "True%s None%s" % (intro, intro)]
    bodies += ["%s%s %s" % (x, a, a) for x in ("!", "!!", "\\", "/", "e", "E", "True", "None", intro, ":", "%", "?", "$", "@", "[", ".", "#", "--")]
    n = 40
    params = {"a": (V("x"), V("y"))} if kind == NAMED else [(V("x"), V("y"))] + [V("z")] * n

    def use(pkg, opts):
        made = attempt(lambda: pkg.SQLParams(i, o, **opts))
        if made[0] == "err":
            return [type(made[1])]
        out = []
        for text in bodies:
            got = attempt(made[1].format, text, params)
            out.append(got[1] if got[0] == "ok" else type(got[1]))
            sh.traces += 1
        return out
    want = [use(repo.fresh(), opts) for opts in ALIKE]
    for x, first in enumerate(ALIKE):
        pkg = repo.fresh()
        use(pkg, first)
        for y in list(range(x + 1, len(ALIKE))) + list(range(x)):
            # The first instance of one configuration, then one of every other; each again after the next.
            got = use(pkg, ALIKE[y])
            sh.transitions += 1
            sh.nontrivial += 1
            sh.state("alike", x, y)
            if not (len(got) == len(want[y]) and all(_alike(g, w) for g, w in zip(got, want[y]))):
                bad = [(t, w, g) for t, w, g in zip(bodies, want[y], got) if not _alike(g, w)] or [("", want[y], got)]
                sh.violation("an instance depends on instances made before: %s->%s" % (i, o), earlier=[first] + ALIKE[x + 1:x + 3], options=ALIKE[y], sql=bad[0][0], expected=bad[0][1], observed=bad[0][2])
                return
    sh.sample("%s->%s %r after %r" % (i, o, ALIKE[y], first))


CROSS = [{}, dict(escape_char=True), dict(escape_char="!"), dict(escape_char="%"), dict(expand_tuples=True), dict(strip_comments=True), dict(allow_out_quotes=True)]


def cross(sh, i, o):
    """A first instance of this pair of styles, then one of each other pair and option set, on one text each that tells them apart."""
    def use(pkg, i, o, opts):
        kind = KIND[i]
        a = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[kind])
        intro = model.INTRO[i]
        made = attempt(lambda: pkg.SQLParams(i, o, **opts))
        if made[0] == "err":
            return type(made[1])
        sql = "%s %s%s %s%s !%s %% %%%% 5%%2 :a ? $1 @a #c\n-- %s\n/* %s */ %s" % (a, intro, intro, intro, a, a, a, a, a)
        sh.traces += 1
        got = attempt(made[1].format, sql, {"a": CROSS_VALUES[0]} if kind == NAMED else CROSS_VALUES)
        return got[1] if got[0] == "ok" else type(got[1])
    if not _crossed:
        _crossed.extend((c, use(repo.fresh(), *c)) for c in [(x, y, opts) for x, y in PAIRS for opts in CROSS if y == "named_oracle" or "allow_out_quotes" not in opts])
    for first in CROSS:
        pkg = repo.fresh()
        if o != "named_oracle" and "allow_out_quotes" in first:
            continue
        for y, (config, want) in enumerate([((i, o, first), None)] + _crossed):
            got = use(pkg, *config)
            sh.transitions += 1
            sh.nontrivial += 1
            sh.state("cross", y)
            if want is not None and not _alike(got, want):
                sh.violation("an instance depends on instances of other styles made before: %s->%s %r after %s->%s" % (config[0], config[1], config[2], i, o), earlier=first, expected=want, observed=got)
                return
    sh.sample("%r after %s->%s %r" % (config, i, o, first))


CROSS_VALUES = [(V("x"), V("y"))] + [V("z")] * 9
_crossed = []


def _alike(g, w):
    if isinstance(g, type) or isinstance(w, type):
        return g is w
    return g[0] == w[0] and compare.same_values(w[1], g[1])


def uniform(sh, i, o, n):
    """One instance sees calls of one kind only, so many times; then calls of every other kind."""
    def scalars(w):
        w.fmt("E", w.q1, w.row([V("x"), V("y")]))

    def many_scalars(w):
        w.many("E", w.q1, [w.row([V("x"), V("y")]), w.row([V("z"), V("v")])])

    def missing(w):
        w.fmt("E", w.q1, w.row([V("x")]))

    def text(w):
        w.fmt("E", w.q3, w.row([V("x"), t("y", 2), V("z")][:3 if w.kind == ORDINAL else 2]))

    probes = [scalars, op_tuple2, op_tuple01, many_scalars, op_many, missing, op_many_fail, text]
    for counts, top in ((COUNTS, n), ([10 * n], 10 * n)):
        for at, count in enumerate(c for c in counts if c <= top):
            for first in probes[:6] if count > 1 else ():
                w = World(sh, i, o, _pkg(i))
                q, cfg, _ = w.get("E")
                params = w.row([V("x"), V("y")] if first is scalars else [t("x", 2), V("y")] if first is op_tuple2 else [t("x", 1), ()])
                call, args = {"scalars": (q.format, (w.q1, params)), "op_tuple2": (q.format, (w.q1, params)), "op_tuple01": (q.format, (w.q1, params)),
                              "many_scalars": (q.formatmany, (w.q1, [w.row([V("x"), V("y")])] * 2)), "op_many": (q.formatmany, (w.q1, [params] * 2)),
                              "missing": (q.format, (w.q1, w.row([V("x")])))}[first.__name__]
                for _ in range(count - 1):
                    attempt(call, *args)
                sh.traces += count - 1
                w.history = ["%d calls like %s" % (count, first.__name__)]
                first(w)
                for p in probes[::-1] if at % 2 else probes:
                    p(w)
                sh.transitions += count
                sh.state("uniform", count, first.__name__)


def temporary_classes(sh, i, o, n):
    """Classes that are gone before the next ones are made, which can get the same addresses."""
    gc.collect()
    gc.freeze()
    try:
        w = World(sh, i, o)
        for k in range(n):
            w.history = ["%d rounds of temporary classes" % k]
            op_same_named_classes(w, k)
            gc.collect()
            sh.transitions += 1
    finally:
        gc.unfreeze()


_PKGS = {}


def _pkg(i):
    """One copy per process is enough where each history has an instance of its own."""
    if i not in _PKGS:
        _PKGS[i] = repo.fresh()
    return _PKGS[i]


def long_runs(sh, i, o, n):
    for k in range(len(OPS)):
        if OPS[k] is op_nested_many:
            continue
        w = World(sh, i, o)
        for r in range(n // 10):
            OPS[k](w)
            sh.transitions += 1
        w.history = [OPS[k].__name__[3:] + " x %d" % (n // 10)]
        op_tuple2(w)
        sh.state("same", k)
    # Many different queries on the same instances, then the first ones again.
    w = World(sh, i, o)
    q1, q2 = w.q1, w.q2
    for lap in range(2):
        for r in range(n):
            w.q1 = q1 + " /*%d*/" % (r * 7919 % n)
            op_tuple2(w) if (r + lap) % 2 else op_plain(w)
            sh.transitions += 1
        w.history = ["%d different queries" % n]
        w.q1, w.q2 = q1, q2
        op_tuple01(w)
        op_plain(w)
        op_many(w)
    sh.state("different", n)
    # Very many different queries through the bare call, then the first ones.
    w = World(sh, i, o)
    q, cfg, ctor = w.get("E")
    params = w.row([t("x", 2), V("y")])
    for r in range(7 * n):
        got = attempt(q.format, "%s /*%d*/" % (w.q1, r), params)
        sh.traces += 1
        sh.transitions += 1
        if got[0] != "ok" or not got[1][0].endswith(" /*%d*/" % r):
            sh.violation("format of the %dth different query" % r, ctor=ctor, sql="%s /*%d*/" % (w.q1, r), observed=show(got))
            break
    w.history = ["%d different queries" % (7 * n)]
    for r in list(range(20)) + [7 * n - 1]:
        w.fmt("E", "%s /*%d*/" % (w.q1, r), w.row([t("x", r % 3), V("y")]))
        w.many("E", "%s /*%d*/" % (w.q1, r), [w.row([V("y"), t("x", r % 3)])] * 2)
    # Many instances of different configurations at one time; then each of them again.
    w = World(sh, i, o, _pkg(i))
    made = []
    text = "-- one %s\n# two\n%s #c7 /* three */\n%s" % (w.a, w.a, w.b)
    for r in range(2 * n):
        opts = dict(expand_tuples=bool(r % 2), escape_char=[None, "!", "\\", "e%d" % r][r // 2 % 4], strip_comments=[None, ["#c%d" % r, "#"], ["--", ("#", "c%d" % (r % 9))]][r // 8 % 3])
        made.append(("m%d" % r, (w.pkg.SQLParams(i, o, **opts), Cfg(i, o, **opts), (i, o, opts))))
    w.history = ["%d instances" % (2 * n)]
    for lap in range(2):
        for r, (name, entry) in enumerate(made):
            w.inst = {name: entry}
            w.fmt(name, text, w.row([t("x", 1 + lap), V("y"), V("z")][:3 if w.kind == ORDINAL else 2]))
            sh.transitions += 1
    sh.state("instances", 2 * n)
    sh.nontrivial += 1
    temporary_classes(sh, i, o, 30 if n < 1000 else 300)
    uniform(sh, i, o, n)
    sh.sample("%s->%s %d different queries, then the first again" % (i, o, n))
