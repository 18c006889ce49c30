"""C16: Oracle's quoting and case rules for parameter names.

 F  all slot sequences up to L over spellings of two names in the query (case, quotes) times all spellings, absences and insertion
    orders of the keys, for every output style, quoting and tuple expansion;
 M  all combinations of spellings of the keys of up to 3 rows of formatmany, single values and tuples, one row without the name;
 N  longer names (mixed case, digits, underscores, accents) in every spelling against every spelling of the key;
 U  every character of Unicode that has case, in names of every spelling against keys of every spelling;
 B  keys that are nearly the name: a blank or another character before, after or inside, within or outside the quotes;
 K  all keys over {", a, A, blank} up to a length against quoted and unquoted names;
 Y  the size ladder, with every spelling pattern of the keys, and for output quoting;
 O  output quoting: every input style to every output style with allow_out_quotes in {absent, None, False, 0, True, 1}.
"""
import collections
import itertools
import sys
import types

from .. import compare, ladder, model
from ..common import *

LEVEL = "model_checking"
RULE = ("a trace is one (query spelling, key spellings) run through the real format()/formatmany() and compared with the model of "
        "Oracle's rules; states are distinct (query, keys) per configuration; non-trivial: query and key are spelled differently")
ASSUMPTIONS = ["mappings with two keys of the same meaning, keys that are not strings and keys with one unbalanced quote are not judged"]
SPELLINGS = ["a", "A", '"a"', '"A"', "b", '"B"']
# Meaning of a key -> its spellings.
KEYS = {"A": [None, "a", "A", '"A"'], "a": [None, '"a"'], "B": [None, "b", "B", '"B"']}
QUOTING = [{}, dict(allow_out_quotes=None), dict(allow_out_quotes=False), dict(allow_out_quotes=0), dict(allow_out_quotes=True), dict(allow_out_quotes=1)]


def bounds(tier):
    q = tier == "quick"
    return dict(slots=3 if q else 4, rows=3, spellings=len(SPELLINGS), names=len(names()), out_styles=9, key_length=5 if q else 7, cased_characters=len(cased()), sizes=ladder.COARSE if q else ladder.FINE)


def names():
    return ["ab", "aB", "AB", "Ab", "a_1", "A_1", "_a", "_A", "a\u00e9", "A\u00c9", "x9Y", "a__0_sqlp", "select", "I", "i", "a\u00f1b", "_", "_1"]


def items(tier):
    out = [("named_oracle", o, part) for o in STYLES for part in ("F0", "F1", "M", "N", "U", "B", "K", "Y")]
    out += [(i, o, "O") for i, o in PAIRS]
    out += [(i, "named_oracle", "Z") for i in STYLES]
    return out


def text(keys, style="named_oracle"):
    return "SELECT " + ", ".join(spell(style, k) for k in keys) + " END"


def value(shape, label):
    return V(label) if shape is None else tuple(V("%s.%d" % (label, j)) for j in range(shape))


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part = item
    b = bounds(tier)
    if part == "O":
        return part_O(sh, i, o)
    for ex in (False, True):
        for qu in out_quotes(o):
            opts = dict(expand_tuples=ex)
            if qu:
                opts["allow_out_quotes"] = True
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            if part in "UK" and (ex or qu) and tier == "quick" or part == "Z" and not qu:
                continue
            if part[0] == "F":
                part_F(sh, q, cfg, ctor, (ex, qu), b, int(part[1]))
            else:
                globals()["part_" + part](sh, q, cfg, ctor, (ex, qu), b)


def part_F(sh, q, cfg, ctor, ci, b, half):
    for n in range(1, b["slots"] + 1):
        for slots in itertools.product(SPELLINGS, repeat=n):
            if len(slots) % 2 != half and n < 3 or n >= 3 and SPELLINGS.index(slots[0]) % 2 != half:
                continue
            sql = text(slots)
            segs = cfg.scan(sql)
            for pick in itertools.product(*KEYS.values()):
                keys = [k for k in pick if k is not None]
                for order in itertools.permutations(keys):
                    if n >= 3 and order != tuple(keys):
                        continue
                    for shape in (None, 2) if cfg.expand else (None,):
                        params = {k: value(shape if k == order[0] else None, "v" + k) for k in order}
                        sh.transitions += 1
                        sh.state(ci, sql, order, shape)
                        if any(s not in keys for s in slots):
                            sh.nontrivial += 1
                        r = check_format(sh, q, cfg, ctor, sql, segs, params)
                        sh.outcome(r)
                        if n == 1:
                            sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, [params]))
                            raw = attempt(q.format, sql.encode(), params)
                            txt = attempt(q.format, sql, params)
                            sh.traces += 2
                            if raw[0] != txt[0] or raw[0] == "ok" and (raw[1][0].decode() != txt[1][0] or not compare.same_values(txt[1][1], raw[1][1])):
                                sh.violation("bytes and text differ", ctor=ctor, sql=sql, params=params, expected=show(txt), observed=show(raw))
    sh.sample("%s->%s %r keys %r" % (cfg.in_style, cfg.out_style, sql, order))


def part_M(sh, q, cfg, ctor, ci, b):
    rows_of = [t for t in itertools.product(["a", "A", '"A"'], ['"a"'], ["b", "B", '"B"'])]
    small = [("a", "b"), ("A", "B"), ('"A"', '"B"'), ("a", '"B"')]
    for slots in [("a",), ('"A"',), ('"a"',), ("a", '"a"'), ('"A"', "b"), ("b", "A", '"B"', "a")]:
        sql = text(slots)
        for n in (1, 2, 3):
            for pick in itertools.product(rows_of if n < 3 else rows_of[::2], repeat=n):
                for rev in (False, True):
                    for shape in (None, 0, 2) if cfg.expand and n < 3 else (2,):
                        rows = []
                        for r, (ka, kq, kb) in enumerate(pick):
                            d = {ka: value(shape, "r%dA" % r), kq: value(shape, "r%dq" % r), kb: value(None, "r%dB" % r)}
                            rows.append(dict(reversed(list(d.items()))) if rev and r % 2 else d)
                        sh.transitions += 1
                        sh.state(ci, sql, pick, rev, shape)
                        if len(set(pick)) > 1:
                            sh.nontrivial += 1
                        sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, rows))
        # One row lacks the name, or has it in a spelling of another meaning.
        for pick in itertools.product(small, repeat=2):
            for at in (0, 1):
                for repl in ([], ["aa"], ['"b"'], ['"a"', "b"], ['"a"', '"b"'], ["a"]):
                    rows = [{k: V("r%d%s" % (r, k)) for k in p + ('"a"',)} for r, p in enumerate(pick)]
                    rows[at] = {k: V("x" + k) for k in repl}
                    sh.transitions += 1
                    sh.nontrivial += 1
                    sh.state(ci, sql, pick, at, tuple(repl))
                    sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, rows))
    # Tuples of several lengths for names that differ by case.
    for n in (1, 2, 3, 4, 5, 9, 10, 11, 17, 33) if cfg.expand else ():
        for x, y in (("a", "A"), ("ab", "AB"), ("ab", "Ab"), ("a_1", "A_1"), ("a__0_sqlp", "A__0_SQLP")):
            for slots in (['"%s"' % x, '"%s"' % y], ['"%s"' % y, y.lower(), '"%s"' % x], [x, '"%s"' % x, '"%s"' % y]):
                sql = text(slots)
                found = list(dict.fromkeys(s[1] for s in cfg.scan(sql) if s[0] == "P"))
                for shapes in ((n, n), (n, None), (None, n), (n, n + 1)):
                    rows = [{'"%s"' % k: value(shapes[p % 2], "r%d%s" % (r, k)) for p, k in enumerate(found)} for r in range(2)]
                    sh.transitions += 1
                    sh.nontrivial += 1
                    sh.state(ci, sql, shapes)
                    sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, rows))
                    sh.outcome(check_format(sh, q, cfg, ctor, sql, cfg.scan(sql), rows[0]))
    # Other mapping classes in later rows.
    for wrap in (types.MappingProxyType, collections.UserDict, collections.OrderedDict, collections.ChainMap):
        rows = [{"a": V("r0")}, wrap({"A": V("r1")}), wrap({'"A"': V("r2")})]
        sh.outcome("many " + check_many(sh, q, cfg, ctor, text(["a"]), rows))
    sh.sample("%s->%s %r rows %r" % (cfg.in_style, cfg.out_style, sql, pick))


def spellings(name):
    out = []
    for s in (name, name.upper(), name.lower(), name.swapcase(), name.title()):
        for t in (s, '"%s"' % s):
            if t not in out:
                out.append(t)
    return out


def part_N(sh, q, cfg, ctor, ci, b):
    for name in names():
        for slot in spellings(name):
            for other in ([], ["zz"], ['"zz"', "q"]):
                sql = text([slot] + other[:1])
                segs = cfg.scan(sql)
                for key in spellings(name):
                    for first in (True, False):
                        d = {k: V("o" + k) for k in other}
                        params = dict({key: V("v")}, **d) if first else dict(d, **{key: V("v")})
                        if len({model.oracle_key(k) for k in params}) < len(params):
                            continue
                        sh.transitions += 1
                        sh.state(ci, sql, tuple(params))
                        sh.nontrivial += slot != key
                        sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, params))
                        sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, [params, params]))
    # Both cases of one name with different values.
    for name in names():
        lo, up = name.lower(), name.upper()
        if lo == up:
            continue
        for slots in itertools.product([lo, up, '"%s"' % lo, '"%s"' % up], repeat=2):
            sql = text(slots)
            for params in ({'"%s"' % lo: V("lo"), up: V("up")}, {lo: V("up"), '"%s"' % lo: V("lo")}, {'"%s"' % up: V("up"), '"%s"' % lo: V("lo")}):
                sh.transitions += 1
                sh.nontrivial += 1
                sh.state(ci, sql, tuple(params))
                sh.outcome(check_format(sh, q, cfg, ctor, sql, cfg.scan(sql), params))
    sh.sample("%s->%s %r %r" % (cfg.in_style, cfg.out_style, sql, list(params)))


_cased = []


def cased():
    if not _cased:
        for c in range(0x80, sys.maxunicode + 1):
            ch = chr(c)
            if ch.isalnum() and {ch.upper(), ch.lower(), ch.casefold(), ch.title(), ch.swapcase()} != {ch}:
                _cased.append("x" + ch)
    return _cased


def part_U(sh, q, cfg, ctor, ci, b):
    for name in cased():
        forms = []
        for s in (name, name.upper(), name.lower(), name.casefold(), name.upper().lower(), name.lower().upper(), name.casefold().upper(), name.title()):
            forms += [t for t in (s, '"%s"' % s) if t not in forms]
        for slot in (name, '"%s"' % name):
            sql = text([slot])
            segs = cfg.scan(sql)
            for key in forms:
                sh.transitions += 1
                sh.nontrivial += key != slot
                sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, {key: V("v")}))
            sh.state(ci, sql)
            rows = [{k: V("v%d" % n)} for n, k in enumerate(forms) if model.oracle_key(k) == segs[1][1]]
            sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, rows))
    sh.sample("%s->%s %r keys %r" % (cfg.in_style, cfg.out_style, sql, forms))


def part_K(sh, q, cfg, ctor, ci, b):
    keys = []
    for n in range(b["key_length"] + 1):
        for t in itertools.product('"aA ', repeat=n):
            k = "".join(t)
            if k and (k[0] == '"') != (k[-1] == '"') or k == '"':
                continue
            keys.append(k)
    for slot in ('"a"', "a", '"A"', '"aa"', "aa", '"ab"', "aB"):
        sql = text([slot])
        segs = cfg.scan(sql)
        good = '"%s"' % segs[1][1]
        for k in keys:
            sh.transitions += 1
            sh.nontrivial += '"' in k
            sh.state(ci, sql, k)
            sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, {k: V("v")}))
            if len(k) < 5:
                sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, [{good: V("g")}, {k: V("v")}]))
                if model.oracle_key(k) != model.oracle_key(good):
                    sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, {k: V("v"), good: V("g")}))
    sh.sample("%s->%s %r keys such as %r" % (cfg.in_style, cfg.out_style, sql, keys[-3:]))


NEARLY = list(" \t\n\r\x0b\x0c\0.:;,'`[]$#@%&-_0a") + ["\x1f", "\x85", "\xa0", "\xad", "\u0301", "\u200b", "\u2003", "\u2028", "\ufeff", "  ", '""', "\ud800", ":a"]


def part_B(sh, q, cfg, ctor, ci, b):
    for name in ("a", "ab", "Ab"):
        for slot in (name, '"%s"' % name):
            sql = text([slot])
            segs = cfg.scan(sql)
            good = '"%s"' % segs[1][1]
            for n, ch in enumerate(NEARLY):
                near = [ch, ch + name, name + ch, ch + name + ch, name[0] + ch + name[1:]]
                for k in near + ['"%s"' % k for k in near] + [k.upper() for k in near] + ['"%s"' % k.upper() for k in near] + [ch + '"%s"' % name + ch]:
                    if (k[0] == '"') != (k[-1] == '"') or k == '"':
                        continue
                    sh.transitions += 1
                    sh.nontrivial += 1
                    sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, {k: V("v")}))
                    if model.oracle_key(k) != model.oracle_key(good):
                        sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, {k: V("v"), good: V("g")}))
                        sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, {good: V("g"), k: V("v")}))
                    sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, [{good: V("g")}, {k: V("v")}]))
                sh.state(ci, sql, n)
    sh.sample("%s->%s %r keys %r" % (cfg.in_style, cfg.out_style, sql, k))


def part_Y(sh, q, cfg, ctor, ci, b):
    pats = [lambda n, k: k, lambda n, k: k.lower(), lambda n, k: k.title(), lambda n, k: '"%s"' % k, lambda n, k: (k, k.lower(), '"%s"' % k)[n % 3]]
    for case in ladder.cases("named_oracle", b["sizes"], cfg.expand, "PTDL"):
        for low in (False, True):
            sql = case.sql.lower() if low else case.sql
            segs = cfg.scan(sql)
            sets = []
            for r, pat in enumerate(pats):
                items = list(case.params("named_oracle", r).items())
                sets.append({pat(n, k.strip('"')): v for n, (k, v) in enumerate(items)})
            sets[1] = dict(reversed(list(sets[1].items())))
            for tag, params in enumerate(sets):
                sh.transitions += 1
                sh.nontrivial += 1
                sh.state(ci, case.tag, low, tag)
                sh.outcome(check_format(sh, q, cfg, ctor, sql, segs, params))
            if len(case.keys) < 35:
                sh.outcome("many " + check_many(sh, q, cfg, ctor, sql, sets))
    sh.sample("%s->%s %s" % (cfg.in_style, cfg.out_style, case.tag))


def part_Z(sh, q, cfg, ctor, ci, b):
    for case in ladder.cases(cfg.in_style, b["sizes"], cfg.expand, "PTDLX"):
        segs = cfg.scan(case.sql)
        rows = [case.params(cfg.in_style), case.params(cfg.in_style, 1)]
        sh.transitions += 1
        sh.nontrivial += 1
        sh.state(ci, case.tag)
        sh.outcome("quoted " + check_format(sh, q, cfg, ctor, case.sql, segs, rows[0]))
        sh.outcome("quoted many " + check_many(sh, q, cfg, ctor, case.sql, rows))
        got = attempt(q.format, case.sql, rows[0])
        if got[0] == "ok":
            added = got[1][0].count('"') - case.sql.count('"')
            want = 2 * sum(1 for t in model.plan(cfg, segs, rows[0])[0] if t[0] == "V")
            if added != want or any(k[0] != '"' or k[-1] != '"' for k in got[1][1]):
                sh.violation("%s->%s: %d quotes in the output, expected %d" % (ctor[0], ctor[1], added, want), ctor=ctor, sql=case.sql, params=rows[0],
                             observed=show(got), script=script(ctor, "format", case.sql, rows[0], "%d quotes" % want))
    sh.sample("%s->%s quoted, %s" % (cfg.in_style, cfg.out_style, case.tag))


def part_O(sh, i, o):
    names = {NAMED: ["a", "Ab", "_1"], NUMERIC: ["1", "2", "3"], ORDINAL: "012"}[KIND[i]]
    for ci, quoting in enumerate(QUOTING):
        for ex in (None, False, True):
            opts = dict(quoting, expand_tuples=ex)
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            forms = [names[:n] for n in (0, 1, 2, 3)] + ([[names[1], names[0], names[1]]] if KIND[i] != ORDINAL else [])
            if i == "named_oracle":
                forms += [['"a"'], ['"Ab"', "_1"], ["a", '"Ab"', '"A"']]
            for form in forms:
                sql = text(form, i) if form else "SELECT \"a\", ':\"b\"'"
                segs = cfg.scan(sql)
                for shape in (None, 0, 1, 2):
                    keys = [s[1] for s in segs if s[0] == "P"]
                    if KIND[i] == NAMED:
                        params = {('"%s"' % k if i == "named_oracle" else k): value(shape, "v%s" % k) for k in keys}
                    else:
                        params = [value(shape, "v%d" % n) for n in range(3)]
                    sh.transitions += 1
                    sh.nontrivial += cfg.quotes
                    sh.state(ci, sql, shape, ex)
                    sh.outcome("quotes=%s " % cfg.quotes + check_format(sh, q, cfg, ctor, sql, segs, params))
                    sh.outcome("quotes=%s many " % cfg.quotes + check_many(sh, q, cfg, ctor, sql, [params, params]))
                    got = attempt(q.format, sql, params)
                    if got[0] == "ok" and form:
                        added = got[1][0].count('"')
                        want = 2 * sum(1 for t in model.plan(cfg, segs, params)[0] if t[0] == "V") if cfg.quotes else 0
                        if added != want or isinstance(got[1][1], dict) and any((k[0] == k[-1] == '"') != cfg.quotes for k in got[1][1]):
                            sh.violation("%s->%s: %d quotes in the output, expected %d" % (i, o, added, want), ctor=ctor, sql=sql, params=params,
                                         observed=show(got), script=script(ctor, "format", sql, params, "%d quotes" % want))
    sh.sample("%s->%s %r %r" % (i, o, opts, sql))
