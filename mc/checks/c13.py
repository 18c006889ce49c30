"""C13: comment stripping removes exactly the comments that begin a line.

 W  all sequences of tokens {comment starts, ends, single-line starts, blank, tab, LF, CRLF, text, parameter} up to a length, for a
    menu of style lists in all orders, judged by an independent line-oriented model (which allows two readings of a single-line
    comment directly after a removed multiline one);
 N  the same with near misses of the delimiters: other case, one character less or more, full-width forms, escaped;
C  all strings over the characters of the default delimiters up to a length;
 P  all 81 pairs, both methods, str and bytes, on shorter token sequences: parameters inside removed comments need no value and count
    for nothing;
 O  the ways to say on and off;
 Y  the size ladder: counts and lengths of comments, indentations, blank lines and style lists.
"""
import itertools

from .. import compare, ladder, model
from ..common import *
from ..texts import fill, strings

LEVEL = "model_checking"
RULE = ("a trace is one query text under one list of comment styles run through the real format() or formatmany(); states are distinct "
        "(style list, stripped text); non-trivial: stripping changes the text")
ASSUMPTIONS = ["lists in which one comment start is a prefix of another multiline start are outside the property"]
M, S = ("/*", "*/"), "--"
LISTS = [[M, S], [S, M], [S], [M], ["#"], ["#", S], ["#", S, M], [S, M, "#"], [("{-", "-}"), S], [S, ("{-", "-}")], ["//"], [("(*", "*)")],
         [("<!--", "-->"), S], [("%", "%")], ["."], ["%s"], [("--[[", "]]")], [M, ("(*", "*)"), S], [("(*", "*)"), M], ["REM "], [("#|", "|#"), ";"],
         [("'''", "'''")], [[r"/*", r"*/"], S], ["\\"], ["^", "$"], [("*", "*")]]


def bounds(tier):
    q = tier == "quick"
    return dict(style_lists=len(LISTS) + len(LETTERS), tokens=6 if q else 7, default_characters=8 if q else 10, pairs=81, tokens_per_pair=3 if q else 4)


def items(tier):
    out = []
    for n in range(len(LISTS)):
        for first in range(len(tokens(LISTS[n]))):
            out.append(("W", n, first))
    out += [("N", n, 0) for n in range(len(LISTS) + len(LETTERS))]
    out += [("C", n, c) for n in (0, 1) for c in "/*-\n x"]
    out += [("P", i, o) for i, o in PAIRS]
    out.append(("O", 0, 0))
    out += [("Y", n, k) for n in range(len(LONG)) for k in range(len(YPAIRS))]
    return out


MANY = ["--", "#", ";", "//", "rem ", "!", "~~", "\\", M, ("{", "}"), ("<!--", "-->"), ("(*", "*)"), ("begin", "end"), ("[[", "]]")]
LONG = [[S], [M], [M, S], ["#", S, M], MANY, MANY[::-1]]
YPAIRS = [("qmark", "numeric"), ("named", "format"), ("numeric_dollar", "named_sqlserver"), ("pyformat", "qmark")]


LETTERS = [["rem"], ["REM", M], [("Begin", "End")], ["\u00e9"], ["\u00df", ("\u00ab", "\u00bb")], [("a", "A")], ["1"], ["--x"], ["!!!"], ["\u4e00"], [("/**", "**/")], [("--", "--")],
           ["-", "--"], [("/*", "*/"), ("/**", "**/")], ["[a-z]"], ["(?i)x"], ["x*"], ["a|b"], ["{2}"], ["$"], ["\\s"], ["# "], [("\n", ";")], [("x\ny", "y\nx")]]


def near(styles):
    out = []
    for s in styles:
        for x in ([s] if isinstance(s, str) else list(s)):
            for y in (x, x.swapcase(), x.lower(), x.upper(), x[:-1], x[1:], x + x, x[0] + " " + x[1:], "\\" + x, "".join(chr(ord(c) + 0xfee0) if "!" <= c <= "~" else c for c in x), x[::-1]):
                if y and y not in out and "?" not in y:
                    out.append(y)
    return out


def long_texts(style, p, n, nl):
    """Texts of size n about one comment style."""
    if isinstance(style, str):
        c = lambda body: style + body
    else:
        c = lambda body: style[0] + body + style[1]
    yield (c(" " + p) + nl) * n + p
    yield (" " + c("") + nl + p + " x" + nl) * n
    yield (p + nl) * n + c(p)
    yield c("x" * n) + nl + p
    yield c(("x " + p) * n) + nl + p
    yield " " * n + c("x") + nl + "\t" * n + p
    yield "\t " * n + p + " " + c("x") + nl
    yield nl * n + c("x") + nl * n + p + nl * n
    yield (p + " " + c(p) + nl) * n
    yield c("a") + nl + "x" * n + nl + c("b") + nl + p
    if not isinstance(style, str):
        yield "\t" + c((p + nl) * n) + nl + p
        yield style[0] + (p + nl) * n
        yield c(style[0] * n) + nl + p + nl + c("")
        yield "x" + c(nl * n + p) + nl + p


def tokens(styles, param="?"):
    toks = ["\n", param, " "]
    for s in styles:
        for x in ([s] if isinstance(s, str) else list(s)):
            if x not in toks:
                toks.append(x)
    toks += ["\r\n", "x", "\t", "\r", "\x0b", "\u00a0"]
    return toks


def one(sh, q, cfg, ctor, ci, text, styles, method="format", raw=None):
    results = model.strip(text, styles)
    sh.transitions += 1
    options = [(r, cfg.scan(r)) for r in results]
    params = fill(cfg, max((s for _, s in options), key=len))
    if len(options) > 1:
        sh.add("two_readings")
        if cfg.kind != ORDINAL:
            for _, s in options:
                p = fill(cfg, s)
                if len(p) > len(params):
                    params = p
    elif cfg.kind == ORDINAL:
        params = params[:-1]        # exactly enough: a parameter of a removed comment would have no value
    got = attempt(getattr(q, method), text if raw is None else raw, params if method == "format" else [params])
    sh.traces += 1
    sh.state(ci, min(results))
    if results != {text}:
        sh.nontrivial += 1
    if got[0] == "ok":
        sql, vals = got[1][0], got[1][1] if method == "format" else got[1][1][0]
        if raw is not None:
            sql = sql.decode("latin1")
        for r, segs in options:
            if compare.allowed(cfg, model.plan(cfg, segs, params)[0], (sql, vals)):
                sh.outcome("stripped" if r != text else "kept")
                return
    sh.violation("%s->%s %s comment stripping with %r" % (ctor[0], ctor[1], method, styles), ctor=ctor, sql=text, params=params,
                 expected=sorted(results), observed=show(got), script=script(ctor, method, text if raw is None else raw,
                 params if method == "format" else [params], "one of %r (parameters converted)" % sorted(results)))


def run(item, sh, tier):
    part = item[0]
    b = bounds(tier)
    if part == "W":
        styles = LISTS[item[1]]
        toks = tokens(styles)
        opts = dict(strip_comments=styles)
        i, o = ("qmark", "numeric")
        cfg, q, ctor = Cfg(i, o), make(i, o, **opts), (i, o, opts)
        first = toks[item[2]]
        top = b["tokens"] - (len(toks) > 10) - (len(toks) > 12) - (tier == "quick" and len(toks) > 9)
        for n in range(top):
            for t in itertools.product(toks[:11] if n == top - 1 else toks, repeat=n):
                one(sh, q, cfg, ctor, item[1], first + "".join(t), styles)
                if n < top - 1:
                    one(sh, q, cfg, ctor, item[1], first + "".join(t), styles, "formatmany")
        if item[2] == 0:
            one(sh, q, cfg, ctor, item[1], "", styles)
        sh.sample("%r %r" % (styles, first + "".join(t)))
    elif part == "N":
        styles = (LISTS + LETTERS)[item[1]]
        opts = dict(strip_comments=styles)
        cfg, q, ctor = Cfg("qmark", "numeric"), make("qmark", "numeric", **opts), ("qmark", "numeric", opts)
        toks = near(styles)
        for lead in ("", " ", "x\n", "? ", "\t\t", "x\r\n ", "x\u2028", "x\x85", "x\x0c", "x\r", "x\x1c", "x\x0b", "\ufeff"):
            for a in toks:
                for mid in ("", " ? ", "\n", "x\n ", "\r\n", "y?", "\u2028?", "\x85 ?", "\x0c?", "\r?"):
                    for b_ in toks + [""]:
                        for tail in ("", "\n", " ?", "\n?", "\r\n\n? "):
                            one(sh, q, cfg, ctor, item[1], lead + a + mid + b_ + tail, styles)
                            if mid == "" or tail == "\n":
                                one(sh, q, cfg, ctor, item[1], lead + a + mid + b_ + tail, styles, "formatmany")
        sh.sample("%r near misses %r" % (styles, toks[:12]))
    elif part == "C":
        styles = LISTS[item[1]]
        opts = dict(strip_comments=styles if item[1] else True)
        cfg, q, ctor = Cfg("qmark", "qmark"), make("qmark", "qmark", **opts), ("qmark", "qmark", opts)
        for n in range(1, b["default_characters"] + 1 - (item[1] > 0)):
            for s in strings("/*-\n x"[:6 if n < 8 else 4], n, item[2]):
                one(sh, q, cfg, ctor, item[1], s, styles)
        sh.sample("%r" % s)
    elif part == "P":
        _, i, o = item
        p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[KIND[i]])
        p2 = spell(i, {NAMED: "b", NUMERIC: "2", ORDINAL: ""}[KIND[i]])
        for ci, (given, styles) in enumerate([(True, model.DEFAULT_COMMENTS), (["#", S, M], ["#", S, M]), ((M,), [M])]):
            opts = dict(strip_comments=given)
            cfg, q, ctor = Cfg(i, o), make(i, o, **opts), (i, o, opts)
            toks = ["\n", p, p2, "--", "/*", "*/", "#", " ", "\r\n", "'"]
            for n in range(1, b["tokens_per_pair"] + 1):
                for t in itertools.product(toks, repeat=n):
                    text = "".join(t)
                    one(sh, q, cfg, ctor, ci, text, styles)
                    one(sh, q, cfg, ctor, ci, text, styles, "formatmany")
            for text in ("-- %s\n%s" % (p2, p), "/* %s\n%s */\n%s" % (p, p2, p2), "%s -- %s\n" % (p, p2), "%s /* %s */ %s" % (p, p2, p),
                         "/* %s\n%s" % (p, p2), "-- %s\n/* %s */\n -- %s\n" % (p, p, p2), "-- %s" % p, "\t /* %s */ %s -- x\n-- %s" % (p2, p, p2)):
                one(sh, q, cfg, ctor, ci, text, styles)
                one(sh, q, cfg, ctor, ci, text, styles, "formatmany")
                one(sh, q, cfg, ctor, ci, text, styles, "format", text.encode())
                one(sh, q, cfg, ctor, ci, text, styles, "formatmany", text.encode())
        sh.sample("%s->%s %r" % (i, o, text))
    elif part == "Y":
        styles = LONG[item[1]]
        i, o = YPAIRS[item[2]]
        opts = dict(strip_comments=styles)
        cfg, q, ctor = Cfg(i, o), make(i, o, **opts), (i, o, opts)
        p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[KIND[i]])
        for n in [1, 2] + (ladder.MIDDLE if tier == "quick" else ladder.DEEP[:-3]):
            if len(styles) > 4 and n > 40 and tier == "quick":
                continue
            for style in styles:
                for nl in ("\n", "\r\n"):
                    for text in long_texts(style, p, n, nl):
                        one(sh, q, cfg, ctor, (item[1], n), text, styles)
                        if n < 130:
                            one(sh, q, cfg, ctor, (item[1], n), text, styles, "formatmany", text.encode())
        sh.sample("%s->%s %r up to %d" % (i, o, styles, n))
    else:
        text = "-- ?\n?\n/* ? */\n# ?\n?"
        for i, o in PAIRS:
            p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[KIND[i]])
            text = "-- %s\n%s\n/* %s */\n# %s\n%s" % (p, p, p, p, p)
            for given, styles in [(None, []), (False, []), ([], []), ((), []), (True, model.DEFAULT_COMMENTS), (("--",), ["--"]),
                                  ([["/*", "*/"]], [M]), (["#"], ["#"]), ((M, "--", "#"), [M, "--", "#"])]:
                opts = dict(strip_comments=given)
                one(sh, make(i, o, **opts), Cfg(i, o), (i, o, opts), repr(given), text, styles)
        sh.sample("%r" % text)
