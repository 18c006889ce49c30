"""C02: with escaping off, exactly the documented parameters are replaced and all other text is kept.

 A  all strings up to a length over an alphabet chosen per input style, for all 81 pairs;
 B  longer strings for one output style of each kind and both '%' output styles;
 T  all sequences of up to L tokens (own parameters, doubled introducers, every other style's parameters, casts, quotes,
    comments, line breaks, braces, backslashes, ...), for all 81 pairs;
 S  places in SQL (mc/sqlctx.py: statements, operators, literals, comments, blocks ...): alone, before and after other parameters, in each
    other, for all 81 pairs;
 U  every Unicode code point before, after and inside a parameter.
"""
import itertools

from .. import model, sqlctx
from ..common import *
from ..texts import *

LEVEL = "model_checking"
RULE = ("a trace is one query text run through the real format() or formatmany(); states are distinct segmentations of the "
        "query by the model per configuration; non-trivial: the query has both a parameter and literal text")
ASSUMPTIONS = ["texts longer than the bounds are scanned no differently than the texts explored"]
SIDE = ["named_sqlserver", "numeric_dollar", "qmark", "format", "pyformat"]


def bounds(tier):
    q = tier == "quick"
    return dict(huge=HUGE if q else HUGE + [2 ** 20, 2 ** 22], sizes=[*range(1, 40), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097] + ([] if q else [10000, 65536, 100001]), all_pairs_string_length=5 if q else 6, side_string_length=6 if q else 7, tokens_per_query=2 if q else 3, places=len(sqlctx.PLACES),
                code_points="0-0x33ff, 0xfe00-0xffff, 0x1d7c0-0x1d7ff" if q else "0-0x10ffff", pairs=81)


HUGE = [8192, 10000, 16384, 32768, 65536, 100000, 131072]


def items(tier):
    b = bounds(tier)
    out = []
    for i, o in PAIRS:
        out.append((i, o, "A", ""))
        out.append((i, o, "T", ""))
        out.append((i, o, "Z", ""))
        out.append((i, o, "S", ""))
        if o in SIDE:
            for n in range(b["all_pairs_string_length"] + 1, b["side_string_length"] + 1):
                out += [(i, o, "B%d" % n, c) for c in ALPHABET[i]]
        if o in ("named_oracle", "numeric", "format"):
            out.append((i, o, "U", ""))
    return out


def tokens(style):
    own = {NAMED: ["a", "b1"], NUMERIC: ["1", "2"], ORDINAL: [""]}[KIND[style]]
    toks = [spell(style, k) for k in own]
    if style == "named_oracle":
        toks.append(':"a"')
    intro = INTRO_OF[style]
    toks += [intro, intro * 2, intro * 3]
    for other in STYLES:
        if other != style:
            t = spell(other, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[KIND[other]])
            if t not in toks:
                toks.append(t)
    toks += ["::int", "@@x", "$$", "'", '"', "`", "--", "/*", "*/", "\n", "\r\n", "\t", "\\", "\\1", "\\g<0>", "{}", "{param}",
             "%%", "%d", "%(a)", "%(a)d", "%(a s", "10:30:05", "a", "_", "0", "\u00e9", "\x00", "(", ")", ",", ";", "=", " "]
    return list(dict.fromkeys(toks))


INTRO_OF = model.INTRO


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part, prefix = item
    b = bounds(tier)
    cfg = Cfg(i, o)
    q = make(i, o)
    ctor = (i, o, {})
    if part == "A":
        for n in range(b["all_pairs_string_length"] + 1):
            for s in strings(ALPHABET[i], n):
                check_text(sh, q, cfg, ctor, 0, s, many=n < 5)
        sh.sample("%s->%s all strings over %r up to %d characters" % (i, o, ALPHABET[i], n))
    elif part[0] == "B":
        for s in strings(ALPHABET[i], int(part[1:]), prefix):
            check_text(sh, q, cfg, ctor, 0, s)
        sh.sample("%s->%s %r" % (i, o, s))
    elif part == "T":
        toks = tokens(i)
        for n in range(1, b["tokens_per_query"] + 1):
            for t in itertools.product(toks, repeat=n):
                check_text(sh, q, cfg, ctor, 0, "".join(t), many=n < 2)
        own = toks[0]
        for t in itertools.product(toks, repeat=2):
            check_text(sh, q, cfg, ctor, 0, t[0] + own + t[1])
            check_text(sh, q, cfg, ctor, 0, own + t[0] + t[1] + own)
        sh.sample("%s->%s tokens %r" % (i, o, toks))
    elif part == "S":
        first, second = [spell(i, k) for k in {NAMED: "ab", NUMERIC: "12", ORDINAL: "  "}[cfg.kind]]
        for p in (first, "x" + first, first + second, ":" + first) if i != "qmark" else (first,):
            for t in sqlctx.alone(p):
                check_text(sh, q, cfg, ctor, 4, t, many=True)
        for t in sqlctx.around(first):
            check_text(sh, q, cfg, ctor, 4, t, many=tier != "quick")
        for t in sqlctx.nested(first):
            check_text(sh, q, cfg, ctor, 4, t)
        sh.sample("%s->%s %r" % (i, o, t))
    elif part == "Z":
        sizes(sh, q, cfg, ctor, b["sizes"])
        huge(sh, q, cfg, ctor, b["huge"])
    else:
        unicode_blocks(sh, q, cfg, ctor, tier)


def sizes(sh, q, cfg, ctor, ladder):
    """Long names, long numbers, long literal texts, many parameters."""
    style, kind = cfg.in_style, cfg.kind
    for n in ladder:
        texts = []
        if kind == NAMED:
            for name in ("a" * n, "_" + "b1" * (n // 2), "N" * n + "9"):
                texts.append("x " + spell(style, name) + " y " + spell(style, name + "z"))
        elif kind == NUMERIC and n < 400:
            texts += ["x " + spell(style, "0" * (n - 1) + "2") + " y", "x " + spell(style, "1" * n) + " y"]
        p = spell(style, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[kind])
        for filler in ("x", " ", "'", "\n", "ab ", "-- \n", INTRO_OF[style] * 2, "%", "\u00e9", "\u4e00"):
            texts += [filler * n + " " + p + " " + filler * n, p + filler * n if filler[0] not in "xa\u00e9\u4e00%" + INTRO_OF[style] else filler * n]
        texts.append((p + " , ") * n)
        for t in texts:
            check_text(sh, q, cfg, ctor, 2, t, many=n < 40, what="size %d" % n)


def huge(sh, q, cfg, ctor, ends):
    """Parameters on both sides of, and across, the positions where long texts are apt to be cut."""
    style = cfg.in_style
    p = spell(style, {NAMED: "abc", NUMERIC: "12", ORDINAL: ""}[cfg.kind])
    params = None
    for end in ends:
        for back in range(len(p) + 2):
            t = "x" * (end - back - 1) + " " + p + " " + p + "\n"
            segs = [("L", t[:end - back])] + [(s[0], *s[1:]) for s in cfg.scan(t[end - back:])]
            if params is None:
                params = fill(cfg, segs)
            check_format(sh, q, cfg, ctor, t, segs, params, what="text of %d characters" % end)
        check_many(sh, q, cfg, ctor, t, [params], what="text of %d characters" % end)
        sh.transitions += len(p) + 2
        sh.state("huge", end)
        sh.nontrivial += 1


def unicode_blocks(sh, q, cfg, ctor, tier):
    style = cfg.in_style
    intro = INTRO_OF[style]
    key = {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[cfg.kind]
    p = spell(style, key)
    if tier == "quick":
        cps = itertools.chain(range(0x3400), range(0xfe00, 0x10000), range(0x1d7c0, 0x1d800))
    else:
        cps = range(0x110000)
    cps = list(cps)
    for n in range(0, len(cps), 64):
        text = []
        for cp in cps[n:n + 64]:
            c = chr(cp)
            if style == "pyformat":
                t = "%s|%s%s|%s%s|%%(a%s)s|%%(%sa)s" % (c, p, c, c, p, c, c)
            elif style == "named_oracle":
                t = '%s|%s%s|%s%s|:"a%s"|:"%sa"|:%sa' % (c, p, c, c, p, c, c, c)
            else:
                t = "%s|%s%s|%s%s|%s%s%s" % (c, p, c, c, p, intro, c, key)
                if not (cfg.kind == NUMERIC and c.isdecimal() and int(c) == 0):
                    t += "|%s%s" % (intro, c)
            text.append(t)
        r = check_text(sh, q, cfg, ctor, 1, "\n".join(text), what="code points %#x.." % cps[n])
        assert r != "raises"
