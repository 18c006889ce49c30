"""C03: escape sequences yield the escaped literal, and nothing else is changed by escaping.

 A  all strings up to a length over {introducer, parameter characters, escape characters, '%'} for every input style, every
    escape_char of a menu and all output styles;
 B  the same with longer strings for escape_char=True (runs of introducers around parameters);
 Z  a ladder of sizes: runs of introducers, numbers of escape sequences, lengths of escape strings and of texts;
 T  all sequences of up to L tokens {parameter, escaped introducer, introducer, doubled, other text}.
"""
import itertools

from .. import model, sqlctx
from ..common import *
from ..texts import *

LEVEL = "model_checking"
RULE = ("a trace is one query text under one escape setting run through the real format()/formatmany(); states are distinct "
        "segmentations by the model per configuration; non-trivial: the query has both a parameter and literal text")
ASSUMPTIONS = ["escape strings that contain the introducing character (other than that character itself) are not judged: "
               "their overlaps are undocumented"]
OFF = [None, False, ""]
ESCAPES = [None, False, "", True, "own", "\\", "!", "%", "^^", "e", ".", "{", "[", "|", "\u00a7", "\\\\", "(", "$", "::", "*", "a", "%%", "%s", "abc", "\\\\\\", "--", "\n", " ", "\u00a7\u00a7", "\u2192!", "\u00e9", "-]", "^a", "\U0001f600"]
CORE = {  # introducer, what a parameter needs, one neutral character
    "named": ":a", "named_dollar": "$a", "named_sqlserver": "@a", "named_oracle": ':a"', "numeric": ":1",
    "numeric_dollar": "$1", "format": "%s", "pyformat": "%(a)s", "qmark": "?",
}


def bounds(tier):
    q = tier == "quick"
    return dict(places=len(sqlctx.PLACES), sizes=SIZES if q else SIZES + [2049, 4096, 4097, 10001], escape_chars=[repr(e) for e in ESCAPES], string_length=5 if q else 6, runs_length=7 if q else 9,
                tokens_per_query=3 if q else 4, pairs=81)


SIZES = list(range(1, 35)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 1025]


def sizes(sh, i, o, sizes):
    intro = model.INTRO[i]
    p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[KIND[i]])
    for ci, esc in enumerate((True, "!", "\\", "~~", None)):
        opts = dict(escape_char=esc)
        cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
        e = cfg.esc or intro
        for n in sizes:
            texts = ["x" + e * n + p + " y", e * n + intro + " " + p, (e + intro) * n + p, (e + intro + " ") * n + p, (e + p + " , " + p + "\n") * n,
                     "x" * n + e + intro + "y" * n + p + "z" * n + e + p, p + " " * n + e + p + "\t" * n + p, (p + " " + e + intro + " ") * n, "%" * n + e + p]
            for s in texts:
                check_text(sh, q, cfg, ctor, (ci, n), s, many=n < 20, what="size %d" % n)
    for n in sizes:
        if n > 300:
            break
        for esc in ("!" * n, ("<esc>" * n)[:n], "." * n, ("a-" * n)[:n]):
            opts = dict(escape_char=esc)
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            for s in (esc + p, esc + esc + p, esc[:-1] + p, esc + " " + p, esc[1:] + esc + p, (esc + p + " ") * 3):
                check_text(sh, q, cfg, ctor, ("long", n), s, what="escape of %d characters" % n)
    sh.sample("%s->%s sizes up to %d" % (i, o, sizes[-1]))


def menu(style):
    intro = model.INTRO[style]
    out = []
    for n, e in enumerate(ESCAPES):
        if e == "own":
            e = intro
        if isinstance(e, str) and intro in e and e != intro:
            continue
        if e is not None and e is not False and e in out[3:]:
            continue
        out.append(e)
    return out


def items(tier):
    out = []
    for i, o in PAIRS:
        out.append((i, o, "A", None))
        out.append((i, o, "B", None))
        out.append((i, o, "T", None))
        out.append((i, o, "Z", None))
        out.append((i, o, "S", None))
    return out


def alphabet(style, esc):
    cs = CORE[style] + "%"
    if isinstance(esc, str):
        cs += esc
    if style == "qmark":
        cs += "x"
    return "".join(dict.fromkeys(cs))


def run(item, sh, tier):
    sh.twins = TWINS
    i, o, part, _ = item
    b = bounds(tier)
    intro = model.INTRO[i]
    if part == "A":
        for ci, esc in enumerate(menu(i)):
            opts = dict(escape_char=esc)
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            al = alphabet(i, esc)
            top = b["string_length"]
            if len(al) > 4:
                top -= 1
            if i == "pyformat":
                top = b["string_length"] - 1
            for n in range(top + 1):
                for s in strings(al, n):
                    check_text(sh, q, cfg, ctor, ci, s, many=n < 4)
        sh.sample("%s->%s escape_char=%r: all strings over %r up to %d characters" % (i, o, esc, al, top))
    elif part == "B":
        opts = dict(escape_char=True)
        cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
        p = {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[cfg.kind]
        rest = spell(i, p)[1:]
        # Words over {introducer, rest of a parameter, another character}.
        for n in range(b["runs_length"] + 1):
            for t in itertools.product((intro, rest or "y", "x" if i != "named_oracle" else '"'), repeat=n):
                check_text(sh, q, cfg, ctor, 0, "".join(t), many=n < 5)
        sh.sample("%s->%s runs %r" % (i, o, "".join(t)))
    elif part == "S":
        own = {NAMED: "b", NUMERIC: "2", ORDINAL: ""}[KIND[i]]
        p = spell(i, own)
        for ci, esc in enumerate((True, "\\", "!", "'", "--")):
            opts = dict(escape_char=esc)
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            for x in (p, cfg.esc + p, cfg.esc + intro + p, cfg.esc + p + " " + p):
                for t in sqlctx.alone(x):
                    check_text(sh, q, cfg, ctor, (ci, "S"), t, many=True)
            for a, z in sqlctx.PLACES:
                for t in (p + " " + a + cfg.esc + p + z + " " + p, cfg.esc + p + " " + a + p + z + " " + cfg.esc + p, a + cfg.esc + z + p, a + p + cfg.esc + z):
                    check_text(sh, q, cfg, ctor, (ci, "S"), t)
        sh.sample("%s->%s escape_char=%r at places in SQL" % (i, o, esc))
    elif part == "Z":
        sizes(sh, i, o, b["sizes"])
    else:
        for ci, esc in enumerate(menu(i)):
            opts = dict(escape_char=esc)
            cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
            e = cfg.esc or intro
            own = {NAMED: "b", NUMERIC: "2", ORDINAL: ""}[cfg.kind]
            p = spell(i, own)
            toks = [p, e + intro, e + p, intro, e, "%", " ", "x", "\n", "'", e * 2, intro * 3]
            toks = list(dict.fromkeys(toks))
            for n in range(1, b["tokens_per_query"] + 1):
                for t in itertools.product(toks, repeat=n):
                    check_text(sh, q, cfg, ctor, ci, "".join(t), many=n < 3)
        sh.sample("%s->%s escape_char=%r tokens %r" % (i, o, esc, toks))
