"""C12: byte queries behave as their Latin-1 text, byte for byte.

 A  all byte strings up to a length over an alphabet per style that mixes parameter syntax with bytes above 0x7f, for all 81 pairs
    and several option sets;
 E  all pairs of tokens that text decoders, editors and protocols treat specially (byte order marks, NULs, multi-byte characters,
    line ends, escapes) before and after a parameter, and the size ladder;
 B  each of the 256 byte values before, inside, after and apart from parameters, in escapes and in comments, for all pairs, options
    and both methods, and all pairs of byte values around a parameter;
Oracle: the same instance's result for the Latin-1 decoding (itself judged by C01-C07) and the model.
"""
import itertools

from .. import compare, ladder, model
from ..common import *
from ..texts import CORE_BYTES, fill, strings

LEVEL = "model_checking"
RULE = ("a trace is one byte query run next to its Latin-1 text through the real format()/formatmany(); states are distinct "
        "(configuration, segmentation); non-trivial: the query contains a byte above 0x7f")
ASSUMPTIONS = []


def bounds(tier):
    q = tier == "quick"
    return dict(special_tokens=len(SPECIAL), ladder="sizes up to 1200, texts up to 10001", length=5 if q else 6, byte_pairs="all 65536 for 18 pairs" if not q else "high x syntax bytes", pairs=81)


def options(i, o):
    out = [{}, dict(escape_char=True, strip_comments=True)]
    out.append(dict(escape_char="\u00a7", strip_comments=["#", ("\u00ab", "\u00bb")], expand_tuples=True))
    if o == "named_oracle":
        out.append(dict(allow_out_quotes=True))
    return out


def items(tier):
    return [(i, o, n) for i, o in PAIRS for n in range(len(options(i, o)))]


SPECIAL = [b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0", b"\0\0\0", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\x80", b"\xa0",
           b"\x85", b"\x1a", b"\x04", b"\n", b"\r\n", b"\r", b"\n\n ", b" ", b"\t", b"\x0b\x0c", b"\x1c\x1d", b"\xc2\xa0", b";", b";;\n", b"'", b"\\x41", b"\\u00e9", b"\\",
           b"&eacute;", b"=E9", b"-- coding: utf-8\n", b"+AGE-", b"\x1b$B", b"\xed\xa0\x80", b"\xc0\x80", b"\xad", b"\x7f", b"\x08", b"b'", b"\xdf\xff", b"\xb5"]


SPECIAL_LINES = [b"\r\n", b"\r", b"\n", b"\0", b"\xc3\xa9", b"\xff", b"\x1a"]
LONG = [200, 600, 1500, 9000]
LONG_DEEP = [100, 200, 300, 600, 1100, 1500, 2500, 5000, 9000, 17000, 40000, 70000]

FILL = object()


class Text(str):
    pass


class Raw(bytes):
    pass


def compare_calls(sh, q, cfg, ctor, ci, raw, many=False, params=FILL):
    text = raw.decode("latin1")
    shown = text
    if cfg.comments:
        shown = min(model.strip(text, cfg.comments), key=len)
    segs = cfg.scan(shown)
    if params is FILL:
        params = fill(cfg, segs)
        for p in list(params if isinstance(params, dict) else range(len(params)))[:1]:
            params[p] = (V("t0"), V("t1"))
    sh.transitions += 1
    if any(c > 127 for c in raw):
        sh.nontrivial += 1
    sh.state(ci, tuple(s[:2] for s in segs))
    for method, args in ((("format", params), ("formatmany", [params, params])) if many else (("format", params),)):
        s = attempt(getattr(q, method), text, args)
        b = attempt(getattr(q, method), raw, args)
        sh.traces += 1
        if s[0] == "err":
            if b[0] == "err" and type(b[1]) is type(s[1]):
                sh.outcome("raises " + type(s[1]).__name__)
                continue
        elif b[0] == "ok":
            if type(s[1][0]) is str and type(b[1][0]) is bytes and b[1][0].decode("latin1") == s[1][0]:
                rows = [(s[1][1], b[1][1])] if method == "format" else list(zip(s[1][1], b[1][1]))
                if all(compare.same_values(x, y) for x, y in rows) and (method == "format" or len(b[1][1]) == len(s[1][1])):
                    sh.outcome("same")
                    continue
        known = None
        if isinstance(b[1], UnicodeEncodeError) and cfg.in_style == "named_oracle" and cfg.out_kind == NAMED and s[0] == "ok" and \
                all(ord(c) < 256 or ("\u0178" == c and b"\xff" in raw) or ("\u039c" == c and b"\xb5" in raw) for c in s[1][0]):
            known = "upper-outside-latin1"
        sh.violation("%s->%s %s of bytes differs from its Latin-1 text" % (ctor[0], ctor[1], method), known=known, ctor=ctor, sql=raw,
                     params=params, expected=show(s), observed=show(b), script=script(ctor, method, raw, args, show(s)))


def keyed(sh, q, cfg, ctor, p):
    """Containers and values of text and bytes: all subsets of keys and their orders, values of both types."""
    raw = b"SELECT %s , %s \xe9" % (p, p)
    k = {NAMED: "a", NUMERIC: "1", ORDINAL: "0"}[cfg.kind]
    keys = [k, k.encode(), int(k) if k != "a" else "A", "b" if k == "a" else "2" if k == "1" else "1", b"\xe9"]
    for r in range(1, 4):
        for order in itertools.permutations(keys, r):
            compare_calls(sh, q, cfg, ctor, 5, raw, True, {x: V("%r" % (x,)) for x in order})
    values = ["\xe9", b"\xe9", "", b"", bytearray(b"\xe9"), memoryview(b"\xe9"), ("\xe9", b"\xe9"), (b"\xe9",), ["\xe9"], {b"\xe9": "\xe9"}, "\u20ac", Text("\xe9"), Raw(b"\xe9")]
    for x, y in itertools.product(values, repeat=2):
        compare_calls(sh, q, cfg, ctor, 6, raw, True, {"a": x} if cfg.kind == NAMED else [x, y])
    for params in (raw, raw.decode("latin1"), b"", None, [], {}, bytearray(b"ab"), memoryview(b"ab"), [b"x"], range(2), b"ab", "ab"):
        compare_calls(sh, q, cfg, ctor, 7, raw, True, params)


def run(item, sh, tier):
    i, o, n = item
    b = bounds(tier)
    opts = options(i, o)[n]
    cfg, q, ctor = Cfg(i, o, **opts), make(i, o, **opts), (i, o, opts)
    al = CORE_BYTES[i]
    if n:
        al = al[:-1] + ("-\n#" if n == 1 else "\u00a7")
    for k in range(b["length"] + 1 - (n > 0 and tier == "quick")):
        for s in strings(al, k):
            compare_calls(sh, q, cfg, ctor, 0, s.encode("latin1"), many=k < 4)
    intro = model.INTRO[i].encode()
    p = spell(i, {NAMED: "a", NUMERIC: "1", ORDINAL: ""}[cfg.kind]).encode()
    for c in range(256):
        c = bytes([c])
        for raw in (c, c + p, p + c, c + p + c, p + c + p, intro + c, intro + c + intro, c + intro, b"'" + c + b"'" + p, b"--" + c + b"\n" + p,
                    b"/*" + c + b"*/" + p, b"#" + c + b"\n" + p, b"\xab" + c + b"\xbb" + p, b"\xa7" + intro + c, intro + b"a" + c, intro + b"a1" + c + b"b",
                    b"%(a" + c + b")s", b':"a' + c + b'"', intro * 2 + c + p, c * 3, b"\r\n" + c + b"\t" + p):
            compare_calls(sh, q, cfg, ctor, 1, raw, many=True)
    alls = bytes(range(256))
    for raw in (alls, alls + p, p + alls, alls[::-1] + p + alls):
        compare_calls(sh, q, cfg, ctor, 2, raw, many=True)
    pairs = range(256) if tier != "quick" and o in ("named_oracle", "qmark") and not n else ()
    for x in pairs or list(range(0x80, 0x100, 7)) + [0, 10, 13, 37, 255]:
        for y in pairs or b"%:?$@a1\"'\xff\xb5\xdf\xe9\x80\n":
            compare_calls(sh, q, cfg, ctor, 3, bytes([x]) + p + bytes([y]))
            compare_calls(sh, q, cfg, ctor, 3, p + bytes([x, y]))
    for x, y in itertools.product(SPECIAL, repeat=2):
        compare_calls(sh, q, cfg, ctor, 4, x + p + y, many=True)
        compare_calls(sh, q, cfg, ctor, 4, x + y + b" " + p, many=tier != "quick")
        compare_calls(sh, q, cfg, ctor, 4, p + b" " + x + y, many=tier != "quick")
        compare_calls(sh, q, cfg, ctor, 4, x + b" " + p + b" " + p + b" " + y, many=tier != "quick")
    if n < 2:
        for case in ladder.cases(i, ladder.MIDDLE if tier == "quick" else ladder.DEEP, cfg.expand, "PTX" if tier == "quick" else "PTDLX"):
            compare_calls(sh, q, cfg, ctor, case.tag, case.sql.encode("latin1"), True, case.params(i))
    for size in LONG if tier == "quick" else LONG_DEEP:
        # Long texts with the token at the start, in the middle and at the end.
        pad = (b"x" * 61 + b" ,\n") * (size // 64) + b"y" * (size % 64)
        half = len(pad) // 2
        for x in SPECIAL[1:] if size < 5000 or tier != "quick" else SPECIAL_LINES:
            for raw in (x + p + pad, pad[:half] + x + p + b" " + x + pad[half:], pad + p + x):
                compare_calls(sh, q, cfg, ctor, 8, raw)
    keyed(sh, q, cfg, ctor, p)
    # A str query yields a str, also outside Latin-1.
    for text in ("\u20ac " + p.decode() + " \U0001f600", ""):
        segs = cfg.scan(text)
        got = attempt(q.format, text, fill(cfg, segs))
        sh.traces += 1
        if got[0] != "ok" or type(got[1][0]) is not str:
            sh.violation("a str query did not yield a str", ctor=ctor, sql=text, observed=show(got))
    # Subclasses of str and bytes are texts and bytes too.
    plain = "SELECT %s \xe9 100%% ''" % p.decode()
    for text in (Text(plain), Text(""), Raw(plain.encode("latin1")), Raw(b"")):
        base = str(text) if isinstance(text, str) else bytes(text)
        args = fill(cfg, cfg.scan(base if isinstance(text, str) else base.decode("latin1")))
        for method, given in (("format", args), ("formatmany", [args, args])):
            want, got = attempt(getattr(q, method), base, given), attempt(getattr(q, method), text, given)
            sh.traces += 1
            rows = lambda x: x[1][1] if method == "formatmany" else [x[1][1]]
            if not (got[0] == want[0] == "ok" and isinstance(got[1][0], type(base)) and got[1][0] == want[1][0] and len(rows(got)) == len(rows(want))
                    and all(compare.same_values(x, y) for x, y in zip(rows(want), rows(got)))):
                sh.violation("%s->%s %s of an instance of a subclass of %s" % (i, o, method, type(base).__name__), ctor=ctor, sql=base, params=args,
                             expected=show(want), observed=show(got))
    sh.sample("%s->%s %r %r" % (i, o, opts, raw))
