"""Reference model of sqlparams, written from its documentation and independent of its code (no regular expressions).

A *query* is scanned left to right into segments:

    ('L', text)               literal text as it must appear in the output
    ('P', key, raw, quoted)   a parameter: key is the name (str), the number (int) or the position (int, from 0)

A *plan* is the list of segments in output terms:

    ('L', text)  /  ('V', source, element)

where ('V', ...) is a placeholder bound to the value of a source parameter (element None) or to one element of a tuple.
"""
from collections.abc import Mapping, Sequence

NAMED, NUMERIC, ORDINAL = "named", "numeric", "ordinal"
KIND = {
    "format": ORDINAL, "qmark": ORDINAL, "numeric": NUMERIC, "numeric_dollar": NUMERIC,
    "named": NAMED, "named_dollar": NAMED, "named_oracle": NAMED, "named_sqlserver": NAMED, "pyformat": NAMED,
}
INTRO = {
    "format": "%", "qmark": "?", "numeric": ":", "numeric_dollar": "$",
    "named": ":", "named_dollar": "$", "named_oracle": ":", "named_sqlserver": "@", "pyformat": "%",
}
STYLES = list(KIND)
PAIRS = [(i, o) for i in STYLES for o in STYLES]
DEFAULT_COMMENTS = [("/*", "*/"), "--"]
ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


class Missing(Exception):
    pass


class Fault(Exception):
    """The call must raise: kinds is the set of acceptable reasons."""
    CLASSES = {"missing": LookupError, "type": TypeError, "length": ValueError, "empty": Exception}

    def __init__(self, kinds):
        Exception.__init__(self, sorted(kinds))
        self.kinds = set(kinds)

    def accepts(self, exc):
        if isinstance(exc, (StopIteration, StopAsyncIteration)):
            return False
        return any(isinstance(exc, self.CLASSES[k]) for k in self.kinds)


def word(ch):
    return ch == "_" or ch.isalnum()


def ident(text, i):
    """End of the identifier starting at i, or None."""
    if i >= len(text) or text[i] not in ASCII:
        return None
    i += 1
    while i < len(text) and word(text[i]):
        i += 1
    return i


def param_at(text, i, style):
    """(end, key, quoted) of the parameter starting at i, ignoring what precedes it, or None."""
    n = len(text)
    if i >= n or text[i] != INTRO[style]:
        return None
    if style == "qmark":
        return (i + 1, None, False)
    if style == "format":
        return (i + 2, None, False) if text[i + 1:i + 2] == "s" else None
    if style == "pyformat":
        if text[i + 1:i + 2] != "(":
            return None
        e = ident(text, i + 2)
        if e is None or text[e:e + 2] != ")s":
            return None
        return (e + 2, text[i + 2:e], False)
    if KIND[style] == NUMERIC:
        e = i + 1
        while e < n and text[e].isdecimal():
            e += 1
        return (e, text[i + 1:e], False) if e > i + 1 else None
    if style == "named_oracle" and text[i + 1:i + 2] == '"':
        e = ident(text, i + 2)
        if e is None or text[e:e + 1] != '"':
            return None
        return (e + 1, text[i + 2:e], True)
    e = ident(text, i + 1)
    return None if e is None else (e, text[i + 1:e], False)


def scan(text, style, esc=None, out_percent=False):
    """Segments of the query. esc: effective escape string or None. out_percent: the output style uses '%'."""
    intro = INTRO[style]
    lit = "%%" if intro == "%" and out_percent else intro
    double = out_percent and intro != "%"
    own = esc == intro
    segs = []
    buf = []
    i = 0
    count = 0
    n = len(text)
    while i < n:
        if esc and text.startswith(esc + intro, i):
            buf.append(lit)
            i += len(esc) + 1
            continue
        ch = text[i]
        if ch == intro:
            m = None
            if own or i == 0 or text[i - 1] != intro:
                if style != "qmark" or text[i + 1:i + 2] != "?":
                    m = param_at(text, i, style)
            if m:
                if buf:
                    segs.append(("L", "".join(buf)))
                    buf = []
                end, key, quoted = m
                raw = key
                if KIND[style] == ORDINAL:
                    key = count
                elif KIND[style] == NUMERIC:
                    key = int(key)
                elif style == "named_oracle" and not quoted:
                    key = key.upper()
                count += 1
                segs.append(("P", key, raw, quoted))
                i = end
                continue
        buf.append("%%" if double and ch == "%" else ch)
        i += 1
    if buf:
        segs.append(("L", "".join(buf)))
    return segs


def oracle_key(key):
    """What a key of a parameter mapping means under Oracle's rules."""
    if len(key) > 1 and key[0] == key[-1] == '"':
        return key[1:-1]
    return key.upper()


def is_seq(x):
    return isinstance(x, Sequence) and not isinstance(x, (str, bytes))


def check_container(style, params):
    if KIND[style] == NAMED:
        if not isinstance(params, Mapping):
            raise Fault({"type"})
    elif not is_seq(params) and not isinstance(params, Mapping):
        raise Fault({"type"})


def lookup(style, params, key):
    """The caller's value for a parameter; raises Missing."""
    kind = KIND[style]
    if kind == NAMED:
        if style == "named_oracle":
            for k in params:
                if isinstance(k, str) and oracle_key(k) == key:
                    return params[k]
            raise Missing(key)
        if key in params:
            return params[key]
        raise Missing(key)
    if is_seq(params):
        idx = key - 1 if kind == NUMERIC else key
        if 0 <= idx < len(params):
            return params[idx]
        raise Missing(key)
    found = False
    val = None
    for k in params:
        if isinstance(k, int):
            num = int(k)
        elif isinstance(k, str) and k and k.isdecimal():
            num = int(k)
        elif isinstance(k, bytes) and k.isdigit():
            num = int(k)
        else:
            continue
        if num == key:
            found, val = True, params[k]
    if not found:
        raise Missing(key)
    return val


class Cfg:
    """Effective configuration of an instance."""

    def __init__(self, in_style, out_style, escape_char=None, expand_tuples=None, strip_comments=None,
                 allow_out_quotes=None):
        self.in_style = in_style
        self.out_style = out_style
        self.kind = KIND[in_style]
        self.out_kind = KIND[out_style]
        self.esc = INTRO[in_style] if escape_char is True else (escape_char or None)
        self.expand = (self.out_kind != NAMED) if expand_tuples is None else bool(expand_tuples)
        if strip_comments is True:
            strip_comments = DEFAULT_COMMENTS
        self.comments = list(strip_comments or [])
        self.quotes = bool(allow_out_quotes) and out_style == "named_oracle"
        self.out_percent = INTRO[out_style] == "%"

    def scan(self, text):
        return scan(text, self.in_style, self.esc, self.out_percent)


def strip(text, styles):
    """Set of acceptable results of comment stripping (one, except after a removed multiline comment, see C13)."""
    multi = [s for s in styles if not isinstance(s, str)]
    single = [s for s in styles if isinstance(s, str)]
    results = set()

    def line_end(i):
        j = text.find("\n", i)
        return len(text) if j < 0 else j + 1

    def walk(i, out):
        n = len(text)
        while i < n:
            j = i
            while j < n and text[j] in " \t":
                j += 1
            for s, e in multi:
                if text.startswith(s, j):
                    k = text.find(e, j + len(s))
                    if k >= 0:
                        i = k + len(e)
                        if text.startswith("\n", i):
                            i += 1
                        elif text.startswith("\r\n", i):
                            i += 2
                        else:
                            # Rest of the line after the comment.
                            j = i
                            while j < n and text[j] in " \t":
                                j += 1
                            stop = line_end(i)
                            if any(text.startswith(c, j) for c in single):
                                walk(stop, out)
                            out = out + text[i:stop]
                            i = stop
                        break
            else:
                stop = line_end(i)
                if not any(text.startswith(c, j) for c in single):
                    out = out + text[i:stop]
                i = stop
        results.add(out)

    walk(0, "")
    return results


def ref_name(cfg, seg, element):
    """Output name used for a placeholder."""
    if cfg.kind == NAMED:
        name = seg[1] if element is None else "%s__%d_sqlp" % (seg[1], element)
    else:
        base = "_" + (seg[2] if cfg.kind == NUMERIC else str(seg[1]))
        name = base if element is None else "%s_%d" % (base, element)
    return '"%s"' % name if cfg.quotes else name


OUT = {
    "named": ":%s", "named_dollar": "$%s", "named_oracle": ":%s", "named_sqlserver": "@%s", "pyformat": "%%(%s)s",
    "numeric": ":%s", "numeric_dollar": "$%s",
}


def plan(cfg, segs, params):
    """Output plan: list of ('L', text) and ('V', seg, element, value). Also the per-source shapes."""
    out = []
    shapes = {}
    index = None
    if cfg.in_style == "named_oracle" and len(segs) > 40:
        index = {}
        for k in params:
            if isinstance(k, str):
                index.setdefault(oracle_key(k), params[k])
    for seg in segs:
        if seg[0] == "L":
            out.append(seg)
            continue
        try:
            if index is not None:
                if seg[1] not in index:
                    raise Missing(seg[1])
                value = index[seg[1]]
            else:
                value = lookup(cfg.in_style, params, seg[1])
        except Missing:
            raise Fault({"missing"})
        if cfg.expand and isinstance(value, tuple):
            shapes[seg[1]] = len(value)
            if not len(value):
                out.append(("L", "(NULL)"))
            else:
                for i, sub in enumerate(value):
                    out.append(("L", "," if i else "("))
                    out.append(("V", seg, i, sub))
                out.append(("L", ")"))
        else:
            shapes[seg[1]] = None
            out.append(("V", seg, None, value))
    return out, shapes


def render(cfg, pl):
    """(sql, params) in the library's own naming."""
    sql = []
    if cfg.out_kind == ORDINAL:
        ph = "%s" if cfg.out_style == "format" else "?"
        vals = []
        for t in pl:
            if t[0] == "L":
                sql.append(t[1])
            else:
                sql.append(ph)
                vals.append(t[3])
        return "".join(sql), vals
    fmt = OUT[cfg.out_style]
    if cfg.out_kind == NUMERIC:
        vals = []
        nums = {}
        for pos, t in enumerate(pl):
            if t[0] == "L":
                sql.append(t[1])
                continue
            key = (t[1][1], t[2])
            num = nums.get(key)
            if num is None:
                vals.append(t[3])
                num = nums[key] = len(vals)
            sql.append(fmt % num)
        return "".join(sql), vals
    d = {}
    for t in pl:
        if t[0] == "L":
            sql.append(t[1])
        else:
            name = ref_name(cfg, t[1], t[2])
            d[name] = t[3]
            sql.append(fmt % name)
    return "".join(sql), d


def convert(cfg, sql, params):
    """Reference of SQLParams.format on a str query without comment ambiguity. Raises Fault."""
    check_container(cfg.in_style, params)
    if cfg.comments:
        (sql,) = strip(sql, cfg.comments)
    pl, _ = plan(cfg, cfg.scan(sql), params)
    return render(cfg, pl)


def convert_many(cfg, sql, rows):
    """Reference of SQLParams.formatmany: (sql, list) or Fault. rows is a list.

    The last element of the result says whether a later row has a tuple where row 0 had none (see known findings).
    """
    if not rows:
        raise Fault({"empty"})
    faults = set()
    first = None
    outs = []
    late = False
    if cfg.comments:
        (sql,) = strip(sql, cfg.comments)
    segs = cfg.scan(sql)
    for i, row in enumerate(rows):
        try:
            check_container(cfg.in_style, row)
            pl, shapes = plan(cfg, segs, row)
        except Fault as f:
            faults |= f.kinds
            continue
        if faults and first is None:
            # The first row is unusable: which of the rows' errors is raised is open.
            continue
        if i == 0:
            first = shapes
            out_sql, vals = render(cfg, pl)
        else:
            ok = True
            for k, n in first.items():
                if n is not None and shapes[k] is None:
                    faults.add("type")
                    ok = False
                elif n is None and shapes[k] is not None:
                    faults.add("type")
                    late = True
                    ok = False
                elif n != shapes[k]:
                    faults.add("length")
                    ok = False
            if not ok:
                continue
            vals = render(cfg, pl)[1]
        outs.append(vals)
    if faults:
        f = Fault(faults)
        f.late_tuple = late
        raise f
    return out_sql, outs
