"""Exhaustive exploration of query texts: all strings over an alphabet, or all sequences of tokens, up to a length."""
import itertools

from . import model
from .common import *

# Characters that can make or break a parameter of the style, and a few that cannot.
ALPHABET = {
    "named": ':a1" %',
    "named_dollar": '$a1:_%',
    "named_sqlserver": '@a1:_%',
    "named_oracle": ':"aB1%',
    "numeric": ':12a%_',
    "numeric_dollar": '$12a%:',
    "format": '%sa(? ',
    "pyformat": '%(a)s1',
    "qmark": '?a%s: ',
}
NEAREST = {NAMED: "named_sqlserver", NUMERIC: "numeric_dollar", ORDINAL: "qmark"}


def fill(cfg, segs):
    """A parameter set for exactly the parameters found in the query by the model (and one left over)."""
    keys = []
    for s in segs:
        if s[0] == "P" and s[1] not in keys:
            keys.append(s[1])
    if cfg.kind == NAMED:
        if cfg.in_style == "named_oracle":
            d = {'"%s"' % k: V(k) for k in keys}
        else:
            d = {k: V(k) for k in keys}
        d["zz_left_over"] = V("left over")
        return d
    if cfg.kind == ORDINAL:
        return [V(k) for k in keys] + [V("left over")]
    if keys and max(keys) > 60:
        return {k: V(k) for k in keys if k > 0}
    return [V(k + 1) for k in range((max(keys) if keys else 0) + 1)]


def strings(alphabet, length, prefix=""):
    for t in itertools.product(alphabet, repeat=length - len(prefix)):
        yield prefix + "".join(t)


def check_text(sh, q, cfg, ctor, ci, text, many=False, what="format"):
    segs = cfg.scan(text)
    params = fill(cfg, segs)
    sh.transitions += 1
    r = check_format(sh, q, cfg, ctor, text, segs, params, what)
    if many:
        check_many(sh, q, cfg, ctor, text, [params, fill(cfg, segs)], what=what + " (many)")
    n = 0
    for s in segs:
        if s[0] == "P":
            n += 1
    if n and len(segs) > n:
        sh.nontrivial += 1
    sh.state(ci, tuple(s[:2] for s in segs))
    sh.outcome("%s/%d" % (r, n))
    return r


# Parameter syntax mixed with bytes above 0x7f: letters (which may be part of a name), superscripts, a C1 control, 0xff.
CORE_BYTES = {
    "named": ":a\xe9\xb2\x85%", "named_dollar": "$a\xe9\xff%", "named_sqlserver": "@a\xe9\xaa\xa0", "named_oracle": ':"a\xe9\xff',
    "numeric": ":1\xb2\xb9\xe9%", "numeric_dollar": "$1\xb2\xb3\xff", "format": "%s\xe9\xff?", "pyformat": "%(a)s\xe9",
    "qmark": "?\xbf\xe9%",
}
