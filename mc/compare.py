"""Decides whether an observed result is one the model allows.

The fast path compares with the model's own rendering. If that differs, the observed query is aligned with the expected
plan: literals must agree character by character and each placeholder must be one of the output style's that the observed
parameters bind to the expected object. So names and spellings that the documentation leaves open never cause an alarm.
"""
from . import model
from .model import NAMED, NUMERIC, ORDINAL, OUT


def same_values(exp, got):
    """exp, got: list or dict; exact container type, identical objects."""
    if type(got) is not type(exp) or len(got) != len(exp):
        return False
    if type(exp) is dict:
        for k, v in exp.items():
            if k not in got or got[k] is not v:
                return False
        return True
    for a, b in zip(exp, got):
        if a is not b:
            return False
    return True


def align(cfg, pl, sql, params):
    """Whether (sql, params) realises the plan. Returns a list of placeholder keys in order, or None."""
    toks = []
    for t in pl:
        if t[0] == "L" and toks and toks[-1][0] == "L":
            toks[-1] = ("L", toks[-1][1] + t[1])
        else:
            toks.append(t)
    kind = cfg.out_kind
    if kind == NAMED:
        if type(params) is not dict:
            return None
        cands = [(k, OUT[cfg.out_style] % k, v) for k, v in params.items() if isinstance(k, str)]
        if len(cands) != len(params):
            return None
        for k, _, _ in cands:
            bare = k[1:-1] if cfg.quotes and len(k) > 2 and k[0] == k[-1] == '"' else k
            if cfg.quotes and bare is k:
                return None
            if model.ident(bare, 0) != len(bare):
                return None
    else:
        if type(params) is not list:
            return None
        if kind == NUMERIC:
            cands = [(i + 1, OUT[cfg.out_style] % (i + 1), v) for i, v in enumerate(params)]
        else:
            ph = "%s" if cfg.out_style == "format" else "?"
            cands = None

    # Depth first over (token, position); used is a linked list of the keys so far. Backtracking is needed because one placeholder's
    # text can be a prefix of another's.
    stack = [(0, 0, None, 0)]
    used = None
    while stack:
        ti, pos, path, n = stack.pop()
        fits = True
        while ti < len(toks) and toks[ti][0] == "L":
            if not sql.startswith(toks[ti][1], pos):
                fits = False
                break
            pos += len(toks[ti][1])
            ti += 1
        if not fits:
            continue
        if ti == len(toks):
            if pos == len(sql):
                used = []
                while path:
                    path, k = path
                    used.append(k)
                used.reverse()
                break
            continue
        value = toks[ti][3]
        if kind == ORDINAL:
            if n < len(params) and params[n] is value and sql.startswith(ph, pos):
                stack.append((ti + 1, pos + len(ph), (path, n), n + 1))
            continue
        for k, text, v in reversed(cands):
            if v is value and sql.startswith(text, pos):
                stack.append((ti + 1, pos + len(text), (path, k), n + 1))
    if used is None:
        return None
    if kind == ORDINAL:
        return used if len(used) == len(params) else None
    want = set(range(1, len(params) + 1)) if kind == NUMERIC else set(params)
    return used if set(used) == want else None


def sources(pl):
    return [(t[1][1], t[2]) for t in pl if t[0] == "V"]


def exclusive(cfg, pl, keys):
    """Different sources never share a key; numeric: one number per source, handed out in order of first appearance."""
    by_key = {}
    by_src = {}
    for src, k in zip(sources(pl), keys):
        if by_key.setdefault(k, src) != src:
            return False
        if cfg.out_kind == NUMERIC:
            if src not in by_src:
                if k != len(by_src) + 1:
                    return False
                by_src[src] = k
            elif by_src[src] != k:
                return False
    return True


def allowed(cfg, pl, got, rendered=None):
    """got: the (sql, params) observed."""
    if type(got) is not tuple or len(got) != 2 or not isinstance(got[0], str):
        return False
    exp = rendered or model.render(cfg, pl)
    if got[0] == exp[0] and same_values(exp[1], got[1]):
        return True
    keys = align(cfg, pl, got[0], got[1])
    return keys is not None and (cfg.out_kind == ORDINAL or exclusive(cfg, pl, keys))
