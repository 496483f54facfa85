"""The same question for R code: which operations has an argument gone through
inside the function that hands it to native code."""
LISTOPS = {"vec_cast_common": "castall", "vec_cast_common_params": "castall", "vec_cast_common_opts": "castall", "vec_cast_common_fallback": "castall",
           "vec_recycle_common": "recycleall"}
OPS = {"vec_cast": "cast", "vec_recycle": "recycle", "vec_proxy_equal": ("proxy", "equal"), "vec_proxy_compare": ("proxy", "compare"),
       "vec_proxy_order": ("proxy", "order"), "vec_proxy": ("proxy", "data"), "vec_slice": "slice"}


def root(fn, n):
    """position of a node in its function, as the chain of its ancestors"""
    out = []
    while n is not None and n is not fn.node:
        out.append(n)
        n = n.parent
    return out


def last_assignment(fn, use, name):
    """the assignment to name in force at use: the last one before it that is
    on every way to it, plus any later one that may run"""
    anc = root(fn, use)
    found = []
    seen_use = False
    for n in fn.body.walk():
        if n.t == "call" and n.callee() in ("<-", "=") and n.a[0][1].t in ("sym", "str") and n.a[0][1].text() == name:
            found.append(n)
    # textual order stands for evaluation order within one function body
    pos = {id(n): k for k, n in enumerate(fn.body.walk())}
    here = pos.get(id(use), 1 << 30)
    before = [n for n in found if pos[id(n)] < here and not any(a is n for a in anc)]
    out = []
    for n in reversed(before):
        out.append(n.a[1][1])
        p = n.parent
        # certain if the statement is in a block that encloses the use
        certain = p is fn.node or any(a is p for a in anc) and p.t == "call" and p.callee() == "{"
        if certain:
            return out
    out.append(None)
    return out


def chains(fn, node, depth=0):
    """set of (ops, source) for an R expression; sources are formals or other text"""
    if node is None or depth > 20:
        return {((), ("?",))}
    if node.t == "sym":
        res = set()
        for v in last_assignment(fn, node, node.n):
            if v is None:
                res.add(((), ("formal", node.n) if node.n in fn.formals else ("free", node.n)))
            else:
                res |= chains(fn, v, depth + 1)
        return res
    if node.t != "call":
        return {((), ("value",))}
    c = node.callee()
    if c in ("[[", "$"):
        k = node.a[1][1]
        key = getattr(k, "v", None) if k.t not in ("sym",) else k.n
        return {((("elem", key),) + o, s) for o, s in chains(fn, node.a[0][1], depth + 1)}
    if c in ("(", "{") and node.a:
        return chains(fn, node.a[-1][1], depth + 1)
    if c == "if":
        res = set()
        for _, x in node.a[1:]:
            res |= chains(fn, x, depth + 1)
        return res
    if c in LISTOPS:
        res = set()
        for nm, x in node.a:
            if nm in (".to", ".ptype", ".size", ".call", ".arg"):
                continue
            y = x
            while y.t == "call" and y.callee() in ("!", "!!", "!!!") and y.a:
                y = y.a[0][1]
            res |= {(((LISTOPS[c], id(node)),) + o, s) for o, s in chains(fn, y, depth + 1)}
        return res or {((), ("value",))}
    if c in OPS:
        op = OPS[c]
        op = op if isinstance(op, tuple) else (op, id(node))
        arg = node.arg("x") or (node.a[0][1] if node.a else None)
        return {((op,) + o, s) for o, s in chains(fn, arg, depth + 1)}
    h = PKG.fun(c) if PKG is not None and depth < 12 else None
    if h is not None and h is not fn:
        got = matched(h, node)
        res = set()
        for r in returned(h):
            for ops, src in chains(h, r, depth + 4):
                ops = tuple((n, k if n in ("elem", "proxy") else (k, id(node))) for n, k in ops)
                if src[0] == "formal" and src[1] in got:
                    res |= {(ops + o, s) for o, s in chains(fn, got[src[1]], depth + 4)}
                elif not ops:
                    res.add(((), ("call", c)))
                else:
                    res.add((ops, src if src[0] == "value" else ("call", c)))
        if res:
            return res
    return {((), ("call", c))}


# the package whose helpers are looked into (set by the checks)
PKG = None


def matched(h, call):
    """formal -> argument of a call of a package function"""
    got = {n: x for n, x in call.a if n in h.formals}
    rest = [f for f in h.formals if f not in got]
    for n, x in call.a:
        if n or not rest or rest[0] == "...":
            continue
        got[rest.pop(0)] = x
    return got


def returned(h):
    """the expressions a function may return"""
    out = [u.a[0][1] for u in h.body.calls() if u.callee() == "return" and u.a]
    work = [h.body]
    while work:
        b = work.pop()
        if b.t == "call" and b.callee() == "{" and b.a:
            work.append(b.a[-1][1])
        elif b.t == "call" and b.callee() == "if":
            work += [x for _, x in b.a[1:]]
        elif not (b.t == "call" and b.callee() == "return"):
            out.append(b)
    return out


def expand(fn, v, depth=3, seen=None, into=lambda h: True):
    """the nodes of an expression, of what its variables were assigned, and of
    the package helpers it calls"""
    seen = set() if seen is None else seen
    if v is None or id(v) in seen:
        return
    seen.add(id(v))
    for y in v.walk():
        yield y
        if depth == 0:
            continue
        if y.t == "sym":
            for d in last_assignment(fn, y, y.n):
                if d is not None and id(d) not in seen:
                    yield from expand(fn, d, depth - 1, seen, into)
        elif y.t == "call" and PKG is not None and y.callee():
            h = PKG.fun(y.callee())
            if h is not None and h is not fn and into(h) and len(list(h.body.walk())) < 60:
                yield from expand(h, h.body, depth - 1, seen, into)


def routine_calls(uses, routine):
    """(function, call node) for the native calls of a routine"""
    for fn, x in uses.get(routine, ()):
        p = x.parent
        if fn is not None and p is not None and p.t == "call" and p.callee() in (".Call", ".External2", ".External") and p.a and p.a[0][1] is x:
            yield fn, p
