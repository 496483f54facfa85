"""P08: what the manual declares callable is callable exactly
as declared: exported, same arguments in the same order with the same defaults,
and every documented argument has an effect on the call."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import rast
from rast import deparse
from common import AnalysisBroken, main

PROP = "P08"

# Formals that exist only for compatibility with a generic, or that are read
# from the frame by C code or by substitute(): handled by rule, not by name.


import native_binding


def frame_captured(fn):
    """the function hands its frame to code that reads variables by name"""
    for n in fn.body.walk():
        if n.t == "call":
            c = n.callee()
            if c in ("environment", "current_env", "match.call", "sys.call", "sys.function", "UseMethod", "NextMethod", ".External2", "parent.frame", "caller_env") and c in ("UseMethod", "NextMethod", "match.call", "sys.call"):
                return True
    return False


def reaches_native(P, fn, depth=0):
    """routines a function's frame is handed to, directly or through helpers"""
    names = set()
    for n in fn.body.walk():
        if n.t != "call":
            continue
        c = n.callee()
        if c in (".Call", ".External2", ".External"):
            tgt = n.a[0][1].text() if n.a else None
            if c == ".External2" or any(native_binding.is_frame(x, fn.node) for _, x in n.a) or depth and any(x.t == "sym" and x.n in fn.formals for _, x in n.a):
                names.add(tgt)
        elif depth < 2 and c and P.fun(c) is not None and P.fun(c) is not fn:
            if any(native_binding.is_frame(x, fn.node) or depth and x.t == "sym" and x.n in ("env", "frame", "envir") for _, x in n.a):
                names |= reaches_native(P, P.fun(c), depth + 1)
    return names


def run(rep):
    import cside
    import native_binding as nb
    M = common.load_module()
    P = common.load_r()
    cg = cside.const_globals(M)
    T = cside.tables(M)
    rep.rule("usage", "a \\usage entry has the same arguments, order and defaults as the function", 150)
    rep.rule("documented", "every formal of a function in \\usage is described in \\arguments, and every described argument is a formal", 150)
    rep.rule("exported", "every export names a defined function or object", 180)
    rep.rule("effective", "every formal of an exported function is used: read, forwarded, dispatched on, or looked up by the native routine", 400)

    fns = {}
    perfile = {}
    for file, n in P.rd:
        name = None
        fm = None
        if n.t == "call" and n.callee() == "<-":
            t = n.a[0][1]
            if t.t == "call" and t.callee():
                name = t.callee() + "<-"
                fm = [(a, x) for a, x in t.a] + [("", n.a[1][1])]
        elif n.t == "call" and n.callee():
            name = n.callee()
            fm = list(n.a)
        if name is None:
            continue
        fn = P.fun(name)
        where = "man/%s" % file
        if fn is None:
            if name in P.vars or P.imported(name):
                continue
            rep.violation("usage", name, where, "%s documents %s(), which is not defined" % (file, name))
            continue
        doc = []
        for a, x in fm:
            if a:
                doc.append((a, deparse(x)))
            else:
                doc.append((x.text(), None))
        code = [(f, deparse(d) if d is not None else None) for f, d in fn.node.f]
        perfile.setdefault(file, set()).update(f for f, _ in doc)
        fns[name] = fn
        if [a for a, _ in doc] != [a for a, _ in code]:
            rep.violation("usage", name + ":formals", "%s:%d" % (fn.file, fn.line), "%s(%s) is documented as (%s)" % (name, ", ".join(a for a, _ in code), ", ".join(a for a, _ in doc)))
            continue
        bad = [(a, d1, d2) for (a, d1), (_, d2) in zip(doc, code) if norm(d1) != norm(d2)]
        if bad:
            a, d1, d2 = bad[0]
            rep.violation("usage", name + ":default:" + a, "%s:%d" % (fn.file, fn.line), "%s(): default of `%s` is %s, documented as %s" % (name, a, d2, d1))
            continue
        rep.ok("usage", sample="%s(%s)" % (name, ", ".join(a for a, _ in code)))
    for file, names in sorted(perfile.items()):
        args = set(P.rdargs.get(file, []))
        if not args:
            continue
        for a in sorted(args - names):
            rep.violation("documented", "%s:%s" % (file, a), "man/" + file, "%s describes `%s`, which no function in its usage takes" % (file, a))
        rep.ok("documented", len(args & names))

    for e in sorted(P.exports):
        if P.defined(e) or P.imported(e):
            rep.ok("exported")
        else:
            rep.violation("exported", e, "NAMESPACE", "%s is exported but not defined" % e)

    regd = {m or "%s.%s" % (g, c) for g, c, m in P.s3}
    generics = {g for g, _, _ in P.s3}
    for e in sorted(P.exports):
        fn = P.fun(e)
        if fn is None or e in regd:
            continue
        syms = set()
        disp = frame_captured(fn)
        dots_used = False
        looked = set()
        for n in consulted(fn.body):
            if n.t == "sym":
                syms.add(n.n)
                if n.n.startswith(".."):
                    dots_used = True
        for d in fn.defaults.values():
            if d is not None:
                for n in d.walk():
                    if n.t == "sym":
                        syms.add(n.n)
        for r in sorted(x for x in reaches_native(P, fn) if x):
            for kind in ("call", "ext"):
                if r in T[kind]:
                    f = M.funcs[T[kind][r][0]]
                    for k in range(f.nargs):
                        looked |= nb.lazy_vars_deep(M, f, k, cg)
                    if kind == "ext":
                        looked.add("...")
        body = fn.body
        trivially_dead = only_error_or_null(body)
        for f in fn.formals:
            if f in syms or f in looked or disp or (f == "..." and dots_used):
                rep.ok("effective")
                continue
            if f == "...":
                continue  # decided by P09
            if trivially_dead:
                rep.ok("effective")
                continue
            key = "%s:%s" % (e, f)
            if key in IGNORED:
                rep.ok("effective")
                continue
            rep.violation("effective", key, "%s:%d" % (fn.file, fn.line), "%s() never uses its argument `%s`" % (e, f))


IGNORED = {
}


def consulted(body):
    """nodes of a body, without those that only verify an argument or normalise it into itself"""
    def go(n, last, own):
        if n.t == "call":
            c = n.callee()
            if c == "{":
                k = len(n.a)
                for j, (_, x) in enumerate(n.a):
                    yield from go(x, last and j == k - 1, own)
                return
            if c in ("<-", "=") and len(n.a) == 2 and n.a[0][1].t == "sym":
                yield from go(n.a[1][1], True, own | {n.a[0][1].n})
                return
            if not last and c and (c.startswith("check_") or c in ("stopifnot", "force")) and not c.startswith("check_dots"):
                return
        if n.t == "sym" and n.n in own:
            return
        yield n
        for x in n.children():
            yield from go(x, True, own)
    yield from go(body, True, frozenset())


def only_error_or_null(b):
    """Body only signals (deprecated/defunct stubs)."""
    n = b
    while n.t == "call" and n.callee() == "{" and len(n.a) == 1:
        n = n.a[0][1]
    return n.t == "null" or (n.t == "call" and n.callee() in ("abort", "stop", "UseMethod", "deprecate_stop"))


def norm(d):
    if d is None:
        return None
    return d.replace("'", '"').replace(" ", "")


if __name__ == "__main__":
    main(PROP, run)
