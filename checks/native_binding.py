"""P05: every native call made from the package's R code names
a registered routine, passes the number of arguments that routine takes, in the
order it takes them, and provides the frame variables it looks up lazily."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import cside
import rast
from common import AnalysisBroken, main

PROP = "P05"
FRAME_NAMES = ("frame", "env", "envir", "call", "error_call")
ENV_SINKS = {"Rf_eval": (1,), "R_tryEval": (1,), "R_tryEvalSilent": (1,), "Rf_findVar": (1,), "Rf_findVarInFrame3": (0,), "Rf_findVarInFrame": (0,),
             "Rf_defineVar": (2,), "R_existsVarInFrame": (0,), "R_ParentEnv": (0,), "ENCLOS": (0,), "r_env_get": (0,), "r_env_find": (0,)}
NATIVE = {".Call": "call", ".External": "ext", ".External2": "ext"}


def is_frame(x, fun):
    """x evaluates to the frame of the function node `fun`."""
    if x.t == "call" and x.callee() in ("environment", "current_env") and not x.a:
        return True
    if x.t == "sym" and fun is not None:
        defs = [n.a[1][1] for n in fun.b.walk() if n.t == "call" and n.callee() in ("<-", "=") and n.a[0][1].t == "sym" and n.a[0][1].n == x.n]
        return len(defs) == 1 and is_frame(defs[0], None)
    return False


def frame_formal(P, x, enc):
    """x is an environment the function was given: its callers answer for it"""
    return x.t == "sym" and enc and any(x.n == p and p in ("frame", "env", "envir") for e in enc for p, _ in e.f)


def norm(n):
    if n is None:
        return None
    n = n.lstrip(".")
    for p in ("ffi_", "r_"):
        if n.startswith(p):
            n = n[len(p):]
    for p in ("_ffi", "_obj", "_"):
        if n.endswith(p) and len(n) > len(p):
            n = n[:-len(p)]
    return n


def environ(M, f, k, memo):
    """parameter k of f is used as a frame: looked up in, evaluated in, or kept in a lazy value"""
    if (f.name, k) in memo:
        return memo[f.name, k]
    memo[f.name, k] = False
    vals, todo = {k}, [k]
    r = False
    while todo and not r:
        v = todo.pop()
        for u in f.uses.get(v, ()):
            if u.op in ("phi", "select", "bitcast") and u.id not in vals:
                vals.add(u.id)
                todo.append(u.id)
            elif u.op == "store" and u.a[0] == v:
                b = u.a[1]
                d = f.defs.get(b) if isinstance(b, int) else None
                while d is not None and d.op == "getelementptr":
                    d = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
                if d is not None and d.op == "alloca":
                    r = True
            elif u.op == "call" and u.f:
                g = M.funcs.get(u.f)
                for j, a in enumerate(u.a):
                    if a != v:
                        continue
                    if g is not None and j < g.nargs and environ(M, g, j, memo):
                        r = True
                    if M.basename(u.f) in ENV_SINKS and j in ENV_SINKS[M.basename(u.f)]:
                        r = True
    memo[f.name, k] = r
    return r


def ext_consumption(M, f, argk):
    """depth of the deepest CAR taken from the argument pairlist, following the
    chain through CDR; names bound to each position. depth 1 = first argument
    after the routine itself."""
    depth = {argk: 0}
    pos = {}
    tail = set()
    ch = True
    while ch:
        ch = False
        for i in f.insts():
            if i.op == "call" and i.a and isinstance(i.a[0], int) and i.a[0] in depth:
                b = M.basename(i.f)
                d = depth[i.a[0]]
                if b in ("r_node_cdr", "CDR") and i.id not in depth:
                    depth[i.id] = d + 1
                    ch = True
                elif b in ("r_node_cddr", "CDDR") and i.id not in depth:
                    depth[i.id] = d + 2
                    ch = True
                elif b in ("r_node_car", "CAR"):
                    pos.setdefault(d, set()).add(i.id)
                elif b in ("r_node_cadr", "CADR"):
                    pos.setdefault(d + 1, set()).add(i.id)
                elif b in ("r_node_caddr", "CADDR"):
                    pos.setdefault(d + 2, set()).add(i.id)
            elif i.op == "phi":
                # a loop over the remaining arguments
                if any(isinstance(v, int) and v in depth for v, _ in i.inn):
                    tail.add(i.id)
    return depth, pos, tail


def value_names(f, v):
    """source names attached to a value or to what is directly made of it."""
    out = set()
    if v in f.vn:
        out.add(f.vn[v])
    for u in f.uses.get(v, ()):
        if u.op == "call" and u.id in f.vn and u.f and f.mod.basename(u.f) in ("r_eval", "Rf_eval", "Rf_protect", "r_as_int", "r_lgl_get", "r_arg_as_bool"):
            out.add(f.vn[u.id])
        if u.op == "call" and u.f and f.mod.basename(u.f) in ("r_eval", "Rf_eval"):
            for u2 in f.uses.get(u.id, ()):
                if u2.id in f.vn:
                    out.add(f.vn[u2.id])
    return out


def lazy_vars(M, f, envk, cg, stores_only=False):
    """Names looked up (lazily or directly) in the frame parameter."""
    res = set()
    stored = {}
    for i in f.insts():
        if i.op == "store" and isinstance(i.a[1], int):
            base, off = i.a[1], 0
            d = f.defs.get(base)
            while d is not None and d.op == "getelementptr" and d.off is not None and len(d.a) == 1:
                base, off = d.a[0], off + d.off
                d = f.defs.get(base)
            s = cside.symname(M, f, i.a[0], cg)
            if s is not None:
                stored.setdefault(base, {})[off] = ("s", s)
            elif i.a[0] == envk:
                stored.setdefault(base, {})[off] = ("e",)
        if i.op == "call" and not stores_only:
            for k in range(len(i.a) - 1):
                a, b = i.a[k], i.a[k + 1]
                if b == envk:
                    s = cside.symname(M, f, a, cg)
                    if s is not None:
                        res.add(s)
                if a == envk:
                    s = cside.symname(M, f, b, cg)
                    if s is not None and M.basename(i.f) in ("r_env_get", "r_env_find", "Rf_findVar", "Rf_findVarInFrame3", "r_env_has"):
                        res.add(s)
    for base, m in stored.items():
        for off, x in m.items():
            if x[0] == "s" and m.get(off + 8) == ("e",):
                res.add(x[1])
    # forwarded frame: callee receiving the frame looks variables up itself
    return res


def lazy_vars_deep(M, f, envk, cg, seen=None):
    seen = seen if seen is not None else set()
    if (f.name, envk) in seen:
        return set()
    seen.add((f.name, envk))
    res = lazy_vars(M, f, envk, cg)
    for c in f.calls():
        g = M.funcs.get(c.f)
        if g is None:
            continue
        for k, a in enumerate(c.a):
            if a == envk and k < g.nargs and g.name != f.name:
                # only helpers that themselves pair it with symbols
                res |= lazy_vars_deep(M, g, k, cg, seen)
    return res


def assigned_names(body):
    out = set()
    for n in body.walk():
        if n.t == "call" and n.callee() in ("<-", "=") and n.a and n.a[0][1].t in ("sym", "str"):
            out.add(n.a[0][1].text())
        elif n.t == "call" and n.callee() in ("delayedAssign", "assign") and n.a and n.a[0][1].t == "str":
            out.add(n.a[0][1].v)
    return out


def run(rep):
    M = common.load_module()
    P = common.load_r()
    cg = cside.const_globals(M)
    emem = {}
    T = cside.tables(M)
    rep.rule("registered", "the routine named by a .Call/.External site is in the registration table", 150)
    rep.rule("arity", "the site's argument count equals the registered count and the C definition's", 140)
    rep.rule("table", "a registration row's count equals the number of SEXP parameters of the routine it points to, and all are SEXP", 150)
    rep.rule("order", "arguments named alike on both sides stand at the same position", 100)
    rep.rule("consumed", "an .External routine takes exactly the arguments it is sent off its argument list", 8)
    rep.rule("frame", "a variable the routine looks up in the caller's frame is a formal (or local) of every R function that calls it", 40)

    sexp = ("r_obj*", "SEXP", "struct SEXPREC*", "const r_obj*")
    for kind in ("call", "ext"):
        for nm, row in T[kind].items():
            if nm == "#dup":
                for d in row:
                    rep.violation("table", "duplicate:" + d, "src/init.c", "routine %s is registered twice" % d)
                continue
            fn, cnt = row
            f = M.funcs.get(fn)
            if f is None:
                if fn in M.decls:
                    rep.violation("table", nm, "src/init.c", "routine %s points at %s which has no definition" % (nm, fn))
                else:
                    raise AnalysisBroken("routine %s: unknown target %s" % (nm, fn))
                continue
            bad = [t for t in f.di[1:] if t not in sexp]
            if bad or (f.di and f.di[0] not in sexp):
                rep.violation("table", nm + ":types", "%s:%d" % (f.file, f.line), "%s is registered for .Call but its signature is not all SEXP: %s" % (fn, f.di))
            elif kind == "call":
                if cnt != f.nargs:
                    rep.violation("table", nm + ":count", "%s:%d" % (f.file, f.line), "registration says %s takes %s arguments, its definition takes %d" % (nm, cnt, f.nargs))
                else:
                    rep.ok("table", sample="%s -> %s/%d" % (nm, fn, cnt))
            else:
                rep.ok("table")

    sites = []
    for file, l, top in P.top:
        for n in top.calls():
            c = n.callee()
            if c in P.vars and P.vars[c][2].t == "sym" and P.vars[c][2].n in NATIVE:
                c = P.vars[c][2].n
            if c in NATIVE:
                sites.append((file, n, c))
    # addresses of routines used as values elsewhere (e.g. do.call(".Call", list(ptr)))
    for file, n, c in sites:
        enc = rast.enclosing_funs(n)
        owner = None
        for fn in P.funs.values():
            if enc and fn.node is enc[-1]:
                owner = fn
        oname = owner.name if owner else "<top level of %s>" % file
        where = "%s:%d" % (file, n.l)
        args = [(nm, x) for nm, x in n.a]
        if not args:
            continue
        tgt = args[0][1]
        if tgt.t not in ("sym", "str"):
            continue
        name = tgt.text()
        local = {p for e in enc for p, _ in e.f} | (assigned_names(enc[-1].b) if enc else set())
        if name in local:
            continue
        # a plain variable of the package (not a native symbol) would shadow it
        kind = NATIVE[c]
        if P.defined(name) or (name not in T[kind] and P.imported(name)):
            continue
        if name not in T[kind]:
            rep.violation("registered", "%s@%s" % (name, oname), where, "%s() calls %s(%s), which is not in the %s registration table" % (oname, c, name, kind))
            continue
        rep.ok("registered", sample="%s: %s(%s)" % (where, c, name))
        fn, cnt = T[kind][name]
        f = M.funcs[fn]
        rest = args[1:]
        has_dots = any(x.t == "sym" and x.n == "..." for _, x in rest)
        named_pkg = [x for x in rest if x[0] == "PACKAGE"]
        rest = [x for x in rest if x[0] != "PACKAGE"]
        if kind == "call":
            if has_dots:
                continue
            if len(rest) != f.nargs or cnt != len(rest):
                rep.violation("arity", "%s@%s" % (name, oname), where, "%s() passes %d arguments to %s, which takes %d" % (oname, len(rest), name, f.nargs))
                continue
            rep.ok("arity")
            cn = [f.pn.get(k + 1) or f.argname(k) for k in range(f.nargs)]
        else:
            nosend = [x for x in rest if not (x[1].t == "sym" and x[1].n == "...")]
            if cnt is not None and cnt >= 0 and (cnt != len(nosend) or has_dots):
                rep.violation("arity", "%s@%s" % (name, oname), where, "%s() passes %d arguments to %s, registered for %d" % (oname, len(nosend), name, cnt))
                continue
            rep.ok("arity")
            argk = 0 if f.nargs == 1 else 2
            depth, pos, tail = ext_consumption(M, f, argk)
            want = set(range(1, len(nosend) + 1))
            got = set(k for k in pos if k >= 1)
            if c == ".External" and f.nargs == 1 or c == ".External2":
                miss = want - got
                extra = {g for g in got - want} if not has_dots else set()
                if extra:
                    rep.violation("consumed", "%s@%s" % (name, oname), where, "%s reads argument %s of its list but %s() sends %d" % (name, sorted(extra), oname, len(nosend)))
                elif miss:
                    rep.violation("consumed", "%s@%s" % (name, oname), where, "%s never reads argument %s that %s() sends" % (name, sorted(miss), oname))
                else:
                    rep.ok("consumed", sample="%s reads %s" % (name, sorted(got)))
            cn = []
            for k in range(1, len(nosend) + 1):
                ns = set()
                for v in pos.get(k, ()):
                    ns |= value_names(f, v)
                cn.append(sorted(ns)[0] if len(ns) == 1 else None)
            rest = nosend
        rn = [x.n if x.t == "sym" else nm for nm, x in rest]
        nr, nc = [norm(x) for x in rn], [norm(x) for x in cn]
        bad = None
        for i in range(len(nr)):
            for j in range(len(nc)):
                if i != j and nr[i] is not None and nr[j] is not None and nr[i] != nr[j] and nr[i] == nc[j] and nr[j] == nc[i]:
                    bad = (i, j)
        for i in range(len(nr)):
            if not bad and nr[i] is not None and nr[i] != nc[i] and nc[i] not in nr and nc.count(nr[i]) == 1 and nr.count(nr[i]) == 1:
                bad = (i, nc.index(nr[i]))
        if not bad and kind == "call":
            for k, (_, x) in enumerate(rest):
                if is_frame(x, enc[0] if enc else None):
                    if norm(cn[k]) not in FRAME_NAMES and not environ(M, f, k, emem):
                        rep.violation("order", "%s@%s:env" % (name, oname), where, "%s() hands its frame to %s as argument %d, which is not used as one" % (oname, name, k + 1))
                    else:
                        rep.ok("order")
        if bad:
            i, j = bad
            rep.violation("order", "%s@%s" % (name, oname), where, "%s() passes `%s` and `%s` to %s in the opposite order of its parameters" % (oname, rn[i], rn[j], name))
        else:
            rep.ok("order")
        # frame variables
        envk = None
        if kind == "ext" and c == ".External2":
            envk = 3
        else:
            for k, (_, x) in enumerate(rest):
                if is_frame(x, enc[0] if enc else None):
                    envk = k
        if kind == "call":
            for k, (_, x) in enumerate(rest):
                if k != envk and k < f.nargs:
                    miss = lazy_vars(M, f, k, cg, True)
                    if miss and not frame_formal(P, x, enc):
                        rep.violation("frame", "%s@%s:frame" % (name, oname), where, "%s looks up `%s` in what %s() passes as argument %d, which is not its frame" % (name, sorted(miss)[0], oname, k + 1))
        if envk is None:
            continue
        need = lazy_vars_deep(M, f, envk, cg)
        have = set()
        if enc:
            # the frame is that of the innermost function
            have = {p for p, _ in enc[0].f} | assigned_names(enc[0].b)
        for v in sorted(need):
            if v in have:
                rep.ok("frame", sample="%s: %s finds `%s`" % (where, name, v))
            else:
                rep.violation("frame", "%s@%s:%s" % (name, oname, v), where, "%s looks up `%s` in the frame of %s(), which has no such variable" % (name, v, oname))


if __name__ == "__main__":
    main(PROP, run)
