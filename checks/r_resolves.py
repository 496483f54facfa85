"""P07: in every R function of the package, on every path,
each variable is bound (formal, local, package, imports, base) and each call to
a package or imported function passes arguments that function accepts."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import cside
from common import AnalysisBroken, main

PROP = "P07"
QUOTING = {"quote", "expr", "exprs", "substitute", "bquote", "quo", "quos", "~", "::", ":::", "enquo", "enexpr", "ensym", "inject", "globalVariables"}
DISPATCH_VARS = {".Generic", ".Class", ".Method"}
SUPER = {"<<-"}
# calls that take functions as values; elsewhere a variable whose name is that of
# arguments in this package but that reaches an imported function is a mistake
HIGHER_ORDER = {"default", "map", "map2", "pmap", "imap", "map_lgl", "map_int", "map_dbl", "map_chr", "map_if", "map2_chr", "map2_lgl", "map2_int", "map2_dbl",
                "walk", "keep", "discard", "detect", "detect_index", "every", "some", "reduce", "accumulate", "lapply", "sapply", "vapply", "mapply", "Map", "Reduce", "Filter",
                "apply", "tapply", "outer", "do.call", "exec", "eval", "identical", "is.function", "is_function", "switch", "match.fun", "as_function", "Negate", "negate", "on_load"}


def locals_of(fn):
    out = {n for n, _ in fn.f}
    st = [fn.b] + [d for _, d in fn.f if d is not None]
    while st:
        n = st.pop()
        if n.t == "fun":
            continue
        if n.t == "call":
            c = n.callee()
            if c in ("<-", "=", "<<-", "->") and n.a[0][1].t in ("sym", "str"):
                out.add(n.a[0][1].text())
            if c == "for":
                out.add(n.a[0][1].text())
            if c in ("delayedAssign", "assign") and n.a and n.a[0][1].t == "str":
                out.add(n.a[0][1].v)
        st.extend(n.children())
    return out


class V:
    pass


def match_call(formals, args):
    """R's argument matching; returns (error, matched formals)."""
    fs = [f for f in formals]
    dots = "..." in fs
    before = fs[:fs.index("...")] if dots else fs
    after = fs[fs.index("...") + 1:] if dots else []
    used = set()
    rest = []
    for nm, x in args:
        if nm and nm in fs and nm != "...":
            if nm in used:
                return "argument `%s` is supplied twice" % nm, used
            used.add(nm)
        else:
            rest.append((nm, x))
    rest2 = []
    for nm, x in rest:
        if nm:
            cand = [f for f in before if f not in used and f.startswith(nm)]
            if len(cand) == 1:
                used.add(cand[0])
                continue
            if not dots:
                return "no formal `%s` in (%s)" % (nm, ", ".join(formals)), used
        else:
            rest2.append(x)
    free = [f for f in before if f not in used]
    for x in rest2:
        if free:
            used.add(free.pop(0))
        elif not dots:
            return "too many arguments for (%s)" % ", ".join(formals), used
    return None, used


def analyse(P, natives, rep, extra_ns):
    def report(rule, key, where, msg):
        rep.violation(rule, key, where, msg)

    # formals each function certainly needs: no default, used, never tested with missing()
    need = {}
    for name, fn in P.funs.items():
        req = []
        for f in fn.formals:
            if f == "..." or fn.defaults.get(f) is not None:
                continue
            used = False
            guarded = False
            for n in fn.body.walk():
                if n.t == "call" and n.callee() in ("missing", "is_missing", "maybe_missing", "missing_arg", "substitute", "enquo", "quo", "enexpr", "match.arg", "UseMethod", "standardGeneric", "environment", "match.call", "sys.call", "NextMethod", "eval", "delayedAssign", "stopifnot") and not (n.callee() in ("UseMethod",)):
                    if n.callee() in ("environment", "match.call", "sys.call", "NextMethod", "eval"):
                        guarded = True
                    if any(x.t == "sym" and x.n == f for _, x in n.a):
                        guarded = True
                if n.t == "sym" and n.n == f:
                    used = True
            if used and not guarded:
                req.append(f)
        need[name] = req

    formal_names = {x for f in P.funs.values() for x in f.formals}

    def visit(n, scopes, file, who, ctx=None):
        where = "%s:%d" % (file, n.l)
        if n.t == "fun":
            s = scopes + [locals_of(n)]
            for _, d in n.f:
                if d is not None:
                    visit(d, s, file, who, "default")
            visit(n.b, s, file, who)
            return
        if n.t == "sym":
            nm = n.n
            if nm == "..." or nm.startswith("..") or nm in DISPATCH_VARS:
                return
            if any(nm in s for s in scopes):
                rep.ok("variable")
                return
            pk = P.imported(nm)
            if pk and not P.defined(nm) and P.base[pk][nm][0] and nm in formal_names and ctx not in HIGHER_ORDER:
                report("variable", "%s:%s" % (who, nm), where, "%s refers to the variable `%s`, which is not bound there: the name reaches the function %s::%s()" % (who, nm, pk, nm))
                return
            if P.defined(nm) or pk or nm in natives or nm in extra_ns:
                rep.ok("variable")
                return
            report("variable", "%s:%s" % (who, nm), where, "%s refers to `%s`, which is bound nowhere" % (who, nm))
            return
        if n.t != "call":
            return
        c = n.callee()
        if n.h.t == "call" and n.h.callee() in ("::", ":::"):
            pkg = n.callee_pkg()
            nm = n.h.a[1][1].text()
            if pkg in P.base and n.h.callee() == "::":
                if nm not in P.base[pkg]:
                    report("call", "%s:%s::%s" % (who, pkg, nm), where, "%s calls %s::%s, which does not exist" % (who, pkg, nm))
                else:
                    check_args(n, P.base[pkg][nm][1], "%s::%s" % (pkg, nm), None, who, where)
            elif pkg == "vctrs":
                if not P.defined(nm):
                    report("call", "%s:%s" % (who, nm), where, "%s calls vctrs::%s, which does not exist" % (who, nm))
            for _, x in n.a:
                visit(x, scopes, file, who)
            return
        if n.t == "call" and c in ("::", ":::"):
            pkg, nm = n.a[0][1].text(), n.a[1][1].text()
            if pkg in P.base and c == "::" and nm not in P.base[pkg]:
                report("call", "%s:%s::%s" % (who, pkg, nm), where, "%s refers to %s::%s, which does not exist" % (who, pkg, nm))
            else:
                rep.ok("call")
            return
        if c in QUOTING:
            return
        if c in ("$", "@"):
            visit(n.a[0][1], scopes, file, who)
            return
        if c == "local" and n.a:
            s = set()
            for x in n.a[0][1].walk():
                if x.t == "call" and x.callee() in ("<-", "=") and x.a[0][1].t == "sym":
                    s.add(x.a[0][1].n)
            for _, x in n.a:
                visit(x, scopes + [s], file, who)
            return
        if n.h.t == "sym":
            nm = n.h.n
            if any(nm in s for s in scopes):
                rep.ok("call")
            elif P.defined(nm):
                fn = P.fun(nm)
                if fn is not None:
                    check_args(n, fn.formals, nm, need.get(fn.name), who, where)
                else:
                    rep.ok("call")
            elif P.imported(nm):
                pk = P.imported(nm)
                check_args(n, P.base[pk][nm][1] if P.base[pk][nm][0] else None, nm, None, who, where)
            elif nm in extra_ns:
                rep.ok("call")
            else:
                report("call", "%s:%s" % (who, nm), where, "%s calls `%s()`, which does not exist" % (who, nm))
        else:
            visit(n.h, scopes, file, who)
        # replacement functions: f(x) <- v needs `f<-`
        if c in ("<-", "=", "<<-"):
            t = n.a[0][1]
            while t.t == "call":
                hc = t.callee()
                pk = t.callee_pkg()
                if hc and pk is None and hc not in ("$", "[", "[[", "@", "("):
                    rn = hc + "<-"
                    if not (any(rn in s for s in scopes) or P.defined(rn) or P.imported(rn)):
                        report("call", "%s:%s" % (who, rn), where, "%s uses replacement `%s`, which does not exist" % (who, rn))
                    else:
                        rep.ok("call")
                # the target's own function need not exist as a getter
                if hc not in ("$", "@"):
                    for _, x in t.a[1:]:
                        visit(x, scopes, file, who)
                if not t.a:
                    break
                t = t.a[0][1]
            for _, x in n.a[1:]:
                visit(x, scopes, file, who)
            return
        for _, x in n.a:
            visit(x, scopes, file, who, c)

    def check_args(n, formals, nm, req, who, where):
        if formals is None:
            rep.ok("call")
            return
        if any(x.t == "sym" and x.n == "..." for _, x in n.a):
            # what `...` adds is unknown; only exact checks of names remain
            bad = [a for a, _ in n.a if a and "..." not in formals and a not in formals and not any(f.startswith(a) for f in formals)]
            if bad:
                rep.violation("arguments", "%s:%s:%s" % (who, nm, bad[0]), where, "%s calls `%s()` with `%s`, which is not among (%s)" % (who, nm, bad[0], ", ".join(formals)))
            else:
                rep.ok("arguments")
            return
        if any(x.t == "call" and x.callee() == "!!!" for _, x in n.a) or any(x.t == "call" and x.callee() == "!" and x.a and x.a[0][1].t == "call" and x.a[0][1].callee() == "!" for _, x in n.a):
            rep.ok("call")
            return
        args = [(a, x) for a, x in n.a if not (x.t == "missing" and False)]
        if n.parent is not None and n.parent.t == "call" and n.parent.callee() in ("|>", "%>%"):
            rep.ok("call")
            return
        err, used = match_call(formals, args)
        if err:
            rep.violation("arguments", "%s:%s:%s" % (who, nm, err.split("(")[0].strip()), where, "%s calls `%s()`: %s" % (who, nm, err))
            return
        rep.ok("arguments", sample="%s: %s()" % (where, nm))
        if req is not None:
            miss = [f for f in req if f not in used]
            if miss:
                rep.violation("arguments", "%s:%s:missing %s" % (who, nm, ",".join(miss)), where, "%s calls `%s()` without `%s`, which has no default and is used" % (who, nm, ", ".join(miss)))

    for file, l, n in P.top:
        if n.t == "call" and n.callee() in ("<-", "="):
            who = n.a[0][1].text()
            v = n.a[1][1]
            visit(v, [], file, who)
        else:
            visit(n, [], file, "<top level of %s>" % file)


def run(rep):
    M = common.load_module()
    P = common.load_r()
    T = cside.tables(M)
    natives = set(T["call"]) | set(T["ext"])
    rep.rule("variable", "every variable read in R code is bound in an enclosing scope, the package, its imports or base", 3000)
    rep.rule("call", "every function called in R code exists", 500)
    rep.rule("arguments", "every call to a function with known formals matches them, and supplies the formals the function needs", 3000)
    # names bound into the namespace at load time
    extra = set()
    for file, l, n in P.top:
        for x in n.calls():
            if x.callee() == "env_bind" and x.a and x.a[0][1].t == "sym" and x.a[0][1].n == "ns":
                extra |= {a for a, _ in x.a[1:] if a}
    analyse(P, natives, rep, extra)
    rep.coverage["functions_analysed"] = len(P.funs)


if __name__ == "__main__":
    main(PROP, run)
