"""P22: S3 methods are registered for the right generic, exist, and can be called."""
import glob
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import rast
from common import AnalysisBroken, main

PROP = "P22"

# Group generics: members share the formals of the group.
GROUPS = {"Ops": ["e1", "e2"], "Math": ["x", "..."], "Summary": ["...", "na.rm"], "Complex": ["z"]}
# Functions named like a method that are deliberately not registered.
PLAIN = {
    # base functions or helpers whose name happens to contain a generic's name
    "is.na.vec": "not a method",
}
# Methods whose formals differ from the generic on purpose: (method) -> reason
FORMALS_OK = {}


def generics(P):
    """generics defined by the package: name -> formals"""
    g = {}
    groups = {}
    for name, fn in P.funs.items():
        for c in fn.body.calls():
            if c.callee() == "UseMethod" and len(rast.enclosing_funs(c)) == 1 and c.a and c.a[0][1].t == "str":
                g[c.a[0][1].v] = fn
    return g


def registrations(P):
    """(generic, class, function name or None, where, delayed generic package)"""
    for g, c, m in P.s3:
        yield g, c, m or "%s.%s" % (g, c), "NAMESPACE", None, False
    for name, fn in P.funs.items():
        for c in fn.body.calls():
            if c.callee() != "s3_register":
                continue
            gen, cls = c.arg("generic", 0), c.arg("class", 1)
            m = c.arg("method", 2)
            if gen is None or cls is None or gen.t != "str" or cls.t != "str":
                continue
            pkg, _, g = gen.v.rpartition("::")
            if m is not None and m.t != "sym":
                continue
            yield g, cls.v, m.text() if m is not None else "%s.%s" % (g, cls.v), "%s:%d" % (fn.file, c.l), pkg, True


def gen_formals(P, G, g, pkg=None):
    if g in GROUPS:
        return GROUPS[g]
    if g in G and pkg in (None, "vctrs", ""):
        return G[g].formals
    for p in ([pkg] if pkg else ["base", "stats", "utils", "methods", "graphics", "grDevices"]):
        e = P.base.get(p, {}).get(g)
        if e:
            return e[1] if isinstance(e[1], list) else None
    return None


# formals of base generics whose definition is primitive
PRIM = {"[": ["x", "i", "j", "...", "drop"], "[[": ["x", "i", "..."], "$": ["x", "name"], "[<-": ["x", "i", "j", "...", "value"],
        "[[<-": ["x", "i", "...", "value"], "$<-": ["x", "name", "value"], "length": ["x"], "names": ["x"], "dim": ["x"],
        "dimnames": ["x"], "levels": ["x"], "c": ["..."], "rep": ["x", "..."], "as.character": ["x", "..."], "as.integer": ["x", "..."],
        "as.double": ["x", "..."], "as.logical": ["x", "..."], "is.na": ["x"], "xtfrm": ["x"], "unlist": ["x"], "seq_along": ["along.with"],
        "names<-": ["x", "value"], "dim<-": ["x", "value"], "dimnames<-": ["x", "value"], "levels<-": ["x", "value"],
        "length<-": ["x", "value"], "is.finite": ["x"], "is.infinite": ["x"], "is.nan": ["x"], "anyNA": ["x", "recursive"], "cbind": None}
# operators and functions dispatched through group generics
OPS = {"+", "-", "*", "/", "^", "%%", "%/%", "==", "!=", "<", "<=", ">", ">=", "&", "|"}


def compatible(gf, mf):
    """None, or why a method with formals mf cannot serve a generic with formals gf"""
    if "..." in mf and mf[0] == "...":
        return None
    mi = 0
    for k, a in enumerate(gf):
        if a == "...":
            break
        if k >= len(mf):
            return "lacks the generic's argument '%s'" % a
        if mf[k] == "...":
            if a in mf:
                continue
            return None
        if mf[k] != a:
            return "has '%s' where the generic has '%s'" % (mf[k], a)
    if "..." in gf and "..." not in mf:
        # extra arguments passed on by the generic would be an error; allowed
        # for generics that never pass any
        return None
    if "..." not in gf:
        for a in gf:
            if a not in mf and "..." not in mf:
                return "lacks the generic's argument '%s'" % a
    return None


NEEDED = {"[": 2, "[[": 2, "$": 2, "[<-": 3, "[[<-": 3, "$<-": 3}


def primitive(gf, mf):
    """internal dispatch passes arguments by position, and `value` by name, last"""
    if "value" in gf:
        if "value" not in mf:
            return "has no argument 'value'"
        if mf[-1] != "value":
            return "does not take 'value' last"
    pos = [a for a in mf if a != "..."]
    need = NEEDED[G_NAME[0]] if G_NAME[0] in NEEDED else len([a for a in gf if a in ("x", "value", "name")])
    if len(pos) < need and "..." not in mf:
        return "takes %d arguments where the generic passes %d" % (len(pos), need)
    if "drop" in gf and "drop" in mf and "..." in mf and mf.index("drop") < 2:
        return "takes 'drop' before the subscripts"
    return None


G_NAME = [None]


def run(rep):
    P = common.load_r()
    rep.rule("exists", "a registered method is a function of the package", 450)
    rep.rule("generic", "the generic a method is registered for exists", 450)
    rep.rule("formals", "a method accepts the generic's arguments in the generic's order", 300)
    rep.rule("registered", "a function written as a method of a generic is registered, once, for the class it names", 300)
    rep.rule("dispatch", "a generic dispatches under its own name", 15)
    rep.rule("guard", "a delayed registration is guarded by the absence of that very method family in that very package", 8)
    rep.rule("sole", "no two registrations compete for the same generic and class", 450)
    G = generics(P)
    if len(G) < 15:
        raise AnalysisBroken("only %d generics found" % len(G))
    seen = {}
    used = set()
    for g, cls, m, where, pkg, delayed in registrations(P):
        fn = P.fun(m)
        defined = fn is not None
        if not defined and not P.defined(m):
            rep.violation("exists", "%s.%s" % (g, cls), where, "method %s registered for %s() on class '%s' does not exist" % (m, g, cls))
            continue
        rep.ok("exists", sample="%s.%s -> %s" % (g, cls, m))
        used.add(m)
        if not delayed:
            if g in G or g in GROUPS or g in P.funs or any(g in P.base.get(p, {}) for p in P.base) or g in PRIM:
                rep.ok("generic")
            else:
                rep.violation("generic", g + "." + cls, where, "method registered for %s(), which is neither defined nor imported" % g)
        elif pkg == "vctrs" and g not in G and g not in P.funs:
            rep.violation("generic", g + "." + cls, where, "method registered for vctrs::%s(), which does not exist" % g)
        else:
            rep.ok("generic")
        key = (g, cls)
        if key in seen and seen[key][0] != m and not (delayed or seen[key][1]):
            rep.violation("sole", "%s.%s" % key, where, "%s() has two methods for '%s': %s and %s" % (g, cls, seen[key][0], m))
        elif delayed and key in seen and seen[key][0] != m and seen[key][2].split(":")[0] == where.split(":")[0]:
            rep.violation("sole", "%s.%s" % key, where, "%s() on '%s' is registered twice, as %s and as %s" % (g, cls, seen[key][0], m))
        else:
            rep.ok("sole")
        seen[key] = (m, delayed, where)
        # the class in the function's own name, where it has one
        for sep in (".", "_"):
            pre = g + sep
            if m.startswith(pre):
                own = m[len(pre):]
                if norm(own) != norm(cls):
                    rep.violation("registered", "%s.%s" % (g, cls), where, "%s is registered for class '%s'" % (m, cls))
                else:
                    rep.ok("registered")
                break
        if fn is None:
            continue
        gf = gen_formals(P, G, g, pkg if delayed else None)
        if g in PRIM:
            gf = PRIM[g]
        if gf is None:
            continue
        G_NAME[0] = g
        why = primitive(gf, fn.formals) if g in PRIM else compatible(gf, fn.formals)
        if why:
            rep.violation("formals", m, "%s:%d" % (fn.file, fn.line), "method %s %s" % (m, why))
        else:
            rep.ok("formals")
    groups = {}
    for name, fn in P.funs.items():
        for c in fn.body.calls():
            if c.callee() == "UseMethod" and len(rast.enclosing_funs(c)) == 1 and c.a and c.a[0][1].t == "str":
                g = c.a[0][1].v
                has = any(x == g for x, _, _ in P.s3)
                if g == name or (has and not any(x == name for x, _, _ in P.s3)):
                    rep.ok("dispatch")
                else:
                    rep.violation("dispatch", name, "%s:%d" % (fn.file, c.l), "%s() dispatches to the methods of %s()" % (name, c.a[0][1].v))
            # if (!env_has(ns_env(pkg), "generic.class")) { s3_register(...) }
            if c.callee() == "s3_register" and len(rast.enclosing_funs(c)) == 1 and name != "s3_register":
                guarded(P, rep, fn, c, groups)
    for (at, _, _), (where, load, npkg, full) in groups.items():
        bad = None
        if at not in full:
            bad = "is guarded by %s, which it does not register" % at
        elif load and npkg and load != npkg:
            bad = "looks into %s when %s is loaded" % (npkg, load)
        if bad:
            rep.violation("guard", at, where, "a delayed registration " + bad)
        else:
            rep.ok("guard")
    # functions written as methods but never registered
    known = set(G) | {g for g, _, _ in P.s3}
    classes = {c for _, c, _ in P.s3 if "." not in c}
    for name, fn in P.funs.items():
        if name in used or name in P.exports or name in PLAIN:
            continue
        for g in known:
            if name.startswith(g + ".") and len(name) > len(g) + 1:
                cls = name[len(g) + 1:]
                if cls in classes or cls == "default" or (g in ("vec_ptype2", "vec_cast") and "." in cls):
                    # a method on a generic of the package that only the package
                    # itself calls is found without registration
                    rep.violation("registered", name, "%s:%d" % (fn.file, fn.line), "%s is written as a method of %s() for '%s' but not registered" % (name, g, cls))
    # methods for other packages' classes, written with underscores so that R
    # does not take them for methods before they are registered
    names = {}
    for name, fn in P.funs.items():
        for x in fn.node.walk():
            if x.t in ("sym", "str"):
                names.setdefault(x.n if x.t == "sym" else x.v, set()).add(name)
    for name, (_, _, v) in P.vars.items():
        for x in v.walk():
            if x.t in ("sym", "str"):
                names.setdefault(x.n if x.t == "sym" else x.v, set()).add(name)
    atoms = {norm(k[1]) for k in seen if k[1] != "default" and k[0] not in ("vec_ptype2", "vec_cast")}
    for g, cls in seen:
        if g in ("vec_ptype2", "vec_cast"):
            for k in range(len(cls)):
                if cls[k] == "." and any(norm(cls[:k]) == norm(x) for x in list(atoms) + ["data.frame", "tbl_df"]):
                    atoms |= {norm(cls[:k]), norm(cls[k + 1:])}
    for name, fn in P.funs.items():
        if name in used or name in P.exports or name in PLAIN or names.get(name, set()) - {name}:
            continue
        for g in sorted(G, key=len, reverse=True):
            if name.startswith(g + "_") and classlike(name[len(g) + 1:], atoms) and fn.formals[:1] == G[g].formals[:1] and "..." in fn.formals and name not in native_names():
                rep.violation("registered", name, "%s:%d" % (fn.file, fn.line), "%s is written as a method of %s() but not registered for any class" % (name, g))
                break
    rep.coverage.update({"generics": len(G), "registrations": len(seen)})


def classlike(s, atoms):
    s = norm(s)
    return s in atoms or any(s[k] == "." and s[:k] in atoms and s[k + 1:] in atoms for k in range(1, len(s)))


def native_names():
    """names mentioned as strings in native code"""
    if not hasattr(native_names, "v"):
        txt = ""
        for f in sorted(glob.glob(os.path.join(common.REPO, "src", "**", "*.[ch]"), recursive=True)):
            txt += open(f, errors="replace").read()
        native_names.v = set(re.findall(r'"([A-Za-z_.][A-Za-z0-9_.]*)"', txt))
    return native_names.v


def lacks(P, n, pos, fn, depth=0):
    """the (package, method) pairs known to be absent if condition `n` is `pos`, and whether a method is known to be present"""
    if depth > 6:
        return set(), False
    if n.t == "call":
        f = n.callee()
        if f == "(":
            return lacks(P, n.a[0][1], pos, fn, depth)
        if f in ("!", "isFALSE", "is_false"):
            return lacks(P, n.a[0][1], not pos, fn, depth)
        if f in ("isTRUE", "is_true"):
            return lacks(P, n.a[0][1], pos, fn, depth)
        if f in ("&&", "||"):
            if (f == "&&") == pos:
                a, b = (lacks(P, x, pos, fn, depth) for _, x in n.a[:2])
                return a[0] | b[0], a[1] or b[1]
            return set(), False
        if f in ("env_has", "exists"):
            strs = [x.v for _, x in n.a if x.t == "str"]
            ns = [x for x in n.calls() if x.callee() in ("ns_env", "asNamespace")]
            pkg = ns[0].a[0][1].text() if ns and ns[0].a else None
            if strs:
                return ({(pkg, strs[0])}, False) if not pos else (set(), True)
        elif f in P.funs:
            # a predicate of the package about a package and a method
            strs = [x.v for _, x in n.a if x.t == "str"]
            inner = [x for x in P.funs[f].body.calls() if x.callee() in ("env_has", "exists")]
            if inner and strs:
                at = [x for x in strs if "." in x]
                pk = [x for x in strs if "." not in x]
                # the sense of the predicate: is the lookup negated?
                neg = sum(1 for x in P.funs[f].body.calls() if x.callee() == "!") % 2 == 1
                if at:
                    return ({(pk[0] if pk else None, at[0])}, False) if pos == neg else (set(), True)
    if n.t == "sym":
        for x in fn.body.calls():
            if x.callee() in ("<-", "=") and len(x.a) == 2 and x.a[0][1].t == "sym" and x.a[0][1].n == n.n:
                return lacks(P, x.a[1][1], pos, fn, depth + 1)
    return set(), False


def exits(n):
    if n.t != "call":
        return False
    if n.callee() == "return":
        return True
    return n.callee() == "{" and any(exits(x) for _, x in n.a)


def conditions(P, c, fn):
    """(absent methods, a method is known to be present, package being loaded) where call `c` runs"""
    absent, present, load, line = set(), False, None, c.l
    child, q = c, c.parent
    while q is not None:
        if q.t == "call":
            f = q.callee()
            if f == "if" and child is not q.a[0][1]:
                a, p = lacks(P, q.a[0][1], child is q.a[1][1], fn)
                absent |= a
                present = present or p
                if a:
                    line = q.l
            elif f == "{":
                for _, x in q.a:
                    if x is child:
                        break
                    if x.t == "call" and x.callee() == "if" and len(x.a) == 2 and exits(x.a[1][1]):
                        a, p = lacks(P, x.a[0][1], False, fn)
                        absent |= a
                        present = present or p
                        if a:
                            line = x.l
            elif f == "on_package_load":
                load = q.a[0][1].text()
        child, q = q, q.parent
    return absent, present, load, line


def guarded(P, rep, fn, c, groups):
    gen, cls = c.arg("generic", 0), c.arg("class", 1)
    if gen is None or cls is None or gen.t != "str" or cls.t != "str":
        return
    pkg, _, g = gen.v.rpartition("::")
    name = "%s.%s" % (g, cls.v)
    absent, present, load, line = conditions(P, c, fn)
    if not absent:
        line = fn.line
    if fn.name != ".onLoad" and (not absent or load is None):
        # a helper: what its callers know
        for other in P.funs.values():
            for x in other.body.calls():
                if x.callee() == fn.name:
                    a, p, l, _ = conditions(P, x, other)
                    absent = absent | a
                    present = present or p
                    load = load or l
    if present:
        rep.violation("guard", name, "%s:%d" % (fn.file, c.l), "%s is registered only if the other package already has the method" % name)
        return
    own = cls.v.startswith("vctrs_")
    if not absent:
        if own or pkg != "vctrs":
            return
        rep.violation("guard", name, "%s:%d" % (fn.file, c.l), "%s is registered for another package's class without checking that the package lacks it" % name)
        return
    for npkg, at in absent:
        w = groups.setdefault((at, fn.name, line), ("%s:%d" % (fn.file, line), load, npkg, []))
        w[3].append(name)


def norm(s):
    return s.replace("_", ".").lower()


if __name__ == "__main__":
    main(PROP, run)
