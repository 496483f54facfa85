"""P14: errors name the call and the argument they are about."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import cside
import native_binding as nb
import rast
import callback_binding
import native_binding
from common import borrow, AnalysisBroken, main
from sides import Sides, stem

PROP = "P14"
CALLS = {"call", "error_call", ".error_call", ".call"}

# R calls that deliberately do not carry the caller's error call.
R_OWN_CALL = {
    "check_dots_empty0": "reports misuse of the function itself, which is the frame that calls it",
    "check_dots_empty": "same", "arg_match": "reports misuse of the function itself", "arg_match0": "same",
    "abort": "reports misuse of, or a fault in, the function itself",
}
# (caller, callee) -> reason
R_EXEMPT = {
    ("vec_assert", "vec_ptype"): "soft-deprecated function whose inputs were checked just before",
    ("vec_assert", "vec_cast"): "validates the argument `size` of the function itself",
    ("proxy_equal_numeric_version", "vec_rep"): "operands are computed, sizes cannot be wrong",
    ("stop_incompatible_type", "obj_check_vector"): "asserts that the error constructor is used with vectors",
    ("vec_default_ptype2", "vec_ptype"): "reached only for a type and itself, which was checked to be a vector",
}
# native calls that may not forward: (caller, callee) -> reason
C_EXEMPT = {
    ("vec_as_subscript_opts", "vec_cast"): "casting an unspecified vector to an empty builtin prototype cannot fail",
    ("vec_assign_switch", "stop_scalar_type"): "unreachable: every caller has checked that the proxy is a vector",
    ("dbl_cast_subscript_fallback", "cast_opts"): "its error is caught and becomes the parent of one that carries the call",
    ("vec_set_union", "vec_c"): "both operands were cast to the common type before, and names are not repaired",
    ("vec_set_symmetric_difference", "vec_c"): "same",
    ("vec_set_union", "name_repair_opts"): "options of that call",
    ("vec_set_symmetric_difference", "name_repair_opts"): "options of that call",
    ("new_name_repair_opts", "*"): "validates the repair argument itself, reported by the repair error",
}


def ext_names(M, P):
    """names the R callers give to the positions of .External2 argument lists"""
    T = cside.tables(M)
    sites = {}
    for name, fn in P.funs.items():
        for c in fn.body.calls():
            if c.callee() in (".External", ".External2") and c.a:
                sites.setdefault(c.a[0][1].text(), []).append(c)
    ext = {}
    for r, v in T["ext"].items():
        if r == "#dup" or v[0] not in M.funcs:
            continue
        f = M.funcs[v[0]]
        _, pos, _ = nb.ext_consumption(M, f, 2 if f.nargs == 4 else 0)
        m = {}
        for k, ids in pos.items():
            nm = {c.a[k][1].n for c in sites.get(r, ()) if k < len(c.a) and c.a[k][1].t == "sym"}
            if len(nm) == 1:
                for x in ids:
                    m[x] = next(iter(nm))
        ext[v[0]] = m
    return ext


# parts of the context that are no operands
SETTING = {"frame", "call", "opts", "env", "error_call", "left", "dir", "lossy", "fallback"}


FRAME = {"frame", "ffi_frame", "env", "rho"}


def label_of(names, a):
    for l in (a + "_arg", "p_" + a + "_arg"):
        if l in names:
            return l
    return None


def is_call(a):
    """a parameter holding the call to report: struct r_lazy, or a call object"""
    return a["n"].endswith("call.coerce0") or (a["n"] in ("call", "error_call", "lazy_call") and (a.get("byval") or a["t"] == "ptr"))


class C:
    def __init__(self, M, P, rep):
        self.M, self.rep = M, rep
        self.S = Sides(M, ext_names(M, P))

    def owncall(self, f):
        if any(is_call(a) for a in f.args):
            return "param"
        for k in range(f.nargs):
            if f.args[k].get("sret"):
                continue
            for t in self.ptypes.get((f.name, k), ()):
                if any(x[1] == "call" for x in self.M.structs.get(t, ())):
                    return "opts"
        # a call looked up lazily, or the frame itself, stored as one
        for (b, off), ss in self.S.storemap(f).items():
            for s in ss:
                n = cside.symname(self.M, f, s.a[0], self.S.cg)
                if n in CALLS:
                    return "local"
        # a routine that is handed the frame of its caller can look the call up there
        if f.name in self.routines and any(f.args[k]["n"] in FRAME for k in range(f.nargs)):
            return "frame"
        # a function that names a call to report to someone
        for i in f.calls():
            g = self.M.funcs.get(i.f)
            for k in range(min(g.nargs, len(i.a)) if g else 0):
                if is_call(g.args[k]):
                    kinds = self.ptrkind(f, i.a[k]) if g.args[k].get("byval") else self.callkind(f, i.a[k])
                    if any(x.startswith("const") for x in kinds):
                        return "names"
        return None

    def param_types(self):
        """(function, parameter) -> struct types it points to"""
        M = self.M
        pt = {}
        tn = lambda st: st.replace("%struct.", "")
        for f in M.funcs.values():
            for i in f.insts():
                if i.op == "getelementptr" and i.st and i.st.startswith("%struct") and isinstance(i.a[0], int) and i.a[0] < f.nargs:
                    pt.setdefault((f.name, i.a[0]), set()).add(tn(i.st))
        self.altypes = {}
        for f in M.funcs.values():
            for al, n, _ in self.structs(f):
                self.altypes[f.name, al.id] = n
        ch = True
        while ch:
            ch = False
            for f in M.funcs.values():
                for i in f.calls():
                    g = M.funcs.get(i.f)
                    if g is None or g.nargs == 0:
                        continue
                    for k, a in enumerate(i.a[:g.nargs]):
                        if not isinstance(a, int):
                            continue
                        ts = pt.get((f.name, a), set()) if a < f.nargs else {self.altypes[f.name, a]} if (f.name, a) in self.altypes else set()
                        if ts - pt.get((g.name, k), set()):
                            pt.setdefault((g.name, k), set()).update(ts)
                            ch = True
        return pt

    def callkind(self, f, v, depth=0):
        """where an error call value comes from"""
        if isinstance(v, tuple) and v[0] in ("null", "g"):
            return {"null"} if v[0] == "null" else {"const:" + str(v[1])}
        if not isinstance(v, int) or depth > 6:
            return {"?"}
        if v < f.nargs:
            return {"own"} if "call" in f.argname(v) else {"param"}
        i = f.defs.get(v)
        if i is None:
            return {"?"}
        if i.op == "phi":
            r = set()
            for x, _ in i.inn:
                if x != v:
                    r |= self.callkind(f, x, depth + 1)
            return r
        if i.op == "select":
            return self.callkind(f, i.a[1], depth + 1) | self.callkind(f, i.a[2], depth + 1)
        if i.op == "call" and i.f and self.M.basename(i.f) in ("r_lazy_eval", "r_lazy_eval_protect", "Rf_protect"):
            g = self.M.funcs.get(i.f)
            if g is not None and g.args[0].get("byval"):
                return self.ptrkind(f, i.a[0])
            return self.callkind(f, i.a[0], depth + 1)
        if i.op == "load":
            if isinstance(i.a[0], tuple):
                if i.a[0][1] == "R_NilValue":
                    return {"null"}
                if cside.symname(self.M, f, v, self.S.cg) in CALLS:
                    return {"own"}
                return {"null"} if i.a[0][1] == "r_lazy_null" else {"const:" + str(i.a[0][1])}
            b, off = self.S.base(f, i.a[0])
            d = f.defs.get(b) if isinstance(b, int) else None
            if isinstance(b, int) and b < f.nargs:
                return {"own"}
            if d is not None and d.op == "alloca":
                r = set()
                for s in self.S.storemap(f).get((b, off), ()):
                    r |= self.callkind(f, s.a[0], depth + 1)
                for u in f.uses.get(b, ()):
                    if u.op == "call" and u.f and u.f.startswith("llvm.memcpy") and u.a[0] == b:
                        r |= self.ptrkind(f, u.a[1])
                return r or {"?"}
            if d is not None:
                return self.ptrkind(f, b)
        return {"?"}

    def ptrkind(self, f, p, depth=0):
        if isinstance(p, tuple):
            return {"null"} if p[1] == "r_lazy_null" else {"const:" + str(p[1])}
        b, off = self.S.base(f, p)
        if isinstance(b, tuple):
            return {"null"} if b[1] == "r_lazy_null" else {"const"}
        if b < f.nargs:
            return {"own"}
        d = f.defs.get(b)
        if d is not None and d.op == "alloca" and depth < 4:
            r = set()
            for s in self.S.storemap(f).get((b, off), ()):
                r |= self.callkind(f, s.a[0], depth + 1)
            for u in f.uses.get(b, ()):
                if u.op == "call" and u.f and u.f.startswith("llvm.memcpy") and u.a[0] == b:
                    r |= self.ptrkind(f, u.a[1], depth + 1)
            for u in f.uses.get(b, ()):
                if u.op == "getelementptr" and u.off == off:
                    for x in f.uses.get(u.id, ()):
                        if x.op == "call" and (x.f or "").startswith("llvm.memcpy") and x.a[0] == u.id:
                            r |= self.ptrkind(f, x.a[1], depth + 1)
            return r or {"?"}
        if d is not None and d.op == "load":
            return {"own"}     # a pointer held in a struct
        return {"?"}

    def structs(self, f):
        """alloca -> (struct fields, name) for structs with a known layout"""
        for i in f.insts():
            if i.op != "alloca":
                continue
            ts = {u.st for u in f.uses.get(i.id, ()) if u.op == "getelementptr" and u.st and u.st.startswith("%struct")}
            if len(ts) != 1:
                continue
            n = next(iter(ts)).replace("%struct.", "")
            s = self.M.structs.get(n)
            if s:
                yield i, n, s

    def run(self):
        M, S, rep = self.M, self.S, self.rep
        self.ptypes = self.param_types()
        T = cside.tables(M)
        self.routines = {v[0] for t in T.values() if isinstance(t, dict) for v in t.values() if isinstance(v, (tuple, list))}
        # option structs whose call is read by someone they are passed to
        self.readers = set()
        self.labelled = {}
        for f in M.funcs.values():
            for i in f.insts():
                if i.op == "getelementptr" and i.st and isinstance(i.a[0], int) and i.a[0] < f.nargs:
                    self.readers.add((i.st.replace("%struct.", ""), i.off))
        for f in M.funcs.values():
            own = self.owncall(f)
            base = M.basename(f.name)
            for i in f.calls():
                g = M.funcs.get(i.f)
                if g is None:
                    continue
                names = [a["n"] for a in g.args]
                gb = M.basename(g.name)
                where = "%s:%s" % (f.file, i.l)
                for k, n in enumerate(names):
                    if is_call(g.args[k]) and own and k < len(i.a):
                        byval = g.args[k].get("byval")
                        kinds = self.ptrkind(f, i.a[k]) if byval else self.callkind(f, i.a[k])
                        if kinds and all(x == "null" or own != "names" and x.startswith("const") for x in kinds) and (base, gb) not in C_EXEMPT and (base, "*") not in C_EXEMPT:
                            rep.violation("call", "%s:%s" % (base, gb), where, "%s() is told which call to report but calls %s() with %s" % (
                                base, gb, "no call" if kinds == {"null"} else "another one"))
                        else:
                            rep.ok("call")
                self.pairs(f, i, base, gb, where, [(n, i.a[k], g.args[k]["t"]) for k, n in enumerate(names) if k < len(i.a)])
            for al, sn, s in self.structs(f):
                stores = {off: ss for (b, off), ss in S.storemap(f).items() if b == al.id}
                where = "%s:%s" % (f.file, al.l or (next(iter(stores.values()))[0].l if stores else f.line))
                flds = {x[1]: x for x in s}
                vals = []
                for n, x in flds.items():
                    if x[0] in stores:
                        # several stores: an object reused for each element of a loop
                        vals.append((n, [y.a[0] for y in stores[x[0]]], x[2]))
                self.pairs(f, None, base, sn, where, [(n, v, t) for n, v, t in vals])
                if "call" in flds and (sn, flds["call"][0]) in self.readers and own not in (None, "frame", "names") and (base, sn) not in C_EXEMPT and any(n != "call" for n, _, _ in vals):
                    co = flds["call"][0]
                    copied = any(u.op == "call" and u.f and u.f.startswith("llvm.memcpy") and u.a[0] == al.id for u in f.uses.get(al.id, ()))
                    setc = co in stores
                    for u in f.uses.get(al.id, ()):
                        if u.op == "getelementptr" and u.off == co:
                            setc |= any(x.op == "call" and not (x.f or "").startswith("llvm.memset") and not (x.f or "").startswith("llvm.lifetime") for x in f.uses.get(u.id, ()))
                            kinds = set()
                            for x in f.uses.get(u.id, ()):
                                if x.op == "call" and (x.f or "").startswith("llvm.memcpy") and x.a[0] == u.id:
                                    kinds |= self.ptrkind(f, x.a[1])
                            if kinds and kinds <= {"null"}:
                                setc = copied = False
                    if not (copied or setc) and (base, "*") not in C_EXEMPT:
                        rep.violation("options", "%s:%s" % (base, f.vn.get(al.id) or sn), where, "%s() is told which call to report but hands on options without it" % base)
                    else:
                        rep.ok("options")

    def st(self, f, v):
        if isinstance(v, list):
            r = frozenset()
            for x in v:
                r |= self.S.stems(f, x)
            return r
        return self.S.stems(f, v)

    def operands_of(self, f):
        """the operands a function has labels for"""
        got = self.labelled.get(f.name)
        if got is None:
            names = {}
            for k in range(f.nargs):
                names.setdefault(stem(f.args[k]["n"] or ""), set()).add((f.args[k]["n"] or "").rstrip("_").endswith("_arg"))
            for i in f.insts():
                if i.op == "getelementptr":
                    fl = self.S.field(i)
                    if fl and fl[0]:
                        names.setdefault(stem(fl[0]), set()).add(fl[0].endswith("_arg"))
            got = self.labelled[f.name] = {n for n, k in names.items() if k == {True, False}} - SETTING
        return got

    def pairs(self, f, i, base, gb, where, items):
        rep = self.rep
        names = [n for n, _, _ in items]
        d = {n: (v, t) for n, v, t in items}
        lp = [(n, label_of(names, n)) for n in names]
        lp = [(a, b) for a, b in lp if b]
        if not lp:
            # one operand and its label
            ls = [n for n in names if n in ("arg", "p_arg")]
            xs = [n for n in names if d[n][1] == "ptr" and n not in ls and stem(n) not in SETTING and not is_call({"n": n, "t": "ptr"}) and "call" not in n]
            if len(ls) == 1 and len(xs) == 1:
                lp = [(xs[0], ls[0])]
        side = {}
        for a, b in lp:
            side[a], side[b] = self.st(f, d[a][0]) - SETTING, self.st(f, d[b][0]) - SETTING
        for a, b in lp:
            if side[a] and side[b] and not side[a] & side[b]:
                oth = set().union(*[side[x] for x, _ in lp if x != a]) if len(lp) > 1 else self.operands_of(f)
                if side[b] <= oth:
                    rep.violation("label", "%s:%s:%s" % (base, gb, a), where, "%s() passes %s as '%s' of %s() with the label of %s" % (
                        base, "/".join(sorted(side[a])), a, gb, "/".join(sorted(side[b]))))
                    continue
            if side[a] and side[b]:
                rep.ok("label")
        # operands that change places
        sd = {n: self.st(f, v) for n, (v, t) in d.items()}
        ns = [n for n in names if sd[n]]
        for x in range(len(ns)):
            for y in range(x + 1, len(ns)):
                a, b = ns[x], ns[y]
                if d[a][1] != d[b][1] or stem(a) == stem(b):
                    continue
                if sd[a] == {stem(b)} and sd[b] == {stem(a)}:
                    rep.violation("operands", "%s:%s:%s,%s" % (base, gb, a, b), where, "%s() passes its %s as '%s' and its %s as '%s' of %s()" % (
                        base, stem(b), a, stem(a), b, gb))
                elif sd[a] == {stem(a)} and sd[b] == {stem(b)}:
                    rep.ok("operands")


def closure(fn):
    """local name -> names it is computed from"""
    dep = {}
    for n in fn.body.walk():
        if n.t == "call" and n.callee() in ("<-", "=") and len(n.a) == 2 and n.a[0][1].t in ("sym", "str"):
            dep.setdefault(n.a[0][1].text(), set()).update(x.n for x in n.a[1][1].walk() if x.t == "sym")
    return dep


def names_of(node, dep, formals):
    res, work, seen = set(), [x.n for x in node.walk() if x.t == "sym"], set()
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in formals:
            res.add(n)
        work.extend(dep.get(n, ()))
    return {stem(x) for x in res}


def bind(g, c):
    """argument name -> expression of call c to a function with formals g"""
    d = {a: x for a, x in c.a if a}
    rest = [x for x in g if x not in d]
    if "..." in rest:
        rest = rest[:rest.index("...")]
    un = [x for a, x in c.a if not a]
    d.update(zip(rest, un))
    return d


def r_side(P, rep):
    for nm, fn in P.funs.items():
        dep = closure(fn)
        formals = set(fn.formals)
        for q in fn.body.walk():
            if q.t == "fun":
                formals |= {n for n, _ in q.f}
        own = [x for x in fn.formals if x in CALLS]
        for c in fn.body.calls():
            cal = c.callee()
            if not cal:
                continue
            g = P.fun(cal)
            gf = g.formals if g else None
            if gf is None and cal in P.base.get("rlang", {}):
                gf = P.base["rlang"][cal][1]
            where = "%s:%d" % (fn.file, c.l)
            if not isinstance(gf, list):
                # calls to unknown functions: labels by explicit name only
                d = {a: x for a, x in c.a if a}
            else:
                d = bind(gf, c)
            lp = [(a, a + "_arg") for a in d if a + "_arg" in d]
            side = {}
            for a, b in lp:
                side[a], side[b] = names_of(d[a], dep, formals), names_of(d[b], dep, formals)
            for a, b in lp:
                if side[a] and side[b]:
                    oth = set().union(*[side[x] for x, _ in lp if x != a]) if len(lp) > 1 else set()
                    if not oth:
                        oth = {stem(x) for x in fn.formals if x + "_arg" in fn.formals} - side[a]
                    if not side[a] & side[b] and side[b] <= oth:
                        rep.violation("r-label", "%s:%s:%s" % (nm, cal, a), where, "%s() passes %s as '%s' of %s() with the label of %s" % (
                            nm, "/".join(sorted(side[a])), a, cal, "/".join(sorted(side[b]))))
                    else:
                        rep.ok("r-label")
            if g is None:
                continue
            ks = [a for a, x in d.items() if x.t == "sym" and x.n in formals and x.n not in dep]
            for a in ks:
                for b in ks:
                    if a < b and d[a].n == b and d[b].n == a:
                        rep.violation("r-operands", "%s:%s:%s,%s" % (nm, cal, a, b), where, "%s() passes its %s as '%s' and its %s as '%s' of %s()" % (nm, b, a, a, b, cal))
                    elif a < b and d[a].n == a and d[b].n == b:
                        rep.ok("r-operands")
            t = [x for x in gf if x in CALLS]
            if own and t and cal not in R_OWN_CALL and (nm, cal) not in R_EXEMPT:
                if len(rast.enclosing_funs(c)) > 1:
                    continue
                passed = [d[x] for x in t if x in d]
                dots = any(x.t == "sym" and x.n == "..." for _, x in c.a)
                if passed and any(names_with(x, dep) & set(own) for x in passed) or dots:
                    rep.ok("r-call")
                else:
                    rep.violation("r-call", "%s:%s" % (nm, cal), where, "%s() is told which call to report but calls %s() without it" % (nm, cal))


def names_with(node, dep):
    r, work = set(), [x.n for x in node.walk() if x.t == "sym"]
    while work:
        n = work.pop()
        if n in r:
            continue
        r.add(n)
        work.extend(dep.get(n, ()))
    return r


def run(rep):
    M = common.load_module()
    P = common.load_r()
    rep.rule("call", "a native function told which call to report tells the functions that can fail", 70)
    rep.rule("options", "options built by a native function told which call to report carry that call", 10)
    rep.rule("label", "an operand and its label, handed on together, belong together", 80)
    rep.rule("operands", "two operands do not change places on their way through native functions", 300)
    rep.rule("r-call", "an R function told which call to report tells the functions that can fail", 90)
    rep.rule("r-label", "an operand and its label belong together in R calls", 80)
    rep.rule("r-operands", "two operands do not change places in R calls", 100)
    rep.rule("callback", "labels, calls and operands arrive under their own names where native code calls R functions", 60)
    rep.rule("native", "labels and operands arrive under their own names where R code calls native routines", 100)
    C(M, P, rep).run()
    r_side(P, rep)
    borrow(rep, callback_binding.run, ("order",), "callback")
    borrow(rep, native_binding.run, ("order",), "native")
    rep.coverage.update({"functions": len(M.funcs), "r_functions": len(P.funs), "exceptions": {"%s>%s" % k: v for k, v in {**R_EXEMPT, **C_EXEMPT}.items()}})
    rep.assumptions += ["labels are paired with operands by name (x and x_arg)", "labels looked up lazily in the calling frame are matched to variables by P05"]


if __name__ == "__main__":
    main(PROP, run)
