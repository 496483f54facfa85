"""P20: two vectors are brought to one type before their values are compared or
matched, and values are brought to the type of what they are put into."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import operands
import rops
from common import AnalysisBroken, main

PROP = "P20"
# functions telling the values of two vectors apart, by position of the operands
PAIRS = {"dict_hash_with": (0, 1), "vec_equal": (0, 1), "vec_compare": (0, 1), "vec_joint_xtfrm": (0, 1)}
KERNELS = {"poly_p_equal_na_equal", "poly_p_compare_na_equal"}
# functions putting values into a vector: (container, values)
ASSIGN = {"vec_proxy_assign_opts": (0, 2), "df_assign": (0, 2)}


def kernel(M, f, v, seen=None):
    seen = seen or set()
    if not isinstance(v, int) or v in seen:
        return False
    seen.add(v)
    d = f.defs.get(v) if v >= f.nargs else None
    if d is None:
        return False
    if d.op == "call":
        return M.basename(d.f) in KERNELS
    if d.op == "phi":
        return any(kernel(M, f, x, seen) for x, _ in d.inn)
    return False


def castkey(ops):
    for n, d in ops:
        if n in ("cast", "castall", "rank"):
            return (n if n == "rank" else "to", d)
    return None


def brief(ops):
    """the part of a chain the rule looks at: up to the first cast"""
    out = []
    for n, d in ops:
        if n in ("cast", "castall", "rank"):
            return tuple(out) + ((n, d),)
        if n in ("elem", "proxy", "attr") and len(out) < 3 and (n, d) not in out:
            out.append((n, d))
    return tuple(out)


class Check:
    def __init__(self, M, P, rep):
        self.M, self.P, self.rep = M, P, rep
        self.O = operands.Operands(M, P, operands.PAIR_OPS)
        self.C = self.O.C

    def pairs(self):
        M, rep = self.M, self.rep
        for f in M.funcs.values():
            if f.name not in self.O.live:
                continue
            for i in f.calls():
                b = M.basename(i.f)
                if b in PAIRS:
                    x, y = PAIRS[b]
                    self.pair(f, i, i.a[x], i.a[y], b + "()")
                elif not i.f and len(i.a) == 4 and kernel(M, f, i.fp):
                    self.pair(f, i, i.a[0], i.a[2], "a comparison of two elements")

    def pair(self, f, i, a, b, what):
        rep, C, O = self.rep, self.C, self.O
        seen = set()
        self.hit = False
        work = [(f, c1, c2, (f,)) for c1 in C.local(f, a) for c2 in C.local(f, b)]
        while work:
            g, (o1, s1), (o2, s2), path = work.pop()
            o1, o2 = brief(o1), brief(o2)
            k = (g.name, o1, s1, o2, s2)
            if k in seen:
                continue
            if self.hit or len(seen) > 20000:
                break
            seen.add(k)
            if (o1, s1) == (o2, s2):
                rep.ok("same")
                continue
            k1, k2 = castkey(o1), castkey(o2)
            if k1 and k2:
                if k1 == k2:
                    rep.ok("pairs", sample="%s: %s" % (i.loc(), what))
                else:
                    self.bad(f, i, path, what, "are cast to different types")
                continue
            # nothing supplied by the caller on one side
            if any(s[0] not in ("p", "pf") and not (s[0] == "fresh" and s[1] in operands.USER) for s in (s1, s2)):
                rep.ok("own")
                continue
            if s1[0] == "fresh" or s2[0] == "fresh":
                self.bad(f, i, path, what, "come from R code and are not brought to one type")
                continue
            cs = [c for c in C.callers.get(g.name, ()) if c[0].name in O.live]
            for h, j, args in cs:
                up1 = {(brief(o), s) for o, s in C.substitute(h, args, o1, s1)}
                up2 = {(brief(o), s) for o, s in C.substitute(h, args, o2, s2)}
                for d1 in up1:
                    for d2 in up2:
                        if (h.name, d1[0], d1[1], d2[0], d2[1]) not in seen:
                            work.append((h, d1, d2, path + (h,) if path[-1] is not h and len(path) < 12 else path))
            for r in O.live_routines(g):
                if s1[0] == "p" and s2[0] == "p":
                    self.rcalls(f, i, path, what, g, r, s1[1], s2[1])
            if g.name in O.shared:
                self.bad(f, i, path, what, "are arguments of %s() as other packages hand them over" % g.base)

    def rcalls(self, f, i, path, what, g, r, p1, p2):
        rep = self.rep
        T = self.O.uses_of(r)
        if not T:
            self.bad(f, i, path, what, "are arguments of routine %s" % r)
        for fn, call in T:
            args = [x for n, x in call.a if n not in ("PACKAGE",)][1:]
            if max(p1, p2) >= len(args):
                raise AnalysisBroken("%s(): call of %s with %d arguments" % (fn.name, r, len(args)))
            bad = None
            for o1, s1 in rops.chains(fn, args[p1]):
                for o2, s2 in rops.chains(fn, args[p2]):
                    k1 = [k for n, k in o1 if n in ("castall", "cast")]
                    k2 = [k for n, k in o2 if n in ("castall", "cast")]
                    z1 = [k for n, k in o1 if n == "recycleall"]
                    z2 = [k for n, k in o2 if n == "recycleall"]
                    if s1[0] == "value" or s2[0] == "value":
                        continue
                    if not k1 or not k2 or k1[0] != k2[0]:
                        bad = "are not the result of one cast to a common type"
                    elif not z1 or not z2 or z1[0] != z2[0]:
                        bad = "are not recycled to one size"
            if bad:
                rep.violation("r-calls", "%s:%s" % (fn.name, r), "%s:%s" % (fn.file, call.l), "the vectors %s() hands to %s to be compared %s" % (fn.name, r, bad))
            else:
                rep.ok("r-calls", sample="%s() -> %s" % (fn.name, r))

    def bad(self, f, i, path, what, msg):
        g = path[-1]
        self.hit = True
        self.rep.violation("pairs", "%s:%s:%s" % (f.base, what, g.base), i.loc(),
                           "the two vectors %s is applied to in %s() (via %s) %s" % (what, f.base, " < ".join(x.base for x in path[:8]), msg))

    def assigns(self):
        M, rep, O = self.M, self.rep, self.O
        for f in M.funcs.values():
            if f.name not in O.live:
                continue
            for i in f.calls():
                b = M.basename(i.f)
                if b not in ASSIGN:
                    continue

                def judge(ops, path):
                    return any(n in ("cast", "castall") for n, _ in ops)
                bad = None
                for kind, src, ops, path in O.walk(f, i.a[ASSIGN[b][1]], judge):
                    if path[-1].name not in O.live:
                        continue
                    if kind == "root":
                        bad = bad or (path, "argument `%s` of routine %s" % (src[2].args[src[1]]["n"], src[0]))
                    elif kind == "fresh" and src[1] in operands.USER:
                        bad = bad or (path, "the result of R code")
                if bad:
                    path, msg = bad
                    rep.violation("assigned", "%s:%s" % (f.base, path[-1].base), i.loc(),
                                  "%s() puts into a vector %s without casting it to the vector's type (via %s)" % (f.base, msg, " < ".join(x.base for x in path[:8])))
                else:
                    rep.ok("assigned", sample="%s: %s()" % (i.loc(), b))


    # -- the common type is that of both
    def common(self):
        M, rep, C = self.M, self.rep, self.C
        for f in M.funcs.values():
            if f.name not in self.O.live:
                continue
            casts = [i for i in f.calls() if M.basename(i.f) in ("vec_cast_params", "vec_cast")]
            for t in f.calls():
                if M.basename(t.f) not in ("vec_ptype2_params", "vec_ptype2"):
                    continue
                made = self.spread(f, t.id)
                to = [i for i in casts if i.a[1] in made]
                if len(to) < 2:
                    continue
                two = [self.stem(f, a) for a in t.a[:2]]
                if not two[0] or not two[1]:
                    continue
                if two[0] & two[1]:
                    rep.violation("common", f.base, t.loc(), "%s() determines the common type from one vector only" % f.base)
                    continue
                missed = [i for i in to if (s := self.stem(f, i.a[0])) and not s & (two[0] | two[1])]
                rep.ok("common", 1, "%s: %d casts%s" % (t.loc(), len(to), ", others are cast to it too" if missed else ""))

    def spread(self, f, v):
        out, work = {v}, [v]
        while work:
            x = work.pop()
            for u in f.uses.get(x, ()):
                if (u.op == "phi" or u.op == "call" and self.M.basename(u.f) in ("Rf_protect", "PROTECT_N", "vec_ptype_finalise")) and u.id not in out:
                    out.add(u.id)
                    work.append(u.id)
        return out

    def stem(self, f, v):
        out, seen, work = set(), set(), [v]
        while work:
            x = work.pop()
            if not isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            d = f.defs.get(x) if x >= f.nargs else None
            if d is not None and d.op == "phi":
                work += [a for a, _ in d.inn]
            elif d is not None and d.op == "call" and self.M.basename(d.f) in ("Rf_protect", "PROTECT_N", "vec_cast_params", "vec_cast"):
                work.append(d.a[0])
            else:
                out.add(x)
        return out

    # -- replacement methods written in R
    def replaced(self):
        P, rep = self.P, self.rep
        for g, c, m in P.s3:
            if g not in ("[<-", "[[<-", "$<-"):
                continue
            fn = P.fun(m or "%s.%s" % (g, c))
            if fn is None or len(fn.formals) < 3:
                continue
            x, value = fn.formals[0], "value"
            n, bad = 0, None
            for u in fn.body.calls():
                if u.callee() == "NextMethod":
                    n += 1
                    if not self.islist(fn, u, x) and not self.ready(fn, u, value, x, 0):
                        bad = u
                elif u.callee() in ("vec_restore", "map2", "vec_assign", "vec_slice<-") and any(y.t == "sym" and y.n == value for y in u.walk()):
                    n += 1
                    y = next(y for y in u.walk() if y.t == "sym" and y.n == value)
                    if not self.ready(fn, y, value, x, 0):
                        bad = u
            if bad is not None:
                rep.violation("replaced", fn.name, "%s:%s" % (fn.file, bad.l), "%s() can put values into a vector without casting them to its type" % fn.name)
            elif n:
                rep.ok("replaced", 1, fn.name + "()")

    def ready(self, fn, use, value, x, depth):
        """whether the values in force are certainly cast to the type of x"""
        if depth > 6:
            return False
        if use.t == "call" and use.callee() in ("vec_cast", "vec_cast_common") or use.t == "call" and use.callee() in ("map", "lapply", "map2") and any(y.t == "sym" and y.n == "vec_cast" or y.t == "call" and y.callee() == "vec_cast" for _, a in use.a for y in a.walk()):
            return any(y.t == "sym" and (y.n == x or any(v is not None and any(z.t == "sym" and z.n == x for z in v.walk()) for v in rops.last_assignment(fn, y, y.n))) for y in use.walk())
        for v in rops.last_assignment(fn, use, value):
            if v is None:
                if not self.guarded(fn, use, value, x):
                    return False
            elif v.t == "call":
                if self.ready_value(fn, v, value, x, depth):
                    continue
                return False
            else:
                return False
        return True

    def ready_value(self, fn, v, value, x, depth):
        if v.callee() in ("vec_cast", "map", "lapply") and self.ready(fn, v, value, x, depth + 1):
            return True
        h = self.P.fun(v.callee()) if v.callee() else None
        if h is not None and h is not fn:
            got = rops.matched(h, v)
            fv = [k for k, a in got.items() if a.t == "sym" and a.n == value]
            fx = [k for k, a in got.items() if any(y.t == "sym" and y.n == x for y in rops.expand(fn, a, 1))]
            if fv and fx and all(any(n in ("cast", "castall") for n, _ in o) for r in rops.returned(h) for o, _ in rops.chains(h, r)):
                return True
        for y in v.walk():
            if y.t == "sym" and (y.n == value or rops.last_assignment(fn, y, y.n) != [None]) and self.ready(fn, y, y.n, x, depth + 1):
                return True
        return False

    def islist(self, fn, u, x):
        n, p = u, u.parent
        while p is not None and p is not fn.node:
            if p.t == "call" and p.callee() == "if" and n is not p.a[0][1]:
                then = n is p.a[1][1]
                if self.sure(p.a[0][1], x, False) == {not then}:
                    return True
            n, p = p, p.parent
        return False

    def guarded(self, fn, use, value, x):
        """the cast is left out for lists only"""
        for a in fn.body.calls():
            if a.callee() in ("<-", "=") and a.a[0][1].t == "sym" and a.a[0][1].n == value:
                n, p = a, a.parent
                while p is not None and p is not fn.node:
                    if p.t == "call" and p.callee() == "if":
                        return self.sure(p.a[0][1], x, False) == {n is p.a[1][1]}
                    n, p = p, p.parent
        return False

    def sure(self, c, x, isl):
        """values of a condition when x is (no) list"""
        if c.t != "call":
            return {True, False}
        k = c.callee()
        a = [v for _, v in c.a]
        if k == "(":
            return self.sure(a[0], x, isl)
        if k == "!":
            return {not v for v in self.sure(a[0], x, isl)}
        if k in ("&&", "||"):
            l, r = self.sure(a[0], x, isl), self.sure(a[1], x, isl)
            return {(p and q) if k == "&&" else (p or q) for p in l for q in r}
        if k in ("is.list", "is_list", "obj_is_list", "vec_is_list") and a and a[0].t == "sym" and a[0].n == x:
            return {isl}
        return {True, False}

    # -- durations are brought to the unit of what they are added to
    UNITS = {"Date": "days", "POSIXct": "secs", "POSIXlt": "secs"}

    def units(self):
        P, rep = self.P, self.rep
        for g, c, m in P.s3:
            if not g.startswith("vec_arith."):
                continue
            l = g[len("vec_arith."):]
            if {l, c} & {"difftime"} == set() or not ({l, c} & set(self.UNITS) or l == c):
                continue
            fn = P.fun(m or "%s.%s" % (g, c))
            if fn is None:
                continue
            uses = [u for u in fn.body.calls() if u.callee() == "vec_arith_base"]
            if not uses:
                continue
            x, y = fn.formals[1], fn.formals[2]
            bad = None
            for u in uses:
                for k, cls in ((x, l), (y, c)):
                    for s in [z for z in u.walk() if z.t == "sym" and z.n == k]:
                        if cls != "difftime":
                            continue
                        for v in rops.last_assignment(fn, s, k):
                            if l == c:
                                ok = v is not None and self.from_common(fn, v)
                            else:
                                unit = self.UNITS[({l, c} - {"difftime"}).pop()]
                                ok = self.in_unit(fn, v, unit)
                            if not ok:
                                bad = u
            if bad is not None:
                rep.violation("units", fn.name, "%s:%s" % (fn.file, bad.l), "%s() combines a duration without bringing it to the unit of the other operand" % fn.name)
            else:
                rep.ok("units", 1, fn.name + "()")

    def in_unit(self, fn, v, unit):
        if v is None or v.t != "call":
            return False
        zs = list(rops.expand(fn, v, into=lambda h: any(z.t == "call" and z.callee() == "vec_cast" for z in h.body.walk())))
        named = {z.v for z in zs if z.t == "str" and z.v in ("secs", "mins", "hours", "days", "weeks")}
        return named == {unit} and any(z.t == "call" and z.callee() == "vec_cast" for z in zs)

    def from_common(self, fn, v, depth=0):
        if depth > 5:
            return False
        if v.t == "call" and v.callee() == "vec_cast_common":
            return True
        for s in v.walk():
            if s.t == "sym" and any(d is not None and self.from_common(fn, d, depth + 1) for d in rops.last_assignment(fn, s, s.n)):
                return True
        return False


def run(rep):
    rep.rule("common", "the common type two vectors are cast to is determined from both", 6)
    rep.rule("replaced", "methods that replace elements cast the new values to the type of the vector", 3)
    rep.rule("units", "durations are brought to the unit of what they are added to", 4)
    rep.rule("pairs", "two vectors whose values are told apart have been cast to one and the same type on every way from the entry points", 8)
    rep.rule("same", "values of one and the same vector", 0)
    rep.rule("own", "at least one side is made by the package itself", 0)
    rep.rule("r-calls", "vectors handed to native code to be compared come out of one cast to a common type, and one recycling to a common size", 2)
    rep.rule("assigned", "values put into a vector have been cast, on every way from the entry points", 3)
    M = common.load_module()
    P = common.load_r()
    C = Check(M, P, rep)
    C.pairs()
    C.assigns()
    C.common()
    C.replaced()
    C.units()
    rep.coverage["functions"] = len(M.funcs)
    rep.coverage["live_functions"] = len(C.O.live)
    rep.assumptions = ["casts yield the type they are asked for (P04)"]


if __name__ == "__main__":
    main(PROP, run)
