"""P15: what is assembled from the bare data of a vector is turned back into a
vector of its type before it is handed out."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import cside
import operands
import putback
import rops
from chains import Spec
from common import AnalysisBroken, main

PROP = "P15"
RESTORE = ("vec_restore", "vec_restore_recurse", "vec_df_restore", "vec_bare_df_restore", "vec_restore_default")
# copy bare values out of a vector, leaving its attributes behind
KERNELS = ("vec_slice_base", "vec_slice_shaped", "df_slice")
# R generics whose methods return a vector of the class they are given
# Writing into the first argument.
WRITTEN = ("vec_proxy_assign", "vec_proxy_assign_opts", "vec_assign_switch", "vec_assign_shaped", "df_assign")
GENERICS = ("[", "[[", "$", "rep", "length<-", "[<-", "[[<-", "$<-", "names<-", "vec_arith")
OWN = ("vec_index", "vec_slice_fallback", "vec_slice_fallback_integer64")
BARE = ("vec_data", "vec_proxy", "unclass", "unstructure", "vec_arith_base", "NextMethod")
TURNED = ("vec_restore", "vec_cast", "vec_restore_default", "new_duration", "new_date", "new_datetime", "new_list_of", "stop_incompatible_op", "integer64_restore")
# methods that hand out bare values on purpose
R_EXEMPT = {
    ("[[", "vctrs_list_of"): "an element of a list, not a list",
    ("$", "vctrs_list_of"): "an element of a list, not a list",
    ("[[<-", "vctrs_list_of"): "the list is unclassed for the assignment by position and put back by hand",
    ("[[", "vctrs_sclr"): "a part of a scalar", ("$", "vctrs_sclr"): "a part of a scalar",
    ("[", "vctrs_unspecified"): "unspecified vectors are rebuilt by their own constructor",
    ("$", "vctrs_rcrd"): "a field of a record",
}


class Check:
    def __init__(self, M, P, rep):
        self.M, self.P, self.rep = M, P, rep
        ops = dict(operands.OPS)
        for k in ("vec_slice_unsafe", "vec_cast", "vec_cast_params", "r_as_data_frame"):
            ops.pop(k, None)
        for n in RESTORE:
            ops[n] = Spec("restore", 0, 1)
        for n in KERNELS:
            ops[n] = Spec("raw", 1 if n == "vec_slice_base" else 0)
        self.O = operands.Operands(M, P, ops)

    # -- native results
    def returned(self):
        M, rep, O = self.M, self.rep, self.O
        C = O.C
        for f in M.funcs.values():
            if f.name not in O.live or not (f.name in O.routines and O.live_routines(f) or f.name in O.shared):
                continue
            if f.base in ("vec_proxy", "vec_proxy_recurse"):
                continue
            n, bad = 0, None
            for v in C.retvals(f):
                for what, chains in (("what %s() returns", C.local(f, v)), ("an element of what %s() returns", C.put(f, v, None, 0, set()))):
                    for o, s in chains:
                        k = self.first(o)
                        # part of the bare data is not of the type of the whole
                        if k is None:
                            continue
                        n += 1
                        if k[0] != "restore":
                            bad = bad or (what % f.base, k)
            if bad:
                rep.violation("returned", f.base, "%s:%s" % (f.file, f.line), "%s may be bare data (%s), not turned back into a vector of its type" % (bad[0], "values copied out" if bad[1][0] == "raw" else "proxy"))
            elif n:
                rep.ok("returned", sample="%s(): %d ways" % (f.base, n))

    def first(self, o):
        for x, d in o:
            if x == "raw" or (x, d) == ("proxy", "data"):
                return x, d
            if x == "restore":
                # to the type of bare data: still bare
                return ("proxy", "data") if self.bareto(d) else (x, d)

    def bareto(self, k):
        if not k or k[0] != "v" or k[1] not in self.M.funcs:
            return False
        cs = self.O.C.local(self.M.funcs[k[1]], k[2])
        def proxy(o):
            n = next(((x, d) for x, d in o if x in ("raw", "restore", "proxy")), None)
            return n == ("proxy", "data")
        return bool(cs) and all(proxy(o) for o, s in cs)

    # -- elements of lists filled by native code
    def stored(self):
        M, rep, O = self.M, self.rep, self.O
        C = O.C
        for f in M.funcs.values():
            if f.name not in O.live:
                continue
            for i in f.calls():
                b = M.basename(i.f)
                if b not in ("SET_VECTOR_ELT", "r_list_poke"):
                    continue
                raws = [(o, s) for o, s in C.local(f, i.a[2]) if any(x == "raw" or (x, d) == ("proxy", "data") for x, d in o)]
                rest = [(o, s) for o, s in C.local(f, i.a[2]) if any(x == "restore" and not self.bareto(d) for x, d in o)]
                bare = [o for o, s in raws if self.first(o)[0] != "restore"]
                if bare and not rest and not self.columns(f, i) and not self.proxying(f) and not self.elsewhere(f, i):
                    rep.violation("stored", f.base, i.loc(), "%s() puts bare values copied out of a vector into a list, not turned back into a vector of its type" % f.base)
                elif rest:
                    rep.ok("stored", sample=i.loc())

    def elsewhere(self, f, i):
        """what is put here is not taken apart here: the branch on which it is also turns it back"""
        M = self.M
        B = putback.PutBack(M, self.rep, self.O, self.flow)
        fl = self.flow(f, i.a[2])
        taken = [c for c in f.calls() if M.basename(c.f) in ("vec_proxy", "vec_proxy_recurse") and ("v", c.id) in fl]
        here = B.before(f, i.bb)
        if not taken or any(all(here.get(k, t) == t for k, t in B.before(f, c.bb).items()) for c in taken):
            return False
        return any(M.basename(j.f) in ("SET_VECTOR_ELT", "r_list_poke") and j is not i and any(x == "restore" for o, _ in self.O.C.local(f, j.a[2]) for x, _d in o) for j in f.calls())

    def proxying(self, f):
        """takes the proxies of columns: part of vec_proxy_recurse()"""
        if not hasattr(self, "pf"):
            self.pf, work = set(), [x.name for x in self.M.funcs.values() if x.base == "vec_proxy_recurse"]
            while work:
                n = work.pop()
                if n not in self.pf:
                    self.pf.add(n)
                    work += [i.f for i in self.M.funcs[n].calls() if i.f in self.M.funcs]
        return f.name in self.pf

    def columns(self, f, i):
        """a data frame under construction, turned back as a whole"""
        M, C = self.M, self.O.C
        for v in C.retvals(f):
            for o, s in C.local(f, v):
                if any(x == "restore" for x, _ in o):
                    return True
        return False

    # -- to the type of what the data is from
    def targets(self):
        M, rep, O = self.M, self.rep, self.O
        for f in M.funcs.values():
            if f.name not in O.live or f.base in RESTORE or self.inside(f):
                continue
            for i in f.calls():
                if M.basename(i.f) not in RESTORE:
                    continue
                x, to = i.a[0], i.a[1]
                tk = self.roots(f, to)
                xk = self.flow(f, x)
                if not tk:
                    rep.ok("targets", sample="%s (not followed)" % i.loc())
                    continue
                same = self.roots(f, x, strip=True)
                if any(self.held(f, k) for k in tk):
                    rep.violation("targets", "%s:bare" % f.base, i.loc(), "%s() turns data back into the type of bare data" % f.base)
                elif tk & same and not (tk & {("p", n) for n in range(f.nargs)}):
                    rep.violation("targets", "%s:self" % f.base, i.loc(), "%s() turns data back into the type of the data itself" % f.base)
                elif tk & xk or self.upward(f, tk, xk, 0):
                    rep.ok("targets", sample=i.loc())
                elif not any(n == "raw" or (n, d) == ("proxy", "data") for o, _ in O.C.local(f, x) for n, d in o):
                    # put together from scratch
                    rep.ok("targets", sample="%s (new)" % i.loc())
                else:
                    rep.violation("targets", f.base, i.loc(), "%s() turns data back into the type of something the data is not made from or cast to" % f.base)

    def held(self, f, k):
        """loaded from a struct into which another function put a proxy"""
        if k[0] != "ld" or not k[1].isdigit() or not k[2].isdigit():
            return False
        M, S = self.M, self.O.S
        base, off = int(k[1]), int(k[2])
        for u in f.uses.get(base, ()):
            g = M.funcs.get(u.f) if u.op == "call" else None
            if g is None:
                continue
            for n, a in enumerate(u.a):
                if a != base or n >= g.nargs:
                    continue
                if g.base == "vec_proxy_info" and any(m[0] == off and m[1] == "proxy" for m in M.structs.get("vctrs_proxy_info", ())):
                    return True
                for (b, o), ss in S.storemap(g).items():
                    # filled in place, or copied from a local one of the same layout
                    whole = b == n or any(i.op == "call" and "memcpy" in (i.f or "") and i.a[0] == n and i.a[1] == b for i in g.calls())
                    if whole and o == off and any(x == "proxy" and y == "data" for s in ss for o2, _ in self.O.C.local(g, s.a[0]) for x, y in o2[:1]):
                        return True
        return False

    def upward(self, f, tk, xk, depth):
        """both handed over by the callers: what they have to do with each other
        there"""
        tp = [k[1] for k in tk if k[0] == "p"]
        xp = [k[1] for k in xk if k[0] == "p"]
        cs = [c for c in self.O.C.callers.get(f.name, ()) if c[0].name in self.O.live]
        if depth > 3 or len(tp) != len(tk) or not xp or not cs:
            return False
        for h, i, args in cs:
            t2, x2 = set(), set()
            for p in tp:
                t2 |= self.roots(h, args[p])
            for p in xp:
                x2 |= self.flow(h, args[p])
            if not (t2 & x2 or self.upward(h, t2, x2, depth + 1)):
                return False
        return True

    def inside(self, f):
        return f.file.endswith("proxy-restore.c") or f.file.endswith("type-date-time.c")

    def roots(self, f, v, strip=False):
        """the values a vector certainly is"""
        M = self.M
        out, seen, st = set(), set(), [v]
        while st:
            v = st.pop()
            if not isinstance(v, int) or v in seen:
                continue
            seen.add(v)
            if v < f.nargs:
                out.add(("p", v))
                continue
            d = f.defs.get(v)
            if d is None:
                continue
            if d.op == "phi":
                st += [x for x, _ in d.inn]
            elif d.op == "call" and M.basename(d.f) in ("Rf_protect", "PROTECT_N"):
                st.append(d.a[0])
            elif d.op == "load":
                out.add(("ld",) + tuple(map(str, self.O.S.base(f, d.a[0]))))
            else:
                out.add(("v", v))
        return out

    def flow(self, f, v):
        """every value of f that has a part in v"""
        M, S = self.M, self.O.S
        out, seen, st = set(), set(), [v]
        while st:
            v = st.pop()
            if not isinstance(v, int) or v in seen:
                continue
            seen.add(v)
            if v < f.nargs:
                out.add(("p", v))
                continue
            d = f.defs.get(v)
            if d is None:
                continue
            out.add(("v", v))
            if d.op == "phi":
                st += [x for x, _ in d.inn]
            elif d.op == "load":
                b, off = S.base(f, d.a[0])
                out.add(("ld",) + tuple(map(str, (b, off))))
                for (bb, oo), ss in S.storemap(f).items():
                    if bb == b and (oo == off or off is None):
                        st += [s.a[0] for s in ss]
                if isinstance(b, int):
                    st.append(b)
                    for u in f.uses.get(b, ()):
                        if u.op == "call":
                            st += [a for a in u.a if isinstance(a, int)]
            elif d.op == "alloca":
                for (bb, oo), ss in S.storemap(f).items():
                    if bb == v:
                        st += [s.a[0] for s in ss]
                for u in f.uses.get(v, ()):
                    if u.op == "call":
                        st += [a for a in u.a if isinstance(a, int)]
            elif d.op == "call" and M.basename(d.f) in WRITTEN:
                st.append(d.a[0])        # what is written does not decide the type
            else:
                st += [a for a in d.a if isinstance(a, int)]
        return out

    # -- attributes taken off are put back
    def stripped(self):
        M, rep, O = self.M, self.rep, self.O
        f = M.get("vec_restore_default")
        off, on = set(), set()
        for i in f.insts():
            if i.op == "icmp":
                for a, b in (i.a, i.a[::-1]):
                    d = f.defs.get(a) if isinstance(a, int) and a >= f.nargs else None
                    if d is not None and d.op == "call" and M.basename(d.f) in ("TAG", "r_node_tag"):
                        s = cside.symname(M, f, b, O.S.cg)
                        if s:
                            off.add(s)
            if i.op == "call" and M.basename(i.f) in ("Rf_setAttrib", "r_attrib_poke"):
                s = cside.symname(M, f, i.a[1], O.S.cg)
                if s:
                    on.add(s)
        read = {cside.symname(M, f, i.a[1], O.S.cg) for i in f.calls() if M.basename(i.f) in ("Rf_getAttrib", "r_attrib_get")}
        for s in ("names", "dim", "dimnames"):
            if s in read:
                rep.ok("attributes", sample="keeps " + s)
            else:
                rep.violation("attributes", "keeps:" + s, "%s:%s" % (f.file, f.line), "%s() does not keep the attribute %s of the data" % (f.base, s))
        want = {"names", "dim", "dimnames", "class", "row.names"}
        for what, got in (("leaves alone", off), ("sets itself", on)):
            for s in sorted(want ^ got):
                rep.violation("attributes", "%s:%s" % (what, s), "%s:%s" % (f.file, f.line),
                              "of the attributes of the target, %s() %s %s" % (f.base, "does not treat apart" if s in want else "treats apart", s) if what == "leaves alone"
                              else "%s() %s the attribute %s" % (f.base, "does not put back" if s in want else "sets", s))
            for s in sorted(want & got):
                rep.ok("attributes", sample="%s %s" % (what, s))

    # -- methods written in R
    def rmethods(self):
        P, rep = self.P, self.rep
        for n, fn in P.funs.items():
            g = next((g for g in GENERICS if n.startswith(g + ".")), None)
            if g is None and n not in OWN:
                continue
            cls = n[len(g) + 1:] if g else ""
            if (g, cls) in R_EXEMPT:
                continue
            if g == "vec_arith" and not any(c in n for c in ("Date", "POSIX", "difftime")):
                continue
            if g == "names<-" or cls in ("vctrs_sclr",):
                continue
            for e in self.results(fn.body):
                if g == "vec_arith" and self.arm(fn, e) not in ("+", "-", None, ""):
                    # quotients and remainders are plain numbers
                    continue
                r = self.bare(fn, e, 0)
                if r is None:
                    continue
                if r:
                    rep.violation("methods", n, "%s:%s" % (fn.file, e.l), "%s() returns the result of %s() as it is, not turned back into a vector of its class" % (n, r))
                else:
                    rep.ok("methods", sample=n)
            for x in fn.node.walk():
                if x.t == "call" and x.callee() == "vec_restore" and len(x.a) > 1:
                    to = x.arg("to") or x.a[1][1]
                    if to.t == "sym" and to.n in fn.formals:
                        if to.n in self.mentions(fn, x.a[0][1], 0):
                            rep.ok("methods", sample="%s: %s" % (n, to.n))
                        else:
                            rep.violation("methods", n + ":to", "%s:%s" % (fn.file, x.l), "%s() turns data back into the class of `%s`, which it is not made from" % (n, to.n))
                        if g == "vec_arith":
                            self.arith(n, fn, x, to.n)

    def math(self):
        """numbers come back from mathematical functions with their class"""
        fn = self.P.funs.get("vec_math.default")
        if fn is None:
            raise AnalysisBroken("no vec_math.default()")
        rs = [x for x in fn.node.walk() if x.t == "call" and x.callee() == "vec_restore" and len(x.a) > 1 and x.a[1][1].t == "sym" and x.a[1][1].n in fn.formals]
        if not rs:
            self.rep.violation("methods", fn.name, "%s:%s" % (fn.file, fn.node.l), "%s() no longer turns results back into the class of its operand" % fn.name)
        else:
            self.rep.ok("methods", sample=fn.name)

    def arm(self, fn, e):
        """the case of the switch e is the value of"""
        n, p = e, e.parent
        while p is not None and n is not fn.node:
            if p.t == "call" and p.callee() == "switch":
                k = next(k for k, (_, x) in enumerate(p.a) if x is n)
                return p.a[k][0]
            n, p = p, p.parent
        return None

    def arith(self, n, fn, x, to):
        """the operand that has the class of the result"""
        cl = n.split(".")[1:]
        rank = {"numeric": 0, "character": 0, "logical": 0, "MISSING": 0, "difftime": 1}
        fs = list(fn.formals)
        pos = fs.index(to) - 1
        if len(cl) == 2 and pos in (0, 1) and rank.get(cl[pos], 2) < rank.get(cl[1 - pos], 2):
            self.rep.violation("methods", n + ":operand", "%s:%s" % (fn.file, x.l), "%s() gives the result the class of `%s`, which is not the one that determines it" % (n, to))

    def mentions(self, fn, node, depth):
        out = set()
        if depth > 8 or node is None:
            return out
        for x in node.walk():
            if x.t == "sym":
                out.add(x.n)
                if x.n not in fn.formals or True:
                    for v in rops.last_assignment(fn, x, x.n):
                        if v is not None and v is not node:
                            out |= self.mentions(fn, v, depth + 1)
            if x.t == "call" and x.callee() == "NextMethod":
                out |= set(fn.formals)
        return out

    def results(self, n):
        """expressions a function body may evaluate to, with explicit returns"""
        out = []
        for x in n.walk():
            if x.t == "call" and x.callee() == "return" and x.a:
                out += self.tail(x.a[0][1])
        return out + self.tail(n)

    def tail(self, n):
        if n.t == "call":
            c = n.callee()
            if c == "{" and n.a:
                return self.tail(n.a[-1][1])
            if c == "if":
                return [e for _, x in n.a[1:] for e in self.tail(x)]
            if c == "switch":
                return [e for _, x in n.a[1:] for e in self.tail(x)]
            if c in ("return", "invisible", "(") and n.a:
                return self.tail(n.a[0][1])
        return [n]

    def bare(self, fn, e, depth):
        """name of the function whose bare result e is; "" if turned back, None
        if bare data has no part in it"""
        if depth > 8 or e is None:
            return None
        if e.t == "sym":
            rs = [self.bare(fn, v, depth + 1) for v in rops.last_assignment(fn, e, e.n) if v is not None]
            return next((r for r in rs if r), "" if "" in rs else None)
        if e.t != "call":
            return None
        c = e.callee()
        if c in TURNED:
            return ""
        if c == "NextMethod" and (self.islist(fn, e) or fn.name.startswith(("[<-", "[[<-", "$<-"))):
            # assignment keeps the attributes of what it is done to
            return None
        if c in BARE:
            return c
        if c in ("[", "[[", "$", "lapply", "map", "vec_slice", "vec_assign", "vec_size_assign", "-", "+") and e.a:
            for _, x in e.a:
                r = self.bare(fn, x, depth + 1)
                if r is not None:
                    return r
        if c in ("eval_bare", "expr", "(") and e.a:
            return self.bare(fn, e.a[0][1], depth + 1)
        return None

    def islist(self, fn, e):
        """in the branch for lists"""
        n, p = e, e.parent
        while p is not None and n is not fn.node:
            if p.t == "call" and p.callee() == "if" and len(p.a) > 1 and (p.a[1][1] is n):
                t = p.a[0][1]
                if t.t == "call" and t.callee() in ("is.list", "is_list", "obj_is_list"):
                    return True
            n, p = p, p.parent
        return False


def run(rep):
    rep.rule("returned", "nothing native code returns is bare data of a vector", 15)
    rep.rule("stored", "elements of lists copied out of a vector are turned back into its type", 2)
    rep.rule("targets", "data is turned back into the type of what it was taken from or cast to", 6)
    rep.rule("attributes", "attributes kept apart when restoring are put back", 8)
    rep.rule("putback", "on every path the attributes of the target are on the result, with names, dimensions and row names of the data", 4)
    rep.rule("classes", "every class is turned back by what belongs to it", 10)
    rep.rule("frames", "a data frame turned back has names and row names", 1)
    rep.rule("depth", "columns taken apart are turned back one by one, and only those", 4)
    rep.rule("paired", "an element taken apart is turned back on every path to the list it is put into", 1)
    rep.rule("methods", "methods and helpers written in R turn data back into the class of their operand", 12)
    M = common.load_module(into=("vec_restore_default",))
    P = common.load_r()
    C = Check(M, P, rep)
    C.returned()
    C.stored()
    C.targets()
    C.stripped()
    B = putback.PutBack(M, rep, C.O, C.flow)
    B.attributes()
    B.classes()
    B.frames()
    B.depth()
    B.paired()
    C.rmethods()
    C.math()
    rep.coverage["functions"] = len(M.funcs)
    rep.coverage["live_functions"] = len(C.O.live)
    rep.assumptions = ["methods for vec_proxy() and vec_restore() of other classes are inverse to each other"]


if __name__ == "__main__":
    main(PROP, run)
