#!/usr/bin/env python3
"""P11: sizes are combined by one rule, and what is combined has been recycled."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from absint import Budget, Case, Interp
from common import main
from error_context import closure, names_of
from sides import Sides

PROP = "P11"
# errors about two sizes: positions of (x, y) or None, and of their sizes
STOPS = {"stop_incompatible_size": (("x", 0), ("y", 1), 2, 3), "stop_recycle_incompatible_size": (None, None, 0, 1),
         "stop_incompatible_shape": (("x", 0), ("y", 1), 2, 3)}
MEASURE = {"vec_size", "short_vec_size"}
COUNTS = MEASURE | {"vec_subscript_size", "r_length", "Rf_xlength", "Rf_length", "XLENGTH", "LENGTH", "r_len"}
RECYCLE = {"vec_check_recycle": (0, 1), "vec_recycle_fallback": (0, 1), "vec_recycle": (0, 1), "vec_check_recycle_common": (0, 1),
           "vec_recycle_common": (0, 1), "vec_recycle_common_opts": (0, 1)}
COMMON = {"vec_check_size_common": 0, "vec_size_common": 0, "vec_size_common_opts": 0}
# functions storing values at locations: (index, value)
FILL = {"vec_proxy_assign_opts": (1, 2), "df_assign": (1, 2), "vec_proxy_assign": (1, 2)}
# functions other packages hand everything to
GIVEN = {"vec_proxy_assign": "experimental interface whose caller has recycled"}
NULL = ("G", "NIL")
SIZES = (0, 1, 2, 3, 5)


def mentions(t, p):
    return t == p or isinstance(t, tuple) and any(mentions(c, p) for c in t if isinstance(c, tuple))


def mentions_inst(o, f):
    return any(e[0] == "store" and e[2][0] == "c" and e[1][0] == "gep" and any(x[0][0] == "iv" for x in e[1][2] if isinstance(x[0], tuple)) for e in o.eff)


class Sizes(Interp):
    """operands are there unless said to be missing"""

    def icmp(self, pred, a, b, t=None):
        if pred in ("eq", "ne") and (NULL in (a, b) or ("null",) in (a, b)) and "vec" in (a[0], b[0]):
            return pred == "ne"
        return Interp.icmp(self, pred, a, b, t)

    def step(self, env, i):
        r = self.here.get(id(i))
        return ("@", r, "size") if r is not None else Interp.step(self, env, i)


class C:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.S = Sides(M)
        self.callers = {}
        for f in M.funcs.values():
            for i in f.calls():
                if i.f in M.funcs:
                    self.callers.setdefault(i.f, []).append((f, i))
        self.reach = {}

    # ---- deciders
    def deciders(self):
        M = self.M
        for f in list(M.funcs.values()):
            for i in f.calls():
                b = M.basename(i.f)
                if b in STOPS and f.blocks and b != M.basename(f.name):
                    _, _, ka, kb = STOPS[b]
                    self.decider(b, f, i, i.a[ka], i.a[kb], (f,))

    def plain(self, f, v):
        while isinstance(v, int) and v >= f.nargs and f.defs[v].op in ("sext", "zext", "trunc"):
            v = f.defs[v].a[0]
        return v

    def unprotect(self, f, v):
        while isinstance(v, int) and v >= f.nargs:
            d = f.defs.get(v)
            if d is not None and d.op == "call" and self.M.basename(d.f) == "Rf_protect":
                v = d.a[0]
            elif d is not None and d.op in ("sext", "zext", "trunc"):
                v = d.a[0]
            else:
                break
        return v

    def decider(self, stop, f, i, a, b, chain):
        """f fails through `stop` with the two sizes a and b"""
        M, rep = self.M, self.rep
        a, b = self.plain(f, a), self.plain(f, b)
        ret = f.ret if hasattr(f, "ret") else None
        helper = not any(x.op == "ret" and x.a for blk in f.blocks for x in blk)
        if helper or any(isinstance(v, int) and v < f.nargs and f.args[v]["t"] == "ptr" for v in (a, b)):
            if len(chain) < 4:
                for g, j in self.callers.get(f.name, ()):
                    self.decider(stop, g, j, j.a[a] if isinstance(a, int) and a < f.nargs else a,
                                 j.a[b] if isinstance(b, int) and b < f.nargs else b, chain + (g,))
            return
        bad = self.cells(stop, f, a, b, chain)
        if bad and bad[0] == "stretch" and len(chain) < 4:
            # a size of one may be dealt with by the callers
            up = [(g, j) for g, j in self.callers.get(f.name, ())]
            if up and all(isinstance(v, int) and (v < f.nargs or self.measured(f, v)) for v in (a, b)):
                if all(self.never(g, j, f, a) for g, j in up):
                    bad = None
        where = "%s:%s" % (f.file, i.l)
        if not bad and all(isinstance(v, int) and v < f.nargs for v in (a, b)):
            for g, j in self.callers.get(f.name, ()):
                x, y = self.slice(g, j.a[a]), self.slice(g, j.a[b])
                w2 = "%s:%s" % (g.file, j.l)
                if isinstance(j.a[a], int) and (j.a[a] == j.a[b] or self.loaded(g, j.a[a]) and self.loaded(g, j.a[a]) == self.loaded(g, j.a[b])):
                    rep.violation("operands", "%s:%s" % (M.basename(g.name), M.basename(f.name)), w2, "%s() compares the size of one operand with itself" % M.basename(g.name))
                else:
                    rep.ok("operands", sample=w2)
        if bad:
            rep.violation("decide", "%s:%s" % (M.basename(f.name), stop), where, "%s(): %s" % (M.basename(f.name), bad[1]))
        else:
            rep.ok("decide", len(SIZES) ** 2, sample="%s %s()" % (where, M.basename(f.name)))

    def loaded(self, f, v):
        """the places a value is loaded from"""
        v = self.plain(f, v)
        d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        if d is None or d.op != "load":
            return None
        p = d.a[0]
        g = f.defs.get(p) if isinstance(p, int) and p >= f.nargs else None
        if g is not None and g.op == "getelementptr":
            return (self.unprotect(f, g.a[0]), tuple(self.plain(f, x) for x in g.a[1:]), g.off)
        return (p,)

    def measured(self, f, v):
        d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        return d is not None and d.op == "call" and self.M.basename(d.f) in COUNTS

    def never(self, g, j, f, a):
        """the call j of f is not made when the first size is one"""
        if not (isinstance(a, int) and a < f.nargs):
            return False
        v = self.plain(g, j.a[a])
        made = [False]

        def hook(n, args, inst):
            if inst is j:
                made[0] = True
                return ("done",)
            return None
        try:
            for o in self.interp(g, v, 1, None, None, extra=hook):
                pass
        except Budget:
            return False
        return not made[0]

    def interp(self, f, a, na, b, nb, null=(), chain=(), extra=None):
        M = self.M
        args = [NULL if k in null else ("vec", k) if x["t"] == "ptr" else ("par", k) for k, x in enumerate(f.args)]
        val = {}
        for v, n in ((a, na), (b, nb)):
            if v is None:
                continue
            if isinstance(v, tuple):
                continue
            if v < f.nargs:
                args[v] = ("c", n)
            else:
                d = f.defs[v]
                val[f.name, v] = ("c", n)
                if self.measured(f, v):
                    root = self.unprotect(f, d.a[0])
                    for i in f.calls():
                        if self.measured(f, i.id) and self.unprotect(f, i.a[0]) == root:
                            val[f.name, i.id] = ("c", n)
        here = {id(d): val[f.name, d.id] for d in f.insts() if (f.name, d.id) in val}

        def hook(n, args2, inst):
            r = here.get(id(inst))
            if r is not None:
                return r
            return extra(n, args2, inst) if extra else None
        names = {g.name for g in chain}
        small = lambda g: g.name in names or (g.file == f.file and sum(len(x) for x in g.blocks) < 60 and not M.basename(g.name).startswith("vec_slice"))
        I = Sizes(M, Case({}), lambda *x: None, small, hook, budget=20000)
        I.here = here
        return I.run(f, args)

    def cells(self, stop, f, a, b, chain):
        M = self.M
        common = STOPS[stop][0] is not None
        ptrs = [k for k, x in enumerate(f.args) if x["t"] == "ptr"]
        # the vectors the sizes are those of
        def vec(v):
            if isinstance(v, int) and v >= f.nargs and self.measured(f, v):
                r = self.unprotect(f, f.defs[v].a[0])
                return r if isinstance(r, int) and r < f.nargs else None
            return None
        vx, vy = vec(a), vec(b)
        num = f.defs and all(isinstance(v, int) for v in (a, b)) and vx is None and vy is None
        for na in SIZES:
            for nb in SIZES:
                outs = []
                try:
                    outs = list(self.interp(f, a, na, b, nb, chain=chain))
                except Budget:
                    return ("budget", "cannot be followed")
                what = "sizes %d and %d" % (na, nb)
                free = na == nb or na == 1 or common and nb == 1
                stops = [o for o in outs if o.kind == "stop" and any(e[0] == "call" and e[1] == stop for e in o.eff)]
                rets = [o for o in outs if o.kind in ("ret", "back")]
                live = [o for o in rets if ("elem", "size") in o.eff] if any(
                    isinstance(v, int) and v >= f.nargs and f.defs[v].op == "load" for v in (a, b)) else rets
                if free and stops:
                    return ("stretch" if na == 1 != nb or (common and nb == 1 != na) else "error", "fails for %s" % what)
                if not free and live:
                    return ("accept", "accepts %s" % what)
                if free and not live:
                    return ("none", "has no result for %s" % what)
                if not free:
                    continue
                for o in live:
                    v = o.val if o.kind == "ret" else None
                    if o.kind != "ret" and num and mentions_inst(o, f):
                        st = [e for e in o.eff if e[0] == "store" and e[2][0] == "c"]
                        v = st[-1][2] if st and st[-1][3].l else None
                    elif o.kind != "ret":
                        continue
                    if num:
                        n = max(na, nb) if na != 1 and nb != 1 or na == nb else nb if na == 1 else na
                        if v is not None and v[0] == "c" and v[1] != n:
                            return ("value", "takes %d as the common size of %s" % (v[1], what))
                        continue
                    if vx is None or v is None:
                        continue
                    if common:
                        want = {("vec", vx), ("vec", vy)} if na == nb else {("vec", vy)} if na == 1 else {("vec", vx)}
                        if v not in want:
                            return ("value", "takes the size of %s for the common size of %s" % (
                                "the first" if v == ("vec", vx) else "the second" if v == ("vec", vy) else "something else", what))
                    elif na == nb:
                        if v != ("vec", vx) and not self.repeated(v, o, vx, nb):
                            return ("value", "does not hand back a vector that has the size asked for")
                    elif not self.repeated(v, o, vx, nb):
                        return ("value", "does not repeat the one element %d times" % nb if v != ("vec", vx) else "hands back a vector of size one when asked for size %d" % nb)
        # missing operands have no say
        if common and vx is not None and vy is not None:
            for null in ((vx,), (vy,)):
                oth = vy if null == (vx,) else vx
                for n in (0, 1, 3):
                    for o in self.interp(f, a, n, b, n, null=null, chain=chain):
                        if o.kind == "ret" and o.val != ("vec", oth) or o.kind == "stop" and any(e[0] == "call" and e[1] == stop for e in o.eff):
                            return ("null", "does not take the other one when an operand is missing")
        return None

    def repeated(self, v, o, vx, n):
        """v is the only element of the vector, n times"""
        if v[0] != "call" or not v[1].startswith("vec_slice"):
            return False
        if v[2] != ("vec", vx) or len(v) < 4:
            return False
        i = v[3]
        if i[0] == "call" and i[1] == "compact_rep":
            return i[2] == ("c", 1) and i[3] == ("c", n)
        if i[0] == "call" and i[1] == "compact_seq":
            return n == 1
        if i[0] == "call" and i[1] in ("r_alloc_integer", "Rf_allocVector", "r_alloc_vector"):
            if i[-1] != ("c", n):
                return False
            for e in o.eff:
                if e[0] == "call" and e[1] == "r_int_fill" and e[2][0] == i:
                    return e[2][1] == ("c", 1) and e[2][2] == ("c", n)
            return True      # filled in a loop
        return False

    # ---- flow of values inside a function
    def slice(self, f, v, seen=None, thru=None):
        """values v is made from"""
        seen = set() if seen is None else seen
        work = [v]
        while work:
            x = work.pop()
            if not isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            if x < f.nargs:
                continue
            d = f.defs.get(x)
            if d is None:
                continue
            if d.op == "phi":
                work += [y for y, _ in d.inn]
            elif d.op == "call":
                work += [y for y in d.a]
            elif d.op == "alloca":
                for (b, off), ss in self.S.storemap(f).items():
                    if b == x:
                        work += [s.a[0] for s in ss]
            else:
                work += list(d.a)
        return seen

    # ---- what is stored at locations has as many elements as there are
    def fills(self):
        M, rep = self.M, self.rep
        for f in M.funcs.values():
            for i in f.calls():
                b = M.basename(i.f)
                if b in FILL and M.basename(f.name) not in GIVEN:
                    ki, kv = FILL[b]
                    self.fill(f, i, i.a[ki], i.a[kv], b, (f,))

    def fill(self, f, i, index, value, b, chain):
        M, rep = self.M, self.rep
        where = "%s:%s" % (f.file, i.l)
        root = self.unprotect(f, index)
        sv = self.slice(f, value)
        base = M.basename(f.name)
        for x in sv:
            d = f.defs.get(x) if x >= f.nargs else None
            if d is None or d.op != "call" or M.basename(d.f) not in RECYCLE:
                continue
            n = self.slice(f, d.a[1])
            if any(self.measured(f, y) and self.unprotect(f, f.defs[y].a[0]) == root for y in n if y >= f.nargs):
                rep.ok("fill", sample=where)
                return
        # locations counted out for the value
        for c in f.calls():
            if M.basename(c.f) in ("init_compact_seq", "compact_seq"):
                if root in self.slice(f, c.a[0]) or self.unprotect(f, c.id) == root or c.id == root:
                    rep.ok("own", sample=where)
                    return
        if isinstance(root, int) and root < f.nargs and len(chain) < 5:
            up = [(g, j) for g, j in self.callers.get(f.name, ()) if g not in chain and M.basename(g.name) not in GIVEN]
            # the value is, or is part of, a parameter
            vp = self.origin(f, value)
            if vp is not None:
                for g, j in up:
                    self.fill(g, j, j.a[root], j.a[vp], base, chain + (g,))
                return
        # a single element stored in a list, or a slot made for it
        if self.single(f, root):
            rep.ok("own", sample=where)
            return
        rep.violation("fill", "%s:%s" % (base, b), where, "%s() stores values with %s() that have not been recycled to the number of locations" % (base, b))

    def single(self, f, root):
        d = f.defs.get(root) if isinstance(root, int) and root >= f.nargs else None
        return d is not None and d.op == "call" and self.M.basename(d.f) in ("r_int", "Rf_ScalarInteger", "compact_rep")

    def origin(self, f, v, depth=0):
        """the parameter a value is, or is part of"""
        v = self.unprotect(f, v)
        if isinstance(v, int) and v < f.nargs:
            return v if f.args[v]["t"] == "ptr" else None
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or depth > 20:
            return None
        if d.op == "phi":
            r = {self.origin(f, x, depth + 1) for x, _ in d.inn if x != v}
            r.discard(None)
            return next(iter(r)) if len(r) == 1 else None
        if d.op in ("call", "load", "getelementptr"):
            for x in d.a:
                if isinstance(x, int):
                    r = self.origin(f, x, depth + 1)
                    if r is not None:
                        return r
        if d.op == "alloca":
            for u in f.uses.get(v, ()):
                if u.op == "call" and v in u.a:
                    for x in u.a:
                        if isinstance(x, int) and x != v and (x < f.nargs or f.defs[x].op != "alloca"):
                            r = self.origin(f, x, depth + 1)
                            if r is not None:
                                return r
            for (b, off), ss in self.S.storemap(f).items():
                if b == v:
                    for y in ss:
                        r = self.origin(f, y.a[0], depth + 1)
                        if r is not None:
                            return r
        return None

    # ---- a common size is what its vectors are recycled to
    def commons(self):
        M, rep = self.M, self.rep
        for f in M.funcs.values():
            base = M.basename(f.name)
            if base in COMMON:
                continue
            for i in f.calls():
                b = M.basename(i.f)
                if b in COMMON and i.id is not None:
                    lst = self.unprotect(f, i.a[COMMON[b]])
                    where = "%s:%s" % (f.file, i.l)
                    self.pokes(f, i, lst)
                    r = self.spent(f, {i.id}, {lst}, 0, set())
                    if r == "ok":
                        rep.ok("common", sample=where)
                    elif r == "other":
                        rep.violation("common", base, where, "%s() computes a common size of some vectors and recycles others to it" % base)
                    else:
                        rep.violation("common", base, where, "%s() computes a common size that the vectors are not recycled to" % base)
                if b in RECYCLE:
                    where = "%s:%s" % (f.file, i.l)
                    us = [u for u in f.uses.get(i.id, ())]
                    real = []
                    for u in us:
                        if u.op == "call" and M.basename(u.f) == "Rf_protect":
                            real += [x for x in f.uses.get(u.id, ())]
                        else:
                            real.append(u)
                    if not real:
                        rep.violation("used", "%s:%s" % (base, b), where, "%s() recycles a vector and goes on with the one it had" % base)
                    else:
                        rep.ok("used", sample=where)

    def pokes(self, f, i, lst):
        """elements put back into the list were recycled"""
        M, rep = self.M, self.rep
        ns = self.forward(f, {i.id})
        base = M.basename(f.name)
        for c in f.calls():
            if M.basename(c.f) in ("r_list_poke", "SET_VECTOR_ELT") and self.unprotect(f, c.a[0]) == lst:
                where = "%s:%s" % (f.file, c.l)
                ok = False
                for x in self.slice(f, c.a[2]):
                    d = f.defs.get(x) if x >= f.nargs else None
                    if d is not None and d.op == "call" and M.basename(d.f) in RECYCLE and d.a[1] in ns:
                        ok = True
                if ok:
                    rep.ok("elements", sample=where)
                else:
                    rep.violation("elements", base, where, "%s() puts elements back into the list that have not been recycled to its common size" % base)

    def forward(self, f, vs):
        out = set(vs)
        work = list(vs)
        while work:
            v = work.pop()
            for u in f.uses.get(v, ()):
                if u.id is None or u.id in out:
                    continue
                if u.op in ("phi", "select", "sext", "zext", "trunc", "add", "sub") or u.op == "call" and self.M.basename(u.f) in ("Rf_protect", "Rf_ScalarInteger", "r_int", "r_len"):
                    out.add(u.id)
                    work.append(u.id)
        return out

    def spent(self, f, ns, ls, depth, seen):
        M = self.M
        k = (f.name, frozenset(ns), frozenset(ls))
        if k in seen or depth > 5:
            return None
        seen.add(k)
        ns = self.forward(f, ns)
        got = None
        for i in f.insts():
            if i.op == "ret" and i.a and i.a[0] in ns:
                return "ok"          # handed to the user
            if i.op != "call":
                continue
            b = M.basename(i.f)
            if b in RECYCLE:
                kx, kn = RECYCLE[b]
                if i.a[kn] in ns:
                    if self.slice(f, i.a[kx]) & ls:
                        return "ok"
                    got = got or "other"
                    continue
            g = M.funcs.get(i.f)
            if g is None or not g.blocks:
                continue
            n2 = {k for k, a in enumerate(i.a[:g.nargs]) if isinstance(a, int) and a in ns}
            if not n2:
                continue
            l2 = {k for k, a in enumerate(i.a[:g.nargs]) if isinstance(a, int) and g.args[k]["t"] == "ptr" and self.unprotect(f, a) in ls}
            r = self.spent(g, n2, l2, depth + 1, seen)
            if r == "ok":
                return r
            got = got or r
        return got


# ---- dimensions of arrays, in R
class Num:
    """evaluates comparisons of two dimensions"""

    def __init__(self, defs, env):
        self.defs, self.env = defs, env

    def ev(self, n, depth=0):
        if depth > 20:
            return None
        if n.t == "sym":
            if n.n in self.env:
                return self.env[n.n]
            d = self.defs.get(n.n)
            return self.ev(d[0], depth + 1) if d and len(d) == 1 else None
        if n.t in ("num", "int", "lgl", "dbl", "const"):
            try:
                s = n.text().rstrip("L")
                return True if s == "TRUE" else False if s == "FALSE" else float(s)
            except ValueError:
                return None
        if n.t != "call":
            return None
        c = n.callee()
        a = [self.ev(x, depth + 1) for _, x in n.a]
        if c in ("(", "any", "all", "{", "as.integer", "isTRUE") and a:
            return a[-1]
        if c == "!" and len(a) == 1:
            return None if a[0] is None else not a[0]
        if c in ("|", "||", "&", "&&") and len(a) == 2:
            p, q = a
            if c[0] == "|":
                return True if p is True or q is True else None if None in (p, q) else False
            return False if p is False or q is False else None if None in (p, q) else True
        if len(a) == 2 and None not in a:
            p, q = a
            return {"==": p == q, "!=": p != q, "<": p < q, ">": p > q, "<=": p <= q, ">=": p >= q}.get(c)
        return None


def leaves(n, defs, out, depth=0):
    for x in n.walk():
        if x.t == "sym":
            d = defs.get(x.n)
            logical = d and len(d) == 1 and d[0].t == "call" and d[0].callee() in ("==", "!=", "|", "&", "!", "<", ">", "<=", ">=", "||", "&&", "any", "all", "(")
            if logical and depth < 6:
                leaves(d[0], defs, out, depth + 1)
            elif x.n not in ("TRUE", "FALSE", "any", "all", "==", "!=", "|", "&", "!", "<", ">", "<=", ">=", "||", "&&", "("):
                out.add(x.n)


def shapes(P, rep):
    for nm, fn in P.funs.items():
        if not {"x", "to"} <= set(fn.formals):
            continue
        defs, first = {}, {}
        for n in fn.body.walk():
            if n.t == "call" and n.callee() in ("<-", "=") and len(n.a) == 2 and n.a[0][1].t == "sym":
                defs.setdefault(n.a[0][1].n, []).append(n.a[1][1])
        dep = {k: {x.n for x in v[0].walk() if x.t == "sym"} for k, v in defs.items()}
        dims = {k for k, v in defs.items() if any(x.t == "call" and x.callee() in ("vec_dim", "dim") for x in v[0].walk())}
        if len(dims) < 2:
            continue
        for n in fn.body.walk():
            if n.t != "call" or n.callee() != "if" or len(n.a) < 2:
                continue
            stops = [c for c in n.a[1][1].walk() if c.t == "call" and c.callee() in ("stop_incompatible_cast", "stop_incompatible_type", "abort", "stop_incompatible_shape")]
            ls = set()
            leaves(n.a[0][1], defs, ls)
            ls &= dims
            if len(ls) != 2 or any(x.t == "call" and x.callee() == "length" for x in n.a[0][1].walk()):
                continue
            side = {}
            for l in ls:
                side["to" if "to" in dep[l] else "x"] = l
            if len(side) != 2:
                continue
            if not stops:
                # the vector is handed back as it is
                b = n.a[1][1]
                while b.t == "call" and b.callee() in ("{", "return", "(") and b.a:
                    b = b.a[-1][1]
                if b.t == "sym" and b.n == "x" and len(n.a) == 2:
                    where = "%s:%d" % (fn.file, n.l or fn.line)
                    bad = [(p, q) for p in SIZES for q in SIZES if (p == q or p == 1) and
                           Num(defs, {side["x"]: float(p), side["to"]: float(q)}).ev(n.a[0][1]) is not (p == q) and p != q]
                    if bad:
                        rep.violation("shape", nm + ":as-is", where, "%s() hands back a vector with a dimension of %d where one of %d is asked for" % ((nm,) + bad[0]))
                    else:
                        rep.ok("shape", len(SIZES))
                continue
            where = "%s:%d" % (fn.file, n.l or fn.line)
            bad = None
            for a in SIZES:
                for b in SIZES:
                    got = Num(defs, {side["x"]: float(a), side["to"]: float(b)}).ev(n.a[0][1])
                    want = not (a == b or a == 1)
                    if got is not want:
                        bad = bad or (a, b, got)
            if bad:
                rep.violation("shape", nm, where, "%s() %s a dimension of %d for one of %d" % (
                    nm, "does not decide on" if bad[2] is None else "rejects" if bad[2] else "accepts", bad[0], bad[1]))
            else:
                rep.ok("shape", len(SIZES) ** 2, sample="%s %s()" % (where, nm))


    # a vector with fewer dimensions has ones after its own
    for nm, fn in P.funs.items():
        for c in [c for c in fn.body.calls() if c.callee() == "c"]:
            reps = [k for k, (_, x) in enumerate(c.a) if x.t == "call" and x.callee() in ("rep", "rep_len", "rep.int") and x.a and x.a[0][1].text() in ("1L", "1")]
            if len(c.a) == 2 and len(reps) == 1 and nm in used_by_shapes(P):
                where = "%s:%d" % (fn.file, c.l)
                if reps[0] == 0:
                    rep.violation("shape", nm + ":pad", where, "%s() puts the missing dimensions before those there are" % nm)
                else:
                    rep.ok("shape")


def used_by_shapes(P):
    out = set()
    for nm, fn in P.funs.items():
        cs = {c.callee() for c in fn.body.calls()}
        if "vec_dim" in cs and {"x", "to"} <= set(fn.formals):
            out |= cs
    return out


def check(rep):
    rep.rule("operands", "the sizes compared are those of two operands", 0)
    rep.rule("elements", "elements put back into the list whose common size was computed have been recycled to it", 0)
    rep.rule("decide", "whoever reports two sizes as incompatible accepts equal ones and ones, gives the other size for a one, and rejects all else", 50)
    rep.rule("shape", "dimensions are recycled by the same rule", 9)
    rep.rule("fill", "values stored at locations were recycled to the number of locations", 2)
    rep.rule("own", "values stored at locations counted out for them", 0)
    rep.rule("common", "a common size computed from vectors is what these vectors are recycled to", 2)
    rep.rule("used", "the recycled vector is the one that is used", 5)
    M = common.load_module(inline=False)
    P = common.load_r()
    c = C(M, rep)
    c.deciders()
    c.fills()
    c.commons()
    shapes(P, rep)
    rep.coverage["functions"] = len(M.funcs)


if __name__ == "__main__":
    main(PROP, check)
