"""The common type of two operands is made from both of them: no function that
computes it may decide by one operand alone.

A result, an attribute of it or an argument of a further computation that comes
from one operand only is accepted where the two operands are known to agree on
what it comes from, or the other one has nothing to contribute (is NULL)."""
import facts
import sides
import rops

# Functions that settle for one operand by rule of the package.
DECIDED = {
    "date_datetime_ptype2": "only one of a date and a date-time has a time zone",
    "tzone_union": "the time zone is that of the first operand that has one",
    "vec_shape2_impl": "starts from the shape with more dimensions",
}
EQUAL = {"equal_object", "equal_object_normalized", "R_compute_identical", "r_is_identical"}
# functions of two operands that do not compute a type
OTHER = {"s3_find_method_xy", "vec_typeof2_s3_impl", "vec_typeof2_s3_impl2", "vec_dimension2"}
PAIR = {"vec_ptype2_opts": 0, "vec_ptype2_opts_impl": 0, "vec_ptype2_params": None, "vec_ptype2": None}


class Native:
    def __init__(self, M, rep, roots):
        self.M, self.rep = M, rep
        self.S = sides.Sides(M)
        self.joins = self.find(roots)
        self.implies = {}

    def side(self, f, v):
        out = set()
        d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        while d is not None and d.op == "call" and self.M.basename(d.f or "") in ("Rf_protect", "PROTECT_N"):
            d = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
        if d is not None and d.op == "call" and self.M.basename(d.f or "").startswith(("r_alloc", "Rf_alloc")):
            return frozenset()    # a size is not content
        for s in self.S.stems(f, v):
            for k in "xy":
                if s == k or s.startswith(k + "_"):
                    out.add(k)
            if s == "to":    # the second field: both structures of options share one layout
                out.add("y")
        return frozenset(out)

    def find(self, roots):
        M = self.M
        seen, work = set(), [(M.get(r), 0) for r in roots]
        while work:
            f, d = work.pop()
            if f is None or f.name in seen:
                continue
            seen.add(f.name)
            if d < 4:
                work += [(M.funcs.get(i.f), d + 1) for i in f.calls() if i.f in M.funcs]
        return {n: M.funcs[n] for n in seen if self.two(M.funcs[n]) and M.basename(n) not in EQUAL | OTHER}

    def two(self, f):
        names = [sides.stem(a["n"] or "") for a in f.args]
        if any(n == "opts" for n in names):
            # the operands come in a structure of options
            kinds = {n[0] for n in names if n in ("x", "y") or n[:2] in ("x_", "y_")}
            return kinds in (set(), {"x", "y"})
        kinds = {n[0] for n in names if n in ("x", "y") or n[:2] in ("x_", "y_")}
        return kinds == {"x", "y"}

    # -- the operands are known to agree
    def agree(self, p):
        f, M = p.f, self.M
        for a in p.atoms():
            if a[0] == "icmp" and a[1] == "eq":
                l, r = self.side(f, a[2]), self.side(f, a[3])
                if self.ptr(f, a[2]) and len(l) == 1 and len(r) == 1 and l != r:
                    return True
                for s, o in ((l, a[3]), (r, a[2])):
                    if len(s) == 1 and self.null(f, o):
                        return "absent " + next(iter(s))
            if a[0] == "val" and a[2]:
                d = f.defs.get(a[1])
                if d is not None and d.op == "call" and d.f and self.equality(f, d):
                    return True
        return False

    def ptr(self, f, v):
        if not isinstance(v, int):
            return False
        if v < f.nargs:
            return f.args[v]["t"] == "ptr"
        d = f.defs.get(v)
        return d is not None and d.t == "ptr"

    def null(self, f, v):
        d = f.defs.get(v) if isinstance(v, int) else None
        return v == ("null",) or d is not None and d.op == "load" and d.a[0] == ("g", "R_NilValue", 0)

    def equality(self, f, d):
        M = self.M
        if M.basename(d.f) in EQUAL:
            l, r = self.side(f, d.a[0]), self.side(f, d.a[1])
            return len(l) == 1 and len(r) == 1 and l != r
        return d.f in M.funcs and self.predicate(M.funcs[d.f])

    def predicate(self, f):
        """whether the function says yes only if the operands agree"""
        if f.name in self.implies:
            return self.implies[f.name]
        self.implies[f.name] = False
        if not f.ret_type_bool() if hasattr(f, "ret_type_bool") else False:
            return False
        ok, n = True, 0
        for b, i in rets(f):
            for p in facts.paths(f, 0, b):
                v = p.res(i.a[0]) if i.a else None
                c = facts.const_of(p, v)
                if c == 0:
                    continue
                n += 1
                d = f.defs.get(v) if isinstance(v, int) else None
                while d is not None and d.op in ("zext", "trunc", "freeze"):
                    v = p.res(d.a[0])
                    d = f.defs.get(v) if isinstance(v, int) else None
                if d is not None and d.op == "call" and d.f and self.equality(f, d):
                    continue
                if d is not None and d.op == "icmp" and d.p == "eq":
                    l, r = self.side(f, d.a[0]), self.side(f, d.a[1])
                    if self.ptr(f, d.a[0]) and len(l) == 1 and len(r) == 1 and l != r:
                        continue
                if self.agree(p) is True:
                    continue
                ok = False
        self.implies[f.name] = ok and n > 0
        return self.implies[f.name]

    def run(self):
        for f in sorted(self.joins.values(), key=lambda f: f.name):
            self.results(f)
            self.pairs(f)
            self.unused(f)

    def results(self, f):
        rep, M = self.rep, self.M
        try:
            todo = []
            for b, i in rets(f):
                if i.a and self.ptr(f, i.a[0]):
                    todo += [(p, p.res(i.a[0]), i, "result") for p in facts.paths(f, 0, b)]
            for bn, blk in enumerate(f.blocks):
                for i in blk:
                    if i.op == "call" and M.basename(i.f or "") in ("Rf_setAttrib", "r_attrib_poke"):
                        todo += [(p, i.a[2], i, "attribute") for p in facts.paths(f, 0, bn)]
                    elif i.op == "call" and i.f in self.joins and M.basename(i.f) != "vec_ptype2_from_unspecified":
                        g = M.funcs[i.f]
                        for k, a in enumerate(i.a):
                            # one operand's attribute handed on for both
                            if k < len(g.args) and self.ptr(f, a) and len(self.side(f, a)) == 1 and not any(sides.stem(g.args[k]["n"] or "") == s or sides.stem(g.args[k]["n"] or "")[:2] == s + "_" for s in "xy"):
                                todo += [(p, a, i, "argument") for p in facts.paths(f, 0, bn)]
        except facts.TooMany:
            return
        bad = set()
        absent = {}
        for p, v, i, what in todo:
            if not facts.possible(p):
                continue
            s = self.side(f, p.res(v))
            if len(s) != 1:
                self.rep.ok("both")
                continue
            g = self.agree(p)
            if g is True:
                rep.ok("both", 1, "%s: %s of %s where the operands agree" % (i.loc(), what, f.base))
            elif g and g[-1] not in s:
                absent.setdefault(g, set()).add(f.defs[p.res(v)].f if isinstance(p.res(v), int) and p.res(v) in f.defs and f.defs[p.res(v)].op == "call" else "value")
                rep.ok("both", 1, "%s: %s of %s where the other operand has none" % (i.loc(), what, f.base))
            elif f.base in DECIDED:
                rep.ok("decided", 1, "%s: %s()" % (i.loc(), f.base))
            elif (i.id, what) not in bad:
                bad.add((i.id, what))
                rep.violation("both", "%s:%s" % (f.base, what), i.loc(),
                              "%s() takes the %s from one operand without knowing that the other one agrees" % (f.base, what))
        if absent and (len(absent) != 2 or len({frozenset(x) for x in absent.values()}) != 1):
            rep.violation("both", f.base + ":absent", "%s:%s" % (f.file, f.line), "%s() treats an operand that has nothing to contribute differently from the other" % f.base)

    def pairs(self, f):
        """operands of further common types are one of each side"""
        rep, M = self.rep, self.M
        for i in f.calls():
            b = M.basename(i.f or "")
            pair = None
            if i.f in self.joins or b in PAIR:
                g = M.funcs.get(i.f)
                if g is None:
                    continue
                pos = {}
                for k, a in enumerate(g.args[:len(i.a)]):
                    n = sides.stem(a["n"] or "")
                    if a["t"] == "ptr" and n and (n in "xy" or n[:2] in ("x_", "y_")) and not (a["n"] or "").endswith("_arg"):
                        pos.setdefault((n[0], n[1:]), k)
                for (s, r), k in pos.items():
                    if s == "x" and ("y", r) in pos:
                        pair = (self.side(f, i.a[k]), self.side(f, i.a[pos["y", r]]))
                        self.judge(f, i, pair, b)
                if not pos:
                    self.options(f, i, b)

    def unused(self, f):
        """each operand has a part in the result"""
        for s in "xy":
            ps = [k for k, a in enumerate(f.args) if a["t"] == "ptr" and sides.stem(a["n"] or "") == s and not (a["n"] or "").endswith("_arg")]
            for k in ps:
                if not f.uses.get(k) and f.base not in DECIDED:
                    self.rep.violation("both", "%s:unused %s" % (f.base, s), "%s:%s" % (f.file, f.line), "%s() ignores one of its two operands" % f.base)

    def options(self, f, i, b):
        M = self.M
        for a in i.a:
            d = f.defs.get(a) if isinstance(a, int) else None
            if d is None or d.op != "alloca":
                continue
            sm = self.S.storemap(f)
            st = M.structs.get("ptype2_opts") or ()
            off = {m[1]: m[0] for m in st}
            xs, ys = sm.get((a, off.get("x", 0)), ()), sm.get((a, off.get("y", 8)), ())
            for s in xs:
                if "y" in self.side(f, s.a[0]) and "x" not in self.side(f, s.a[0]):
                    self.judge(f, s, (frozenset("y"), frozenset("y")), b)
                else:
                    self.rep.ok("both")
            for s in ys:
                if "x" in self.side(f, s.a[0]) and "y" not in self.side(f, s.a[0]):
                    self.judge(f, s, (frozenset("x"), frozenset("x")), b)
                else:
                    self.rep.ok("both")

    def judge(self, f, i, pair, b):
        if pair[0] == pair[1] and len(pair[0]) == 1:
            self.rep.violation("both", "%s:%s" % (f.base, b), i.loc(), "%s() asks %s() for the common type of one operand with itself" % (f.base, b))
        else:
            self.rep.ok("both", 1, "%s: %s()" % (i.loc(), b))

    def missing(self):
        """an operand without a type yields to the other"""
        M, rep = self.M, self.rep
        for f in M.funcs.values():
            for bn, blk in enumerate(f.blocks):
                for i in blk:
                    if i.op != "call" or M.basename(i.f or "") != "vec_ptype2_from_unspecified":
                        continue
                    v = i.a[2]
                    bad = False
                    for p in facts.paths(f, 0, bn):
                        if not facts.possible(p):
                            continue
                        for a in p.atoms():
                            if a[0] != "icmp" or a[1] != "eq":
                                continue
                            for t, c in ((a[2], a[3]), (a[3], a[2])):
                                d = f.defs.get(t) if isinstance(t, int) else None
                                if d is None or facts.const_of(p, c) not in (0, 1):
                                    continue
                                if d.op == "call" and M.basename(d.f or "") == "vec_typeof" and p.res(d.a[0]) == p.res(v):
                                    bad = True
                    if bad:
                        rep.violation("both", f.base + ":missing", i.loc(), "%s() lets the operand without a type decide on the common type" % f.base)
                    else:
                        rep.ok("both", 1, "%s: the other operand decides" % i.loc())


def rets(f):
    for bn, blk in enumerate(f.blocks):
        for i in blk:
            if i.op == "ret":
                yield bn, i


def diverges(n):
    while n.t == "call" and n.callee() == "{" and n.a:
        n = n.a[-1][1]
    return n.t == "call" and (n.callee() in ("stop", "abort", "return") or (n.callee() or "").startswith("stop_"))


# Classes without parameters: any two vectors of the class have one type.
PLAIN = {"omit", "exclude"}
ACCESS = {"st_crs", "st_precision", "attr", "attributes", "levels", "units", "tzone", "names", "class", "vec_ptype", "$", "[[", "(", "unstructure", "asis_strip", "unclass", "vec_data"}


class Methods:
    """the same for common-type methods written in R"""

    def __init__(self, P, rep):
        self.P, self.rep = P, rep

    def side(self, fn, v, x, y, depth=0):
        out = set()
        if depth > 8 or v is None:
            return out
        for s in v.walk():
            if s.t != "sym" or s.n in ("x_arg", "y_arg"):
                continue
            for d in rops.last_assignment(fn, s, s.n):
                if d is None:
                    if s.n == x:
                        out.add("x")
                    elif s.n == y:
                        out.add("y")
                elif d is not v:
                    out |= self.side(fn, d, x, y, depth + 1)
        return out

    def same(self, fn, c, x, y, truth=True):
        """the condition, when it is `truth`, says the operands have one and
        the same attribute"""
        if c.t != "call":
            return False
        if c.callee() == "(":
            return self.same(fn, c.a[0][1], x, y, truth)
        if c.callee() == "!":
            return self.same(fn, c.a[0][1], x, y, not truth)
        if c.callee() == ("&&" if truth else "||"):
            return any(self.same(fn, v, x, y, truth) for _, v in c.a)
        if c.callee() == ("||" if truth else "&&"):
            return all(self.same(fn, v, x, y, truth) for _, v in c.a)
        if not truth:
            return c.callee() == "!=" and self.sides2(fn, c, x, y)
        if c.callee() in ("identical", "==", "is_identical", "identical.default") and len(c.a) >= 2:
            return self.sides2(fn, c, x, y)
        h = self.P.fun(c.callee()) if c.callee() else None
        if h is not None and h is not fn:
            got = rops.matched(h, c)
            fx = [k for k, a in got.items() if self.side(fn, a, x, y) == {"x"}]
            fy = [k for k, a in got.items() if self.side(fn, a, x, y) == {"y"}]
            if len(fx) == 1 and len(fy) == 1:
                return all(self.same(h, r, fx[0], fy[0]) for r in rops.returned(h))
        return False

    def sides2(self, fn, c, x, y):
        l, r = c.a[0][1], c.a[1][1]
        sl, sr = self.side(fn, l, x, y), self.side(fn, r, x, y)
        return len(sl) == len(sr) == 1 and sl != sr and self.plain(fn, l) and self.plain(fn, r)

    def plain(self, fn, v, depth=0):
        if depth > 6:
            return False
        if v.t == "sym":
            return all(d is None or self.plain(fn, d, depth + 1) for d in rops.last_assignment(fn, v, v.n))
        if v.t == "call" and v.callee() in ACCESS and v.a:
            return self.plain(fn, v.a[0][1], depth + 1)
        return False

    def results(self, fn):
        """(expression, conditions it is reached under, each with its truth)"""
        out = []

        def conds(n):
            cs, p = [], n.parent
            while p is not None and n is not fn.node:
                if p.t == "call" and p.callee() == "if" and n is not p.a[0][1]:
                    cs.append((p.a[0][1], n is p.a[1][1]))
                if p.t == "call" and p.callee() == "{":
                    # what earlier statements rule out
                    for _, q in p.a:
                        if q is n:
                            break
                        if q.t == "call" and q.callee() == "if" and len(q.a) == 2 and diverges(q.a[1][1]):
                            cs.append((q.a[0][1], False))
                n, p = p, p.parent
            return cs
        for r in rops.returned(fn):
            out.append((r, conds(r)))
        return out

    def bare(self, fn):
        """the operand a method returns as is"""
        rs = rops.returned(fn)
        if len(rs) == 1 and rs[0].t == "sym" and rs[0].n in list(fn.formals)[:2] and rops.last_assignment(fn, rs[0], rs[0].n) == [None]:
            return "xy"[list(fn.formals).index(rs[0].n)]
        return None

    def method(self, fn, a, b, mirror):
        k = self.bare(fn)
        if k:
            if a == b and a in PLAIN:
                self.rep.ok("r-both", 1, "%s(): any two vectors of class %s have one type" % (fn.name, a))
                return
            if a != b and mirror is not None and self.bare(mirror) == {"x": "y", "y": "x"}[k]:
                self.rep.ok("r-both", 1, "%s() and its mirror choose the same class" % fn.name)
                return
        if a == b:
            self.twins(fn, *list(fn.formals)[:2])
        self.judge(fn, *list(fn.formals)[:2], fn.name)

    def twins(self, fn, x, y):
        """two vectors of one class are treated alike"""
        rep = self.rep
        for r in rops.returned(fn):
            if r.t != "call" or r.callee() in ("UseMethod",):
                continue
            todo = [r] + [d for z in r.walk() if z.t == "sym" for d in rops.last_assignment(fn, z, z.n) if d is not None and d.t == "call"]
            for c in todo:
                one = {"x": [], "y": []}
                for k, v in c.a:
                    if k in ("x_arg", "y_arg", "call"):
                        continue
                    sd = self.side(fn, v, x, y)
                    if len(sd) == 1:
                        one[next(iter(sd))].append(v)
                if not one["x"] and not one["y"] or len(c.a) < 2 or c.callee() in ACCESS:
                    continue
                tx = sorted(self.canon(fn, v, x, y) for v in one["x"])
                ty = sorted(self.canon(fn, v, y, x) for v in one["y"])
                if tx != ty:
                    rep.violation("r-both", fn.name + ":twins", "%s:%s" % (fn.file, c.l or fn.line), "%s() treats its two operands, which are of one class, differently" % fn.name)
                    return
        rep.ok("r-both", 1, fn.name + "() treats its operands alike")

    def canon(self, fn, v, x, y, depth=0):
        """text of an expression with local variables replaced by what they
        hold and the operand called `.`"""
        if v.t == "sym":
            if depth < 8:
                ds = rops.last_assignment(fn, v, v.n)
                if len(ds) == 1 and ds[0] is not None:
                    return self.canon(fn, ds[0], x, y, depth + 1)
            return "." if v.n == x else v.n
        if v.t == "call":
            return "%s(%s)" % (v.callee(), ", ".join(self.canon(fn, a, x, y, depth + 1) for _, a in v.a))
        return v.text() if v.t == "str" else str(getattr(v, "v", v.t))

    def judge(self, fn, x, y, name, depth=0):
        rep = self.rep
        for r, cs in self.results(fn):
            if r.t == "call" and r.callee() in ("tryCatch", "withCallingHandlers", "try_fetch"):
                inner = r.arg("expr", 0)
                r = inner.a[-1][1] if inner is not None and inner.t == "call" and inner.callee() == "{" and inner.a else inner
            s = self.side(fn, r, x, y)
            if len(s) != 1:
                self.deeper(fn, r, x, y, name, depth)
                continue
            if any(self.same(fn, c, x, y, t) for c, t in cs):
                rep.ok("r-both", 1, "%s(): where the operands agree" % name)
                continue
            rep.violation("r-both", name, "%s:%s" % (fn.file, r.l or fn.line), "%s() takes the common type from one operand without knowing that the other one agrees" % name)

    def deeper(self, fn, r, x, y, name, depth):
        rep = self.rep
        n = 0
        for c in r.walk() if r is not None else ():
            if c.t != "call" or not c.callee():
                continue
            exprs = [c]
            if c.callee() in ("vec_ptype2", "vec_ptype2_params", "df_ptype2", "tib_ptype2", "dt_ptype2", "gdf_ptype2", "rww_ptype2", "vec_ptype2_asis", "vec_ptype_common"):
                sd = [self.side(fn, a, x, y) for k, a in c.a if k not in ("x_arg", "y_arg", "call") and not (a.t == "sym" and a.n == "...")][:2]
                n += 1
                if len(sd) == 2 and sd[0] == sd[1] and len(sd[0]) == 1:
                    rep.violation("r-both", name, "%s:%s" % (fn.file, c.l or fn.line), "%s() asks for the common type of one operand with itself" % name)
            h = self.P.fun(c.callee())
            if h is not None and h is not fn and depth < 4:
                got = rops.matched(h, c)
                fx = [k for k, a in got.items() if self.side(fn, a, x, y) == {"x"}]
                fy = [k for k, a in got.items() if self.side(fn, a, x, y) == {"y"}]
                if len(fx) == 1 and len(fy) == 1 and {k.split("_")[0] for k in fx + fy} == {"x", "y"} and not (c.callee() in ("vec_ptype2",)):
                    self.judge(h, fx[0], fy[0], h.name, depth + 1)
        # variables the result is made of
        for s in r.walk() if r is not None else ():
            if s.t == "sym" and s.n not in (x, y) and depth < 4:
                for d in rops.last_assignment(fn, s, s.n):
                    if d is not None:
                        self.deeper(fn, d, x, y, name, depth + 1)
        rep.ok("r-both", 1, name + "()")
