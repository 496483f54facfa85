"""P19: equality, comparison and ordering look at values through the proxy a
class defines for exactly that purpose, with the documented fallbacks, and for
data frames column by column."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import cside
import operands
import rops
from chains import Spec
from common import AnalysisBroken, main

PROP = "P19"
KINDS = ("equal", "compare", "order")
# functions looking at the raw values of a vector: position of the vector
SINKS = {"vec_proxy_typeof": 0, "new_poly_vec": 0, "hash_fill": 2}
# kernels and the purposes whose values they may be applied to
KERNEL = {"hash_fill": {"equal"}}
# functions choosing a kernel for the vectors of the function calling them
CHOICE = {"poly_p_equal_na_equal": {"equal"}, "poly_p_compare_na_equal": {"compare", "order", "rank"}}
# purpose of an entry point, by the R function leading to it
PURPOSE = {
    "equal": ("vec_equal", "vec_match", "vec_in", "vec_unique", "vec_unique_loc", "vec_unique_count", "vec_duplicate_any", "vec_duplicate_detect", "vec_duplicate_id",
              "vec_count", "vec_group_id", "vec_group_rle", "vec_group_loc", "vec_split", "vec_identify_runs", "vec_detect_run_starts", "vec_detect_run_ends",
              "vec_unrep", "vec_detect_missing", "vec_any_missing", "vec_detect_complete", "vec_set_intersect", "vec_set_union", "vec_set_difference",
              "vec_set_symmetric_difference", "vec_locate_runs"),
    "compare": ("vec_interval_groups", "vec_interval_locate_groups", "vec_interval_complement", "vec_interval_locate_containers"),
    "order": ("vec_order_radix", "vec_sort_radix", "vec_locate_sorted_groups", "vec_order_info", "vec_rank"),
}
# R functions sorting with base R on the values of a proxy
R_ORDER = {"vec_compare": "compare", "vec_order": "order", "xtfrm.vctrs_vctr": "order"}
# methods handing over to another kind, and why that is the same
R_OTHER = {"vec_proxy_order.raw": ("compare", "raw vectors have no class, so native code does not fall back for them")}



def purposes(P, e):
    """routines an R function of the interface calls itself"""
    fn = P.funs.get(e)
    out = []
    if fn is not None:
        for x in fn.node.walk():
            if x.t == "call" and x.callee() in (".Call", ".External2", ".External") and x.a and x.a[0][1].t == "sym":
                out.append((x.a[0][1].n, x))
    return out


class Reach:
    """what runs below a call, given the constants it is called with"""

    def __init__(self, M, cg):
        self.M, self.cg = M, cg

    def run(self, name, args=()):
        self.seen = set()
        self.generic, self.fn, self.sym, self.open = set(), set(), set(), set()
        self.visit(name, tuple(sorted(args)))
        return self

    def value(self, f, e, v):
        if not isinstance(v, int):
            return v
        if v < f.nargs:
            return e.get(v)
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op in ("zext", "sext", "trunc"):
            return self.value(f, e, d.a[0])
        if d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
            return ("ld", d.a[0][1], d.a[0][2])
        return None

    def visit(self, name, env):
        M = self.M
        if (name, env) in self.seen:
            return
        self.seen.add((name, env))
        f = M.funcs[name]
        e = dict(env)
        done, edges, work = set(), set(), [0]
        while work:
            b = work.pop()
            if b in done:
                continue
            done.add(b)
            for s in self.succ(f, e, b):
                edges.add((b, s))
                work.append(s)
        for b in done:
            for i in f.blocks[b]:
                if i.op == "call":
                    self.call(f, e, i)
                elif i.op == "phi":
                    for v, p in i.inn:
                        if (p, b) in edges and isinstance(v, tuple) and v[0] in ("f", "g") and v[1] in M.funcs:
                            self.visit(v[1], ())
                elif i.op == "select":
                    for v in i.a[1:]:
                        if isinstance(v, tuple) and v[0] in ("f", "g") and v[1] in M.funcs:
                            self.visit(v[1], ())
                elif i.op == "load":
                    fact = self.cg.get(tuple(i.a[0][1:3])) if isinstance(i.a[0], tuple) and i.a[0][0] == "g" else None
                    if fact and str(fact[1]).startswith("vec_proxy"):
                        (self.fn if fact[0] == "fn" else self.sym).add(fact[1])

    def succ(self, f, e, b):
        t = f.blocks[b][-1]
        if t.op == "switch":
            v = self.value(f, e, t.a[0])
            if v and v[0] == "c":
                for c, s in t.cases:
                    if c == v[1]:
                        return [s]
                return [t.deflt]
        if t.op == "br" and t.a:
            d = f.defs.get(t.a[0]) if isinstance(t.a[0], int) else None
            if d is not None and d.op == "icmp" and d.p in ("eq", "ne"):
                x, y = self.value(f, e, d.a[0]), self.value(f, e, d.a[1])
                if x and y and x[0] == y[0] == "c":
                    return [t.s[0 if (x[1] == y[1]) == (d.p == "eq") else 1]]
        return f.succ[b]

    def call(self, f, e, i):
        M = self.M
        args = {}
        for k, a in enumerate(i.a):
            v = self.value(f, e, a)
            if v is None or v[0] == "null":
                continue
            if v[0] in ("f", "g") and v[1] in M.funcs:
                args[k] = v
                self.visit(v[1], ())
                continue
            fact = self.cg.get(tuple(v[1:3])) if v[0] == "ld" else None
            if fact and str(fact[1]).startswith("vec_proxy"):
                (self.fn if fact[0] == "fn" else self.sym).add(fact[1])
            s = cside.cstring(M, v) if v[0] == "g" else None
            if s and s.startswith("vec_proxy"):
                self.generic.add(s)
            if v[0] in ("c", "ld", "g"):
                args[k] = v
        if i.f in M.funcs:
            self.visit(i.f, tuple(sorted(args.items(), key=str)))
        elif not i.f:
            v = self.value(f, e, i.fp)
            if v is None:
                self.open.add(f.base)


class Check:
    def __init__(self, M, P, rep):
        self.M, self.P, self.rep = M, P, rep
        ops = dict(operands.PAIR_OPS)
        ops["vec_joint_proxy_order"] = Spec("proxy", detail="order")
        ops["vec_proxy_unwrap"] = Spec("unwrap")
        self.O = operands.Operands(M, P, ops)
        self.O.state = lambda ops: next(((n, d) for n, d in ops if n in ("proxy", "rank")), None)
        self.kinds = {}

    # -- every look at raw values goes through a proxy
    def sinks(self):
        M, rep, O = self.M, self.rep, self.O
        together = {}
        for f in M.funcs.values():
            if f.name not in O.live:
                continue
            for i in f.calls():
                b = M.basename(i.f)
                if b not in SINKS or self.assigning(f):
                    continue
                bad = None
                got = set()
                for kind, src, ops, path in O.walk(f, i.a[SINKS[b]], lambda o, p: False):
                    if path[-1].name not in O.live:
                        continue
                    k = next((d if n == "proxy" else "rank" for n, d in ops if n in ("proxy", "rank")), None)
                    if k:
                        got.add(k)
                    if kind == "root":
                        if k is None:
                            k = self.rside(src)
                        if k is None:
                            bad = bad or (path, "argument `%s` of routine %s as it is" % (src[2].args[src[1]]["n"], src[0]))
                        else:
                            got.add(k)
                            self.kinds.setdefault(src[0], {}).setdefault(k, (f, i, path))
                    elif kind == "fresh" and src[1] in operands.USER and k is None:
                        bad = bad or (path, "the result of R code as it is")
                if b == "new_poly_vec":
                    for kind, src, ops, path in O.walk(f, i.a[SINKS[b]], lambda o, p: False):
                        k = next((d if n == "proxy" else "rank" for n, d in ops if n in ("proxy", "rank")), None)
                        if k and path[-1].name in O.live:
                            together.setdefault((f.base, path[-1].base), {}).setdefault(k, []).append(i)
                if bad:
                    rep.violation("uses", "%s:%s:%s" % (f.base, b, bad[0][-1].base), i.loc(),
                                  "%s() looks at the values of %s, without the proxy of its class (via %s)" % (f.base, bad[1], " < ".join(x.base for x in bad[0][:8])))
                else:
                    rep.ok("uses", sample="%s: %s" % (i.loc(), ",".join(sorted(got))))
                want = KERNEL.get(b) or self.choice(f)
                if want and got - want:
                    rep.violation("kernels", "%s:%s" % (f.base, b), i.loc(), "%s() is applied to the proxy for `%s`, made for `%s`" % (b, "`, `".join(sorted(got - want)), "`, `".join(sorted(want))))
                elif want:
                    rep.ok("kernels", sample="%s: %s()" % (i.loc(), b))
        for (g, root), ks in sorted(together.items()):
            ids = {i.id for v in ks.values() for i in v}
            if len(ks) > 1 and len(ids) > 1 and not all({i.id for i in v} == ids for v in ks.values()):
                k = min(ks, key=lambda k: len(ks[k]))
                rep.violation("together", "%s:%s" % (g, root), ks[k][0].loc(), "%s() compares values of proxies of different kinds (`%s`), when called from %s()" % (g, "`, `".join(sorted(ks)), root))
            elif len(ids) > 1:
                rep.ok("together", sample="%s: %s" % (g, ",".join(ks)))

    def choice(self, f):
        ws = [CHOICE[b] for b in {self.M.basename(i.f) for i in f.calls()} & set(CHOICE)]
        return ws[0] if len(ws) == 1 else None

    def assigning(self, f):
        """copying values rather than looking at them: dispatches on the data proxy"""
        M = self.M
        if not hasattr(self, "assign"):
            self.assign = set()
            work = [x.name for x in M.funcs.values() if x.base == "vec_proxy_assign_opts"]
            while work:
                n = work.pop()
                if n in self.assign:
                    continue
                self.assign.add(n)
                work += [i.f for i in M.funcs[n].calls() if i.f in M.funcs]
            # but not what is used for anything else
            ch = True
            while ch:
                ch = False
                for n in list(self.assign):
                    if M.funcs[n].base != "vec_proxy_assign_opts" and any(c[0].name not in self.assign for c in self.O.C.callers.get(n, ())):
                        self.assign.discard(n)
                        ch = True
        return f.name in self.assign

    def rside(self, src):
        """kind of proxy R code takes before it calls a routine"""
        r, pos, _ = src
        ks = set()
        for fn, call in self.O.uses_of(r):
            args = [x for n, x in call.a if n not in ("PACKAGE",)][1:]
            if pos >= len(args):
                raise AnalysisBroken("%s(): call of %s with %d arguments" % (fn.name, r, len(args)))
            for ops, s in rops.chains(fn, args[pos]):
                ks.add(next((d for n, d in ops if n == "proxy"), None))
        if len(ks) == 1:
            return ks.pop()
        return None

    # -- the right kind for the purpose of each entry point
    def purpose(self):
        P, rep = self.P, self.rep
        for k, es in PURPOSE.items():
            for e in es:
                for r, node in purposes(P, e):
                    got = self.kinds.get(r)
                    if not got:
                        continue
                    ok = {"equal": {"equal"}, "compare": {"compare", "order", "rank", "equal"}, "order": {"order", "rank", "equal"}}[k]
                    bad = set(got) - ok
                    if bad:
                        f, i, path = got[sorted(bad)[0]]
                        rep.violation("purpose", "%s:%s" % (e, r), i.loc(), "%s() works on the proxy for `%s` (in %s, via %s), its purpose calls for `%s`"
                                      % (e, sorted(bad)[0], f.base, " < ".join(x.base for x in path[:8]), k))
                    elif not set(got) & {k, "rank"}:
                        rep.violation("purpose", "%s:%s" % (e, r), "%s:%s" % (P.funs[e].file, node.l), "%s() never looks at the proxy for `%s`" % (e, k))
                    else:
                        rep.ok("purpose", sample="%s(): %s" % (e, ",".join(sorted(got))))

    # -- which methods are looked for
    def fallbacks(self):
        M, P, rep = self.M, self.P, self.rep
        R = Reach(M, self.O.S.cg)
        for n, k in enumerate(KINDS):
            want = {"vec_proxy"} | {"vec_proxy_" + x for x in KINDS[:n + 1]}
            c = self.native("vec_proxy_" + k)
            self.closure(R, "vec_proxy_" + k, c, (), want)
        # columns of data frames, by the constant standing for each kind
        # (telling what is missing is a matter of equality)
        kinds = {k: self.P.vars.get("VCTRS_PROXY_KIND_" + k) for k in KINDS}
        for f in M.funcs.values():
            for i in f.calls():
                if M.basename(i.f) == "df_proxy" and i.a and isinstance(i.a[1], tuple) and i.a[1][0] == "c":
                    kd = i.a[1][1]
                    node = next((k for k, v in kinds.items() if v is not None and self.number(v[2]) == kd), None)
                    if node is None:
                        rep.violation("columns", "%s:%s" % (f.base, kd), i.loc(), "R code has no kind %s" % kd)
                        continue
                    n = KINDS.index(node)
                    want = {"vec_proxy"} | {"vec_proxy_" + x for x in KINDS[:n + 1]}
                    self.closure(R, "columns:" + node, i.f, ((1, ("c", kd)),), want, "columns")

    def number(self, node):
        t = node.text() if hasattr(node, "text") else None
        try:
            return int(float(str(getattr(node, "v", t)).rstrip("L")))
        except (TypeError, ValueError):
            return None

    def native(self, g):
        """the native function behind an R generic"""
        fn = self.P.funs.get(g)
        if fn is None:
            raise AnalysisBroken("no generic %s()" % g)
        rs = purposes(self.P, g)
        if len(rs) != 1:
            raise AnalysisBroken("%s() calls %d routines" % (g, len(rs)))
        for f, names in self.O.routines.items():
            if rs[0][0] in names:
                return f
        raise AnalysisBroken("routine %s not registered" % rs[0][0])

    def closure(self, R, what, fname, args, want, rule="fallback"):
        M, rep = self.M, self.rep
        R.run(fname, args)
        f = M.funcs[fname]
        where = "%s:%s" % (f.file, f.line)
        arr = {x + ".array" for x in want if x != "vec_proxy"}
        if R.open and (R.generic != want):
            raise AnalysisBroken("%s: calls through pointers in %s" % (what, ", ".join(sorted(R.open))))
        if R.generic != want or R.fn != arr or not want >= {s for s in R.sym if not s.endswith(".array")}:
            rep.violation(rule, what, where, "%s: looks for methods of %s and array methods %s; the fallbacks are %s"
                          % (what, ", ".join(sorted(R.generic)), ", ".join(sorted(R.fn)), ", ".join(sorted(want))))
        else:
            rep.ok(rule, sample="%s: %s" % (what, ", ".join(sorted(want))))

    # -- methods of the package hand over to their own kind
    def methods(self):
        P, rep = self.P, self.rep
        for n, fn in P.funs.items():
            k = next((k for k in KINDS if n.startswith("vec_proxy_" + k + ".") or n.startswith("vec_proxy_" + k + "_")), None)
            calls = [x for x in fn.node.walk() if x.t == "call" and x.callee() in {"vec_proxy_" + y for y in KINDS}]
            want = k or R_ORDER.get(n)
            if n in R_OTHER and k:
                want = R_OTHER[n][0]
            if n in R_ORDER and not calls:
                rep.violation("methods", n, "%s:%s" % (fn.file, fn.l), "%s() no longer sorts on the proxy for `%s`" % (n, want))
            for x in calls:
                if want is None:
                    continue
                got = x.callee()[len("vec_proxy_"):]
                if got != want:
                    rep.violation("methods", n, "%s:%s" % (fn.file, x.l), "%s() uses the proxy for `%s` instead of `%s`" % (n, got, want))
                else:
                    rep.ok("methods", sample="%s -> %s" % (n, got))

    # -- proxies of two vectors taken together
    def joint(self):
        M, rep, C = self.M, self.rep, self.O.C
        start = [f for f in M.funcs.values() if f.base == "vec_joint_proxy_order"]
        if not start:
            return
        seen, work = set(), [start[0]]
        while work:
            f = work.pop()
            if f.name in seen:
                continue
            seen.add(f.name)
            for v in C.retvals(f):
                work += self.returned_from(f, v, set())
        for n in sorted(seen):
            self.joint1(M.funcs[n])

    def returned_from(self, f, v, seen):
        if not isinstance(v, int) or v < f.nargs or v in seen:
            return []
        seen.add(v)
        d = f.defs.get(v)
        if d is None:
            return []
        if d.op == "phi":
            return [g for x, _ in d.inn for g in self.returned_from(f, x, seen)]
        if d.op == "call" and d.f in self.M.funcs:
            b = self.M.basename(d.f)
            if b in ("Rf_protect", "PROTECT_N"):
                return self.returned_from(f, d.a[0], seen)
            g = self.M.funcs[d.f]
            if g.ret == f.ret and g.nargs >= 2:
                return [g]
        return []

    def joint1(self, f):
        M, rep, C = self.M, self.rep, self.O.C
        stores = [i for i in f.calls() if M.basename(i.f) in ("SET_VECTOR_ELT", "r_list_poke")]
        if not stores:
            return

        def has(i):
            return all(any(n == "proxy" and d == "order" for n, d in o) for o, s in C.local(f, i.a[2]))
        elems = [i for i in stores if not (isinstance(i.a[1], tuple) and i.a[1][0] == "c")]
        filled = {}
        for i in elems:
            keys = {s for o, s in C.local(f, i.a[0])}
            for s in keys:
                filled.setdefault(s, []).append((i, has(i), {d for o, _ in C.local(f, i.a[2]) for n, d in o[:1] if n == "elem"}))
        for k in (0, 1):
            mine = [i for i in stores if i.a[1] == ("c", k)]
            if not mine:
                continue
            ok = False
            for i in mine:
                good = has(i)
                srcs = {s for o, s in C.local(f, i.a[2]) if s[0] == "p"}
                if good:
                    # straight from one operand: from the one of that place
                    direct = {s[1] for o, s in C.local(f, i.a[2]) if s[0] == "p" and all(n == "proxy" for n, _ in o)}
                    good = direct <= {k}
                elif srcs and all(s in filled and all(h and e == {k} for _, h, e in filled[s]) for s in srcs):
                    good = srcs == {("p", k)}
                # what is stored last counts
                later = [j for j in mine if j is not i and (f.dominates(i.bb, j.bb) if i.bb != j.bb else j.pos > i.pos)]
                if not later:
                    ok = good
                    last = i
            if ok:
                rep.ok("joint", sample="%s: place %d" % (last.loc(), k))
            else:
                rep.violation("joint", "%s:%d" % (f.base, k), last.loc(), "%s() hands out as proxy of operand %d something that is not its proxy for `order`" % (f.base, k + 1))


def run(rep):
    rep.rule("uses", "values looked at by native code are those of the proxy the class of the vector defines", 20)
    rep.rule("kernels", "hashing is done on the proxy for equality, sorting on the one for ordering", 3)
    rep.rule("together", "vectors compared with each other are compared by proxies of one kind", 3)
    rep.rule("purpose", "each entry point works on the proxy made for its purpose", 12)
    rep.rule("fallback", "without a method the proxy for ordering is that for comparison, then that for equality, then the data proxy", 3)
    rep.rule("columns", "the same holds for each column of a data frame", 3)
    rep.rule("methods", "methods handing over to another proxy stay with their kind", 6)
    rep.rule("joint", "the proxies of two vectors taken together are their proxies for ordering, in their order", 2)
    M = common.load_module()
    P = common.load_r()
    C = Check(M, P, rep)
    C.sinks()
    C.purpose()
    C.fallbacks()
    C.methods()
    C.joint()
    rep.coverage["functions"] = len(M.funcs)
    rep.coverage["live_functions"] = len(C.O.live)
    rep.assumptions = ["methods of classes outside the package are taken at their word"]


if __name__ == "__main__":
    main(PROP, run)
