"""What reaches a use, seen from the entry points: every way a value used at
some place can have come into the package, with the operations it went
through."""
import cside
import rast
from common import AnalysisBroken
from chains import Chains, Spec
from sides import Sides

OPS = {
    "vec_normalize_encoding": Spec("encode"),
    "vec_proxy_equal": Spec("proxy", detail="equal"),
    "vec_proxy_compare": Spec("proxy", detail="compare"),
    "vec_proxy_order": Spec("proxy", detail="order"),
    "vec_proxy": Spec("proxy", detail="data"),
    "vec_proxy_recurse": Spec("proxy", detail="data"),
    "vec_cast": Spec("cast", 0, 1),
    "vec_cast_params": Spec("cast", 0, 1),
    # integer ranks of the columns
    "df_joint_xtfrm_by_col": Spec("rank"),
    "vec_joint_xtfrm": Spec("rank"),
    "proxy_apply_chr_proxy_collate": Spec("collate"),
    "vec_slice_unsafe": Spec("slice"),
    "r_as_data_frame": Spec("asdf"),
    "Rf_ScalarString": Spec("str"),
    "CAR": Spec("car"),
    "CDR": Spec("cdr"),
    "Rf_getAttrib": Spec("attr", sym=1),
    "r_attrib_get": Spec("attr", sym=1),
}
# operations on the way of an operand for checks of pairs
PAIR_OPS = dict(OPS)
PAIR_OPS.update({
    "vec_cast_opts": Spec("cast", 0, field="cast_opts.x", tofield="cast_opts.to"),
    "vec_cast_common_params": Spec("castall", 0, 1),
    "vec_cast_common_opts": Spec("castall", 0, 1),
    "vec_cast_common": Spec("castall", 0, 1),
    "new_dictionary": Spec("dict"),
    "new_dictionary_params": Spec("dict"),
    "new_dictionary_partial": Spec("dict"),
    "new_poly_vec": Spec("poly"),
})
# user code may run here and hand back anything
USER = {None, "Rf_eval", "R_tryEval", "R_forceAndCall"}
# not exported, called by tests only: the raw hash of an object, a helper for ranks
TEST_ONLY = {"vec_hash", "obj_hash", "compute_nesting_container_info"}


class Operands:
    def __init__(self, M, P, ops=OPS):
        self.M, self.P = M, P
        self.S = Sides(M)
        self.C = Chains(M, {n: self.resolve(s) for n, s in ops.items()}, self.S)
        T = cside.tables(M)
        self.routines = {}
        for k in ("call", "ext"):
            for nm, v in T[k].items():
                if nm != "#dup":
                    self.routines.setdefault(v[0], []).append(nm)
        # routines R code mentions, other than those only tests look through
        self.used = {}
        for n, fn in P.funs.items():
            if n in TEST_ONLY and n not in P.exports:
                continue
            for x in fn.node.walk():
                if x.t == "sym":
                    self.used.setdefault(x.n, []).append((fn, x))
        for n, (file, l, node) in P.vars.items():
            for x in node.walk():
                if x.t == "sym":
                    self.used.setdefault(x.n, []).append((None, x))
        self.shared = self.callables()
        self.live = self.closure({f for f, rs in self.routines.items() if any(r in self.used for r in rs)} | self.shared)

    def resolve(self, s):
        """offsets of the fields a specification names"""
        def off(x):
            st, fl = x.split(".")
            for o, n, *_ in self.M.structs.get(st, ()):
                if n == fl:
                    return o
            raise AnalysisBroken("no field %s" % x)
        if isinstance(s.field, str):
            return Spec(s.name, s.x, s.to, off(s.field), off(s.tofield) if s.tofield else None, s.detail, s.sym)
        return s

    def callables(self):
        """functions handed to other packages"""
        out = set()
        for f in self.M.funcs.values():
            for i in f.calls():
                if i.f == "R_RegisterCCallable":
                    out |= {a[1] for a in i.a if isinstance(a, tuple) and a[0] in ("f", "g") and a[1] in self.M.funcs}
        return out

    def closure(self, roots):
        from reach import tablefns
        M = self.M
        seen, work = set(), list(roots)
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            for i in M.funcs[n].insts():
                if i.op == "call" and i.f in M.funcs:
                    work.append(i.f)
                for a in list(i.a) + [v for v, _ in (i.inn or ())]:
                    if isinstance(a, tuple) and a[0] in ("f", "g"):
                        if a[1] in M.funcs:
                            work.append(a[1])
                        else:
                            g = M.globals.get(a[1])
                            if g and g.get("const") and g.get("init"):
                                e = set()
                                tablefns(g["init"], M, e)
                                work += e
        return seen

    def uses_of(self, r):
        import rops
        return list(rops.routine_calls(self.used, r))

    def live_routines(self, f):
        return [n for n in self.routines.get(f.name, ()) if n in self.used]

    def walk(self, f, v, judge, limit=40000):
        """Every origin of value v of function f. judge(ops, path) sees the
        operations met since the use, outermost first, and answers True when
        nothing further back matters. Yields (kind, detail, ops, path) for each
        origin reached without that: ("root", (routine, argument)),
        ("dead", ...) for functions nobody calls, or the source itself."""
        seen = set()
        work = []

        def push(g, ops, src, pre, path):
            allops = pre + ops
            if judge(allops, path):
                return
            if src[0] in ("p", "pf"):
                k = (g.name, src, self.state(allops))
                if k not in seen:
                    seen.add(k)
                    work.append((g, src, allops, path))
                return
            ends.append((src[0], src, allops, path))

        ends = []
        for ops, src in self.C.local(f, v):
            push(f, ops, src, (), [f])
        while work and len(seen) < limit:
            g, src, ops, path = work.pop()
            cs = self.C.callers.get(g.name, ())
            for h, i, args in cs:
                for o, s in self.C.substitute(h, args, (), src):
                    push(h, o, s, ops, path + [h] if path[-1] is not h else path)
            if (g.name in self.routines or g.name in self.shared) and src[0] == "p":
                for r in self.live_routines(g):
                    ends.append(("root", (r, src[1], g), ops, path))
                if g.name in self.shared:
                    ends.append(("root", (g.base, src[1], g), ops, path))
            elif not cs:
                ends.append(("dead", src, ops, path))
        return ends

    def state(self, ops):
        return tuple(sorted({n for n, _ in ops}))
