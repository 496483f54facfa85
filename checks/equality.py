#!/usr/bin/env python3
"""P12: equality is one equivalence relation; comparison, hashing and missingness agree with it."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import loops
from absint import Interp, Case, Budget, NA_INT, mentions
from common import AnalysisBroken, main

PROP = "P12"
SUPPORTED = {"equal": ("logical", "integer", "double", "complex", "character", "raw", "list"),
             "compare": ("logical", "integer", "double", "character"),
             "order": ("logical", "integer", "double", "complex", "character"),
             "missing": ("logical", "integer", "double", "complex", "character", "raw", "list")}
SIZE = {"logical": 4, "integer": 4, "double": 8, "raw": 1, "character": 8, "list": 8, "complex": 16}
LT = {"logical": "i32", "integer": "i32", "double": "double", "raw": "i8", "character": "ptr", "list": "ptr", "complex": "double"}
ACC = {"logical": {"LOGICAL", "LOGICAL_RO"}, "integer": {"INTEGER", "INTEGER_RO"}, "double": {"REAL", "REAL_RO"}, "complex": {"COMPLEX", "COMPLEX_RO"},
       "character": {"STRING_PTR", "STRING_PTR_RO"}, "raw": {"RAW", "RAW_RO"}, "list": {"VECTOR_PTR", "VECTOR_PTR_RO", "DATAPTR_RO"}}
HOOKED = {"equal_object_normalized", "equal_object"}
PURE = set().union(*ACC.values()) | {"R_CHAR", "strcmp", "abs", "TYPEOF", "Rf_length", "Rf_xlength", "ATTRIB", "CAR", "CDR", "TAG", "BODY", "CLOENV", "FORMALS",
                                     "VECTOR_ELT", "STRING_ELT", "LENGTH", "XLENGTH", "R_IsNA", "R_IsNaN", "Rf_isNull", "R_BytecodeExpr", "R_ClosureExpr", "memcmp"}


# ---- partition of the inputs -------------------------------------------------
def dpairs(x, y):
    k = ("NA", "NaN", "zero", "num")
    for a, b in itertools.product(k, k):
        if a[0] == "N" or b[0] == "N":
            yield {x: a, y: b}, {}
        elif a == b == "zero":
            yield {x: a, y: b}, {(x, y): "="}
        elif "zero" in (a, b):
            for r in "<>":
                yield {x: a, y: b}, {(x, y): r}
        else:
            for r in "<=>":
                yield {x: a, y: b}, {(x, y): r}


def cases(ty):
    if ty == "raw":
        for r in "<=>":
            yield Case({"x": "num", "y": "num"}, {("x", "y"): r})
    elif ty == "double":
        for c, r in dpairs("x", "y"):
            yield Case(c, r)
    elif ty == "complex":
        for (c, r), (c2, r2) in itertools.product(dpairs("x.r", "y.r"), dpairs("x.i", "y.i")):
            yield Case({**c, **c2}, {**r, **r2})
    else:
        p = "num" if ty in ("logical", "integer") else "plain"
        for a, b in itertools.product(("NA", p), ("NA", p)):
            if a == b == p:
                for r in "<=>":
                    yield Case({"x": a, "y": b}, {("x", "y"): r})
            else:
                yield Case({"x": a, "y": b})


def singles(ty):
    if ty == "raw":
        yield Case({"x": "num"})
    elif ty == "double":
        for a in ("NA", "NaN", "zero", "num"):
            yield Case({"x": a})
    elif ty == "complex":
        for a, b in itertools.product(("NA", "NaN", "zero", "num"), repeat=2):
            yield Case({"x.r": a, "x.i": b})
    else:
        for a in ("NA", "num" if ty in ("logical", "integer") else "plain"):
            yield Case({"x": a})


def show(case):
    def one(n):
        c = case.cls.get(n)
        return {"num": "a number", "zero": "zero", "plain": "a value"}.get(c, c)
    ns = sorted(case.cls)
    s = ", ".join("%s %s" % (n, one(n)) for n in ns)
    rel = ["%s %s %s" % (a, r, b) for (a, b), r in case.rel.items() if a < b]
    return s + (" with " + ", ".join(rel) if rel else "")


def scalar(case, ty, n):
    c = case.cls.get(n)
    if ty in ("logical", "integer"):
        return ("c", NA_INT) if c == "NA" else ("n", n)
    if ty == "raw":
        return ("n", n)
    if ty == "double":
        return ("d", n)
    if ty == "character":
        return ("G", "NA_STRING") if c == "NA" else ("p", n)
    return ("G", "NIL") if c == "NA" else ("p", n)


# ---- what the kernels have to answer ----------------------------------------
def deq(case, a, b):
    ca, cb = case.cls[a], case.cls[b]
    if ca[0] == "N" or cb[0] == "N":
        return ca == cb
    return case.order(a, b) == "="


def miss(case, ty, n):
    if ty == "complex":
        return case.cls[n + ".r"][0] == "N" or case.cls[n + ".i"][0] == "N"
    if ty == "raw":
        return False
    return case.cls[n] in ("NA", "NaN")


def o_equal(case, ty):
    if ty == "complex":
        return int(deq(case, "x.r", "y.r") and deq(case, "x.i", "y.i"))
    if ty == "double":
        return int(deq(case, "x", "y"))
    a, b = case.cls["x"], case.cls["y"]
    if a == "NA" or b == "NA":
        return int(a == b)
    return int(case.order("x", "y") == "=")


def o_equal_prop(case, ty):
    return NA_INT if miss(case, ty, "x") or miss(case, ty, "y") else o_equal(case, ty)


SIGN = {"<": -1, "=": 0, ">": 1}


def dcmp(case, a, b, rank):
    ra, rb = rank[case.cls[a]], rank[case.cls[b]]
    if ra != rb:
        return -1 if ra < rb else 1
    return 0 if ra < 2 else SIGN[case.order(a, b)]


R_COMPARE = {"NaN": 0, "NA": 1, "zero": 2, "num": 2}
R_ORDER = {"NA": 0, "NaN": 1, "zero": 2, "num": 2}
R_ORDER_SAME = {"NA": 0, "NaN": 0, "zero": 2, "num": 2}


def o_compare(case, ty, rank=R_COMPARE):
    if ty == "double":
        return dcmp(case, "x", "y", rank)
    if ty == "complex":
        def norm(n):
            r, i = case.cls[n + ".r"], case.cls[n + ".i"]
            if r[0] == "N" and i[0] != "N":
                return r, r
            if i[0] == "N" and r[0] != "N":
                return i, i
            return r, i
        (xr, xi), (yr, yi) = norm("x"), norm("y")
        c2 = Case({"x.r": xr, "x.i": xi, "y.r": yr, "y.i": yi}, case.rel)
        return dcmp(c2, "x.r", "y.r", rank) or dcmp(c2, "x.i", "y.i", rank)
    a, b = case.cls["x"], case.cls["y"]
    if a == "NA" or b == "NA":
        return (b == "NA") * 1 - (a == "NA") * 1
    return SIGN[case.order("x", "y")]


def o_compare_prop(case, ty):
    return NA_INT if miss(case, ty, "x") or miss(case, ty, "y") else o_compare(case, ty)


# ---- check ------------------------------------------------------------------
class Check:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.codes = {n.replace("VCTRS_TYPE_", ""): v for n, v in M.enums["vctrs_type"]}
        self.pure = {}

    def is_pure(self, f, seen=None):
        """calls nothing but accessors: may be followed anywhere"""
        if f.name in self.pure:
            return self.pure[f.name]
        seen = seen or set()
        if f.name in seen:
            return True
        seen.add(f.name)
        ok = True
        for i in f.calls():
            if f.blocks[i.bb][-1].op == "unreachable":
                continue
            if i.f is None:
                ok = False
                break
            if i.f.startswith("llvm.") or self.M.basename(i.f) in HOOKED:
                continue
            g = self.M.funcs.get(i.f)
            if g is not None and g.blocks:
                if not self.is_pure(g, seen):
                    ok = False
                    break
            elif self.M.basename(i.f) not in PURE:
                ok = False
                break
        self.pure[f.name] = ok
        return ok

    def follow(self, files=(), opaque=()):
        def fl(g):
            if g.base in opaque or g.base in HOOKED or any(k in g.base for k in ("r_stop", "stop_", "r_abort")):
                return False
            return g.file in files or self.is_pure(g)
        return fl

    def hook(self, case, ty=None, df=False, extra=None):
        M = self.M

        def h(name, a, i):
            if name in ("equal_object_normalized", "equal_object") and len(a) == 2 and all(v[0] in ("p", "G") for v in a):
                x, y = a
                if x[0] == "p" and y[0] == "p":
                    return ("c", int(case.order(x[1], y[1]) == "=")) if case.order(x[1], y[1]) else None
                return ("c", int(x == y))
            if name in ("vec_proxy_equal", "vec_normalize_encoding", "vec_proxy_compare", "vec_proxy_order") and a:
                return a[0]
            if name in ("vec_proxy_typeof", "vec_typeof") and ty:
                if df and not mentions(a[0], "VECTOR_PTR_RO") and not mentions(a[0], "VECTOR_PTR") and not mentions(a[0], "VECTOR_ELT") and a[0][0] == "arg":
                    return ("c", self.codes["dataframe"])
                return ("c", self.codes[ty])
            if name in ("vec_size",):
                return ("size",)
            return extra(name, a, i) if extra else None
        return h

    def elem_args(self, case, ty, arrays):
        def f(b, idx, off, t):
            for nm, ab, ai in arrays:
                if b == ab:
                    return self.pick(case, ty, nm, t, off) if idx == ((ai, SIZE[ty]),) else None
            return None
        return f

    def pick(self, case, ty, nm, t, off):
        if t != LT[ty]:
            return None
        if ty == "complex":
            return ("d", nm + (".r" if off == 0 else ".i")) if off in (0, 8) else None
        return scalar(case, ty, nm) if off == 0 else None

    def elem_vec(self, case, ty, names=("x", "y"), df=False):
        """elements of the vectors `x` and `y` (or of their columns) read through accessors of the type; the read is logged with its position"""
        def f(b, idx, off, t):
            if b[0] != "call" or len(b) != 3 or b[1] not in ACC[ty] or len(idx) != 1 or idx[0][1] != SIZE[ty]:
                return None
            src = b[2]
            col = None
            if src[0] == "ld" and src[1][0] == "call" and src[1][1] in ACC["list"]:
                col = src[2]
                src = src[1][2]
            elif src[0] == "call" and src[1] == "VECTOR_ELT":
                col = src[3]
                src = src[2]
            if src[0] != "arg" or src[1] not in names or df != (col is not None):
                return None
            nm = names.index(src[1])
            nm = "xy"[nm]
            v = self.pick(case, ty, nm, t, off)
            return None if v is None else ("@", v, nm, idx[0][0], col)
        return f

    # -- A. kernels taking two positions
    def kernels(self):
        rep = self.rep
        fam = []
        for name, kind, oracle, fixed in (
                ("p_equal_na_equal", "equal", o_equal, ()), ("p_equal_na_propagate", None, None, ()),
                ("p_compare_na_equal", "compare", o_compare, ()), ("p_compare_na_propagate", "compare", o_compare_prop, ()),
                ("p_order_compare_na_equal", "order", lambda c, t: o_compare(c, t, R_ORDER), (("c", 1),)),
                ("p_order_compare_na_equal", "order", lambda c, t: o_compare(c, t, R_ORDER_SAME), (("c", 0),))):
            if kind:
                for f in self.all(name):
                    fam.append((f, None, kind, oracle, fixed))
        for name, kind, oracle in (("poly_p_equal_na_equal", "equal", o_equal), ("poly_p_compare_na_equal", "compare", o_compare)):
            for f in self.all(name):
                fam.append((f, "table", kind, oracle, ()))
        for f, table, kind, oracle, fixed in fam:
            for ty in SIZE:
                if table:
                    g = self.entry(f, ty)
                    if g is None:
                        if ty in SUPPORTED[kind]:
                            rep.violation("kernel", "%s|%s" % (f.base, ty), "%s:%d" % (f.file, f.line), "%s() has no function for %s vectors" % (f.base, ty))
                        continue
                    args = [("arg", "p_x"), ("arg", "i"), ("arg", "p_y"), ("arg", "j")]
                else:
                    g = f
                    args = [("arg", "p_x"), ("arg", "i"), ("arg", "p_y"), ("arg", "j")] + list(fixed) + [("c", self.codes[ty])]
                if len(args) != g.nargs:
                    raise AnalysisBroken("%s() does not have the expected arguments" % g.base)
                arr = (("x", ("arg", "p_x"), ("arg", "i")), ("y", ("arg", "p_y"), ("arg", "j")))
                for case in cases(ty):
                    want = oracle(case, ty)
                    self.compare_outcomes(f, ty, kind, case, want, list(self.run(g, args, case, self.elem_args(case, ty, arr))), "kernel", str(fixed), g.ret == "i1")
        # missingness
        for name in ("p_is_missing", "poly_p_is_missing", "poly_p_is_incomplete"):
            for f in self.all(name):
                for ty in SIZE:
                    if name.startswith("poly"):
                        g = self.entry(f, ty)
                        if g is None:
                            rep.violation("kernel", "%s|%s" % (f.base, ty), "%s:%d" % (f.file, f.line), "%s() has no function for %s vectors" % (f.base, ty))
                            continue
                        args = [("arg", "p_x"), ("arg", "i")]
                    else:
                        g = f
                        args = [("arg", "p_x"), ("arg", "i"), ("c", self.codes[ty])]
                    for case in singles(ty):
                        want = int(miss(case, ty, "x"))
                        outs = list(self.run(g, args, case, self.elem_args(case, ty, (("x", ("arg", "p_x"), ("arg", "i")),))))
                        self.compare_outcomes(f, ty, "missing", case, want, outs, "kernel", "", g.ret == "i1")

    def all(self, base):
        return [f for f in self.M.funcs.values() if f.base == base and f.blocks][:1]

    def entry(self, f, ty):
        I = Interp(self.M, Case({}), lambda *a: None, lambda g: False)
        for o in I.run(f, [("c", self.codes[ty])]):
            if o.kind == "ret" and o.val and o.val[0] == "addr":
                g = self.M.funcs.get(o.val[1])
                if g is not None and any(b[-1].op == "ret" for b in g.blocks):
                    return g
        return None

    def run(self, f, args, case, elem, files=(), ty=None, df=False, opaque=(), extra=None):
        I = Interp(self.M, case, elem, self.follow(files, opaque), self.hook(case, ty, df, extra))
        return I.run(f, args)

    def compare_outcomes(self, f, ty, kind, case, want, outs, rule, tag, boolean=False):
        rep = self.rep
        key = "%s|%s|%s" % (f.base, ty, tag)
        where = "%s:%d" % (f.file, f.line)
        if boolean:
            for o in outs:
                if o.val and o.val[0] == "c":
                    o.val = ("c", o.val[1] & 1)
        live = [o for o in outs if o.kind != "stop"]
        if not live:
            if ty in SUPPORTED[kind]:
                rep.violation(rule, key, where, "%s() fails for %s: %s" % (f.base, ty, show(case)))
            return
        bad = [o for o in outs if o.kind == "stop" or o.val != ("c", want)]
        if bad and ty in SUPPORTED[kind]:
            got = "fails" if bad[0].kind == "stop" else "may answer %s" % word(bad[0].val)
            rep.violation(rule, key, where, "%s() for %s elements, %s: has to answer %s but %s" % (f.base, ty, show(case), word(("c", want)), got))
        elif not bad:
            rep.ok(rule, 1)


    # -- B. loops over whole vectors
    def vectors(self):
        for name, kind, o1, o2 in (("vec_equal", "equal", o_equal, o_equal_prop), ("vec_compare", "compare", o_compare, o_compare_prop)):
            for f in self.all(name):
                if f.nargs != 3:
                    raise AnalysisBroken("%s() does not have the expected arguments" % name)
                for ty in SUPPORTED[kind]:
                    for na, oracle in ((1, o1), (0, o2)):
                        for df in (False, True):
                            for case in cases(ty):
                                if df and ty == "complex" and not self.reduced(case):
                                    continue
                                self.vector_case(f, kind, ty, na, df, case, oracle(case, ty))
        for name, mode in (("proxy_detect_missing", "detect"), ("vec_detect_missing", "detect"), ("col_detect_missing", "loc"), ("proxy_first_missing", "first"),
                           ("vec_first_missing", "first")):
            for f in self.all(name):
                for ty in SUPPORTED["missing"]:
                    for case in singles(ty):
                        self.missing_case(f, mode, ty, case)

    def reduced(self, case):
        return case.cls["x.i"] == "num" and case.cls["y.i"] == "num"

    def vector_case(self, f, kind, ty, na, df, case, want):
        rep = self.rep
        key = "%s|%s|%d|%d" % (f.base, ty, na, df)
        where = "%s:%d" % (f.file, f.line)
        neutral = 1 if kind == "equal" else 0
        what = "%s() of %s %s, missing values %s, %s" % (f.base, ty, "columns" if df else "vectors", "equal" if na else "propagated", show(case))
        outs = list(self.run(f, [("arg", "x"), ("arg", "y"), ("c", na)], case, self.elem_vec(case, ty, df=df), files=(f.file,), ty=ty, df=df))
        n = 0
        for o in outs:
            el = [e for e in o.eff if e[0] == "elem"]
            if not el or o.kind == "stop":
                continue
            n += 1
            pos = {e[2] for e in el}
            cols = {e[3] for e in el}
            if {e[1] for e in el} != {"x", "y"} and ty != "raw" or len(pos) != 1 or len(cols) != 1:
                rep.violation("vector", key, where, "%s: does not compare elements at the same position" % what)
                return
            p = next(iter(pos))
            st = [e for e in o.eff if e[0] == "store" and e[1][0] == "gep" and e[1][2] == ((p, 4),)]
            known = [e for e in o.eff if e[0] == "store" and e[1][0] == "gep" and e[1][2] == ((p, 1),)]
            if not df or want != neutral:
                if not st or st[-1][2] != ("c", want):
                    rep.violation("vector", key, where, "%s: has to give %s but gives %s" % (what, word(("c", want)), word(st[-1][2]) if st else "nothing"))
                    return
            if df:
                if want == neutral and (st and st[-1][2] != ("c", want) or known):
                    rep.violation("vector", key, where, "%s: a pair of equal elements settles the row" % what)
                    return
                if want != neutral and not known:
                    rep.violation("vector", key, where, "%s: the row is not settled" % what)
                    return
                flags = [c for c, t in o.conds if flag_at(c, p) and not t]
                if not flags or known and not any(mentions(c, known[-1][1][1]) for c in flags):
                    rep.violation("vector", key, where, "%s: rows settled by an earlier column are looked at again" % what)
                    return
        if not n:
            rep.violation("vector", key, where, "%s: no elements are compared" % what)
            return
        rep.ok("vector", 1)

    def missing_case(self, f, mode, ty, case):
        rep = self.rep
        key = "%s|%s" % (f.base, ty)
        where = "%s:%d" % (f.file, f.line)
        want = int(miss(case, ty, "x"))
        names = ("proxy",) if f.base.startswith("proxy") else ("x",)
        args = [("arg", names[0])] + [("arg", "v_loc"), ("arg", "loc_size")][:f.nargs - 1]
        what = "%s() of %s vectors, %s" % (f.base, ty, show(case))
        outs = list(self.run(f, args, case, self.elem_vec(case, ty, names), files=(f.file,), ty=ty))
        n = 0
        for o in outs:
            el = [e for e in o.eff if e[0] == "elem"]
            if ty == "raw" and o.kind == "back":
                el = el or [("elem", "x", None, None)]
            if not el or o.kind == "stop":
                continue
            n += 1
            p = el[0][2]
            if mode == "detect":
                st = [e for e in o.eff if e[0] == "store" and e[1][0] == "gep" and len(e[1][2]) == 1 and e[1][2][0][1] == 4 and (p is None or e[1][2][0][0] == p)]
                if not st or st[-1][2] != ("c", want):
                    rep.violation("vector", key, where, "%s: has to answer %d but answers %s" % (what, want, word(st[-1][2]) if st else "nothing"))
                    return
            elif mode == "first":
                if (o.kind == "ret") != bool(want) or want and o.val != p:
                    rep.violation("vector", key, where, "%s: the position of the first missing element is wrong" % what)
                    return
            else:
                lv = [(a, b) for a, b in o.val.values() if a[0] == "lv"] if o.kind == "back" else []
                ok = any(b == ("add", a, ("c", 1)) or b == ("add", ("c", 1), a) for a, b in lv) if want else any(
                    b == a or b == ("add", a, ("c", 0)) or b == ("add", ("c", 0), a) for a, b in lv)
                st = [e for e in o.eff if e[0] == "store" and e[1][0] == "gep" and len(e[1][2]) == 1 and e[1][2][0][0][0] == "lv"]
                if not ok or want and (not st or p is not None and st[-1][2] != p):
                    rep.violation("vector", key, where, "%s: a row is kept for the next column exactly if the element is missing" % what)
                    return
        if not n:
            rep.violation("vector", key, where, "%s: no elements are looked at" % what)
            return
        rep.ok("vector", 1)

    # -- rows of data frames, column by column
    def rows(self):
        rep = self.rep
        for name, kern, results, stop, end in (
                ("poly_p_equal_na_equal", "p_equal_na_equal", (0, 1), lambda r: r == 0, 1),
                ("poly_p_compare_na_equal", "p_compare_na_equal", (-1, 0, 1), lambda r: r != 0, 0),
                ("poly_p_is_missing", "p_is_missing", (0, 1), lambda r: r == 0, 1),
                ("poly_p_is_incomplete", "p_is_missing", (0, 1), lambda r: r == 1, 0),
                ("p_df_order_compare_na_equal", "p_order_compare_na_equal", (-1, 0, 1), lambda r: r != 0, 0)):
            for f in self.all(name):
                g = f if name.startswith("p_df") else self.entry(f, "dataframe")
                if g is None:
                    rep.violation("rows", name, "%s:%d" % (f.file, f.line), "%s() has no function for data frames" % name)
                    continue
                two = "is_" not in name
                args = [("arg", "p_x"), ("arg", "i")] + ([("arg", "p_y"), ("arg", "j")] if two else [])
                if g.nargs > len(args):
                    args.append(("arg", "nan_distinct"))
                where = "%s:%d" % (g.file, g.line)
                for r in results:
                    calls = []

                    def extra(nm, a, i):
                        if nm == kern:
                            calls.append(tuple(a))
                            return ("@", ("c", r), "k", tuple(a), None)
                    outs = list(self.run(g, args, Case({}), lambda *a: None, extra=extra))
                    n = 0
                    for o in outs:
                        k = [e for e in o.eff if e[0] == "elem"]
                        if o.kind == "stop":
                            continue
                        if not k and o.kind == "back" and not (name.endswith("is_incomplete") and any(mentions(c, ("c", 7)) for c, t in o.conds)):
                            # (raw values are never missing)
                            rep.violation("rows", "%s|skipped" % name, where, "%s(): columns are passed over without having been looked at" % g.base)
                            continue
                        if not k:
                            if o.kind == "ret" and o.val[0] == "c" and (o.val[1] & 1 if g.ret == "i1" else o.val[1]) != end:
                                rep.violation("rows", "%s|end" % name, where, "%s(): rows without a telling column have to give %d" % (g.base, end))
                            continue
                        n += 1
                        got = None if o.kind == "back" else o.val
                        if got is not None and got[0] == "c" and g.ret == "i1":
                            got = ("c", got[1] & 1)
                        want = ("c", r) if stop(r) else None
                        if got != want:
                            rep.violation("rows", "%s|%d" % (name, r), where, "%s(): when a column answers %d the row has to %s" % (
                                g.base, r, "answer the same" if want else "be decided by the following columns"))
                        else:
                            rep.ok("rows", 1)
                    if not n:
                        rep.violation("rows", "%s|none" % name, where, "%s(): no column is looked at" % g.base)
                    for a in calls:
                        if not self.row_args(a, two):
                            rep.violation("rows", "%s|args" % name, where, "%s(): the two rows have to be compared at their own position, in their order, and in the same column" % g.base)
                            break

    def row_args(self, a, two):
        def side(v, own, other):
            return v[0] == "ld" and mentions(v, own) and not mentions(v, other) and len(v[2]) == 1 and v[2][0][1] == 8
        X, Y = ("arg", "p_x"), ("arg", "p_y")
        if not side(a[0], X, Y) or a[1] != ("arg", "i"):
            return False
        pos = {a[0][2][0][0]}
        ty = a[2]
        if two:
            if not side(a[2], Y, X) or a[3] != ("arg", "j"):
                return False
            pos.add(a[2][2][0][0])
            ty = a[-1]
        if ty[0] != "ld" or len(ty[2]) != 1 or ty[2][0][1] != 4:
            return False
        pos.add(ty[2][0][0])
        return len(pos) == 1


    # -- C. hashing
    def hashes(self):
        rep = self.rep
        for f in self.all("hash_fill"):
            if f.nargs != 4:
                raise AnalysisBroken("hash_fill() does not have the expected arguments")
            sentinel = None
            for ty in SIZE:
                for na in (1, 0):
                    for case in singles(ty):
                        sentinel = self.hash_case(f, ty, na, case, sentinel)
        if sentinel is not None:
            self.marks(sentinel)

    def marks(self, sentinel):
        """a value may happen to have the hash that marks missing values: where
        the mark is looked for in stored hashes, the value itself decides"""
        M, rep = self.M, self.rep
        fields = set()
        for f in M.funcs.values():
            for i in f.insts():
                if i.op == "store" and isinstance(i.a[0], int) and i.a[0] >= f.nargs:
                    d, g = f.defs.get(i.a[0]), f.defs.get(i.a[1]) if isinstance(i.a[1], int) else None
                    if d is not None and d.op == "call" and M.basename(d.f or "") == "poly_p_is_incomplete" and g is not None and g.op == "getelementptr":
                        fields.add((g.st, g.off))
        n = 0
        for f in M.funcs.values():
            if f.file == self.all("hash_fill")[0].file:
                continue
            for i in f.insts():
                if i.op != "icmp" or i.p not in ("eq", "ne") or sentinel not in i.a:
                    continue
                v = next(a for a in i.a if a != sentinel)
                d = f.defs.get(v) if isinstance(v, int) else None
                if d is None or d.op != "load" or d.t != "i32":
                    continue
                g = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
                b = f.defs.get(g.a[0]) if g is not None and g.op == "getelementptr" and isinstance(g.a[0], int) else None
                q = f.defs.get(b.a[0]) if b is not None and b.op == "load" and isinstance(b.a[0], int) else None
                if q is None or q.op != "getelementptr" or "dictionary" not in (q.st or ""):
                    continue
                # the slots of the table hold positions, not hashes
                if not self.hash_field(q):
                    continue
                n += 1
                ok = False
                for c in f.insts():
                    if c.op != "call" or c.f or not isinstance(c.fp, int):
                        continue
                    l = f.defs.get(c.fp)
                    lg = f.defs.get(l.a[0]) if l is not None and l.op == "load" and isinstance(l.a[0], int) else None
                    if lg is not None and lg.op == "getelementptr" and (lg.st, lg.off) in fields and f.dominates(i.bb, c.bb):
                        ok = True
                if ok:
                    rep.ok("hash", sample="%s: the mark alone does not decide" % f.base)
                else:
                    rep.violation("hash", "mark|%s" % f.base, i.loc(), "%s() takes an element for missing because of its hash alone: another value may have the same" % f.base)
        self.n_marks = n

    def hash_field(self, q):
        """the field of the dictionary filled by hash_fill()"""
        if not hasattr(self, "_hf"):
            self._hf = set()
            for f in self.M.funcs.values():
                for i in f.calls():
                    if self.M.basename(i.f) == "hash_fill":
                        d = f.defs.get(i.a[0]) if isinstance(i.a[0], int) else None
                        vals = {i.a[0]}
                        if d is not None and d.op == "load":
                            g = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
                            if g is not None and g.op == "getelementptr":
                                self._hf.add((g.st, g.off))
                        for s_ in f.insts():
                            if s_.op == "store" and s_.a[0] in vals and isinstance(s_.a[1], int):
                                g = f.defs.get(s_.a[1])
                                if g is not None and g.op == "getelementptr":
                                    self._hf.add((g.st, g.off))
        return (q.st, q.off) in self._hf

    def every(self):
        """loops over elements, rows and columns leave none out"""
        M, rep = self.M, self.rep
        files = {f.file for b in ("vec_equal", "vec_compare", "hash_fill", "equal_object_normalized", "vec_detect_missing", "vec_detect_complete", "poly_p_equal_na_equal")
                 for f in M.funcs.values() if f.base == b}
        for f in sorted(M.funcs.values(), key=lambda f: (f.file, f.line)):
            if f.file not in files:
                continue
            L, S, _ = loops.loops(f)
            for h, body, exits in L:
                works = {i.bb for i in loops.insts(f, body) if i.op in ("load", "store", "call") and i.bb != h[0]}
                r = loops.incomplete(f, h, body, exits, S, works)
                if r:
                    rep.violation("every", "%s|%s" % (f.base, r[0]), "%s:%s" % (f.file, r[1].l or f.line), "the loop of %s() over elements or columns %s" % (f.base, r[0]))
                else:
                    rep.ok("every")

    def hash_case(self, f, ty, na, case, sentinel):
        rep = self.rep
        key = "%s|%s|%d" % (f.base, ty, na)
        where = "%s:%d" % (f.file, f.line)
        what = "hash of %s elements, missing values %s, %s" % (ty, "equal" if na else "propagated", show(case))

        def extra(nm, a, i):
            if nm == "has_dim":
                return ("c", 0)
            if nm == "VECTOR_ELT" and a[0] == ("arg", "x") and ty == "list":
                return ("@", scalar(case, ty, "x"), "x", a[1], None)
        outs = list(self.run(f, [("arg", "p"), ("arg", "size"), ("arg", "x"), ("c", na)], case, self.elem_vec(case, ty, ("x",)), files=(f.file,), ty=ty,
                             opaque=("hash_object",), extra=extra))
        m = miss(case, ty, "x")
        n = 0
        for o in outs:
            if o.kind == "stop":
                continue
            el = [e for e in o.eff if e[0] == "elem"]
            if not el:
                continue
            n += 1
            p = el[0][2]
            st = [e for e in o.eff if e[0] == "store" and e[1][0] == "gep" and e[1][1] == ("arg", "p") and e[1][2] == ((p, 4),)]
            if not st:
                rep.violation("hash", key, where, "%s: nothing is stored" % what)
                return sentinel
            v = st[-1][2]
            if not na and m:
                if v[0] != "c" or sentinel not in (None, v):
                    rep.violation("hash", key, where, "%s: missing elements have to get one and the same mark" % what)
                    return sentinel
                sentinel = v
                continue
            if ty == "list" and address(v):
                rep.violation("hash", key, where, "%s: depends on the addresses of elements that equality compares by content" % what)
                return sentinel
            for nm, c in case.cls.items():
                leaf = ("d", nm) if ty in ("double", "complex") else None
                if leaf and c in ("NA", "NaN", "zero") and mentions(v, leaf):
                    rep.violation("hash", key, where, "%s: equal numbers with different bits (NA, NaN or zero) get different hashes" % what)
                    return sentinel
        if not n:
            rep.violation("hash", key, where, "%s: no element is hashed" % what)
            return sentinel
        rep.ok("hash", 1)
        return sentinel

    # -- D. objects
    def objects(self):
        rep = self.rep
        E = self.M.need("equal_object_normalized")
        H = self.M.need("hash_object")
        supported = 0
        for name, code in SEXPTYPES.items():
            need, elty = EQUAL_OF.get(name, (None, None))
            where = "%s:%d" % (E.file, E.line)
            if need is None:
                continue
            outs = self.object_outcomes(E, code, elty)
            if any(o.kind == "stop" for o in outs):
                rep.violation("object", "equal|%s" % name, where, "elements of type %s cannot be compared" % name)
                continue
            supported += 1
            self.object_equal(E, name, need, outs)
            self.object_hash(H, name, code, need, elty)
        # different types are never equal
        def extra(nm, a, i):
            if nm == "TYPEOF":
                return ("c", 13 if a[0] == ("arg", "x") else 14)
        outs = list(self.run(E, [("arg", "x"), ("arg", "y")], Case({}), lambda *a: None, files=(E.file,), extra=extra))
        if any(o.kind != "ret" or o.val != ("c", 0) for o in outs):
            rep.violation("object", "types", "%s:%d" % (E.file, E.line), "objects of different types may be equal")
        else:
            rep.ok("object", 1)

    def object_outcomes(self, E, code, elty):
        def extra(nm, a, i):
            if nm == "TYPEOF":
                return ("c", code)
            if nm in ("equal_object_normalized", "equal_object"):
                return None
        I = Interp(self.M, Case({}), lambda *a: None, self.follow((E.file,)), extra, budget=20000)
        return list(I.run(E, [("arg", "x"), ("arg", "y")]))

    def object_equal(self, E, name, need, outs):
        """need: the parts that two equal objects of the type have to agree on"""
        rep = self.rep
        where = "%s:%d" % (E.file, E.line)
        x, y = ("arg", "x"), ("arg", "y")
        for o in outs:
            if o.kind == "stop":
                continue
            if o.val == ("c", -1):
                o.val = ("c", 1)
            eqs = [c for c, t in o.conds if t] + ([o.val] if o.kind == "ret" and o.val and o.val[0] != "c" else [])
            neg = [c[1] for c, t in o.conds if not t and c[0] == "not"]
            eqs = eqs + neg
            eqs += [c[1] for c in eqs if c[0] == "not" and False]
            same = [(c[2], c[3]) for c in eqs if c[0] == "icmp" and c[1] == "eq"] + [(c[2], c[3]) for c in eqs if c[0] == "call" and "equal_object" in c[1]]
            same += [(c[2][2], c[2][3]) for c, t in o.conds if c[0] == "icmp" and c[1] == "eq" and not t and c[3] == ("c", 0) and c[2][0] == "call" and "equal_object" in c[2][1]]
            both = {(a, b) for a, b in same} | {(b, a) for a, b in same}
            if o.kind == "ret":
                if o.val == ("c", 0):
                    continue
                if (x, y) in both:
                    continue
                for part in need:
                    if part == "self":
                        rep.violation("object", "equal|%s" % name, where, "objects of type %s may be equal without being the same" % name)
                        return
                    if part == "attributes":
                        if not self.attributes(both, o):
                            rep.violation("object", "equal|%s|attributes" % name, where, "objects of type %s may be equal although one has attributes the other has not" % name)
                            return
                        continue
                    if part == "elements":
                        continue
                    if not any(a == part_of(part, x) and b == part_of(part, y) for a, b in both):
                        rep.violation("object", "equal|%s|%s" % (name, part), where, "objects of type %s may be equal although they differ in their %s" % (name, PARTS.get(part, part)))
                        return
                if o.val != ("c", 1) and not (o.val and (o.val[0] == "not" or o.val[0] in ("icmp", "call"))):
                    rep.violation("object", "equal|%s|value" % name, where, "comparison of objects of type %s answers something else than true or false" % name)
                    return
            elif o.kind == "back":
                # an iteration that goes on: the elements, or tag and value of the attribute, agree
                lv = [a for a, b in o.val.values() if a[0] == "lv"]
                lx = [a for a in lv if mentions(a, x) and not mentions(a, y)]
                ly = [a for a in lv if mentions(a, y) and not mentions(a, x)]
                if lx and ly:
                    for part in ("TAG", "CAR"):
                        if not any(a == ("call", part, lx[0]) and b == ("call", part, ly[0]) for a, b in both):
                            rep.violation("object", "equal|%s|attribute-%s" % (name, part), where, "objects of type %s may be equal although attributes differ in their %s" % (
                                name, PARTS[part]))
                            return
                    nx = [b for a, b in o.val.values() if a == lx[0]]
                    ny = [b for a, b in o.val.values() if a == ly[0]]
                    if nx != [("call", "CDR", lx[0])] or ny != [("call", "CDR", ly[0])]:
                        rep.violation("object", "equal|%s|attribute-next" % name, where, "attributes of objects of type %s are not compared one by one" % name)
                        return
        rep.ok("object", 1, "%s: %s" % (name, ", ".join(need)))

    def attributes(self, both, o):
        x, y = ("arg", "x"), ("arg", "y")
        ax, ay = ("call", "ATTRIB", x), ("call", "ATTRIB", y)
        if (ax, ay) in both:
            return True
        nil = ("G", "NIL")
        ends = {a for a, b in both if b == nil}
        return any(mentions(a, ax) for a in ends) and any(mentions(a, ay) for a in ends)

    def object_hash(self, H, name, code, need, elty):
        rep = self.rep
        where = "%s:%d" % (H.file, H.line)
        x = ("arg", "x")

        def extra(nm, a, i):
            if nm == "TYPEOF":
                return ("c", code)
            if nm == "hash_object" and a[0] != x:
                return ("call", "hash_object", a[0])
        base = self.follow((H.file,))
        fl = lambda g: base(g)
        cs = list(singles(elty)) if elty else [Case({})]
        for case in cs:
            el = self.elem_vec(case, elty, ("x",)) if elty else (lambda *a: None)

            def ex(nm, a, i):
                if nm == "VECTOR_ELT" and elty == "list" and a[0] == x:
                    return ("@", scalar(case, "list", "x"), "x", a[1], None)
                return extra(nm, a, i)
            I = Interp(self.M, case, el, fl, ex, budget=20000)
            outs = list(I.run(H, [x]))
            if any(o.kind == "stop" for o in outs):
                rep.violation("object", "hash|%s" % name, where, "objects of type %s can be compared but not hashed: matching, duplicates and groups of lists holding them fail" % name)
                return
            n = 0
            for o in outs:
                if o.kind == "stop":
                    continue
                terms = [b for a, b in o.val.values() if a[0] == "lv"] if o.kind == "back" else [o.val]
                for c, k in case.cls.items():
                    if elty in ("double", "complex") and k in ("NA", "NaN", "zero") and any(mentions(t, ("d", c)) for t in terms):
                        rep.violation("object", "hash|%s" % name, where, "hash of objects of type %s: equal numbers with different bits (NA, NaN or zero) get different hashes" % name)
                        return
                if elty and o.kind == "back" and any(e[0] == "elem" for e in o.eff):
                    n += 1
                if elty == "list" and any(address(t) for t in terms):
                    rep.violation("object", "hash|%s" % name, where, "hash of objects of type %s depends on the addresses of elements that equality compares by content" % name)
                    return
                for t in terms:
                    for leaf in looked_at(t):
                        if not covered(leaf, need, x):
                            rep.violation("object", "hash|%s" % name, where, "hash of objects of type %s depends on something equality does not compare (%s)" % (name, str(leaf)[:80]))
                            return
            if elty and not n:
                rep.violation("object", "hash|%s|elements" % name, where, "hash of objects of type %s does not look at their elements as %s values" % (name, elty))
                return
        rep.ok("object", 1)


SEXPTYPES = {"NULL": 0, "symbol": 1, "pairlist": 2, "closure": 3, "environment": 4, "language": 6, "special": 7, "builtin": 8, "logical": 10, "integer": 13, "double": 14,
             "complex": 15, "character": 16, "list": 19, "expression": 20, "bytecode": 21, "externalptr": 22, "raw": 24}
PTR = (("self",), None)
NODE = (("attributes", "TAG", "CAR", "CDR"), None)
VEC = lambda t: (("length", "attributes", "elements"), t)
EQUAL_OF = {"NULL": PTR, "symbol": PTR, "environment": PTR, "special": PTR, "builtin": PTR, "externalptr": PTR, "pairlist": NODE, "language": NODE, "bytecode": (("attributes", "CAR", "CDR"), None),
            "closure": (("attributes", "FORMALS", "BODY", "CLOENV"), None), "logical": VEC("logical"), "integer": VEC("integer"), "double": VEC("double"),
            "complex": VEC("complex"), "character": VEC("character"), "list": VEC("list"), "expression": VEC("list"), "raw": VEC("raw")}
PARTS = {"TAG": "names", "CAR": "values", "CDR": "remaining elements", "FORMALS": "arguments", "BODY": "body", "CLOENV": "environment", "length": "length"}


def part_of(part, x):
    if part == "length":
        return ("call", "Rf_length", x)
    return ("call", part, x)


def looked_at(t, out=None):
    """uninterpreted reads of the object in a term"""
    out = [] if out is None else out
    if not isinstance(t, tuple) or not t:
        return out
    if t[0] == "call":
        out.append(t)
        return out
    if t[0] == "arg":
        out.append(t)
        return out
    for c in t[1:]:
        looked_at(c, out)
    return out


def address(t):
    """the address of an element, other than to hash what is there"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "p":
        return True
    if t[0] == "call":
        return False
    return any(address(c) for c in t[1:])


def covered(leaf, need, x):
    if "self" in need:
        return True
    if leaf == x:
        return False
    if leaf[0] != "call":
        return True
    fn, args = leaf[1], leaf[2:]
    if fn == "hash_object":
        a = args[0]
        if a[0] == "call" and len(a) == 3 and a[2] == x:
            return a[1] in need or a[1] == "ATTRIB" and "attributes" in need
        return a[0] in ("p", "G") and "elements" in need
    if fn in ("Rf_length", "Rf_xlength"):
        return "length" in need
    # environments are compared by address, everything else by content
    return fn == "CLOENV" and fn in need


def flag_at(c, p):
    """a byte read at position p"""
    if not isinstance(c, tuple):
        return False
    if c and c[0] == "ld" and c[2] == ((p, 1),):
        return True
    return any(flag_at(x, p) for x in c)


def word(v):
    if v == ("c", NA_INT):
        return "missing"
    if v and v[0] == "c":
        return str(v[1])
    return "something else (%s)" % (str(v)[:80],)


def check(rep):
    M = common.load_module()
    rep.rule("kernel", "a kernel comparing two elements, or looking at one, answers as equality, comparison and missingness are defined, for each combination of kinds of elements", 300)
    c = Check(M, rep)
    c.kernels()
    rep.rule("vector", "the loops over vectors and columns store that answer for the elements at the same position of both", 300)
    c.vectors()
    rep.rule("rows", "rows are equal if all columns are, compare by the first column that differs, are missing if all columns are and incomplete if one is", 8)
    c.rows()
    rep.rule("hash", "equal elements have equal hashes and missing elements one mark", 40)
    c.hashes()
    rep.rule("every", "loops over elements, rows and columns leave none out", 30)
    rep.rule("object", "elements of lists are equal if and only if type, length, contents and attributes are, and what equality can compare can be hashed accordingly", 20)
    c.objects()
    c.every()


if __name__ == "__main__":
    main(PROP, check)
