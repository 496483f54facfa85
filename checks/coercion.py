"""P04: the built-in coercion relation is a consistent lattice: every pair of
types is classified once, symmetrically, and every pair that has a common type
can be converted to it from both sides, in C and in the registered R methods."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import bothsides
import cprop
import rast
import rops
from cprop import CProp, UNK
from common import AnalysisBroken, main

PROP = "P04"
X, Y, OPT = ("arg", "x"), ("arg", "y"), ("arg", "opts")

ALLOC = {"r_alloc_logical": 10, "r_alloc_integer": 13, "r_alloc_double": 14, "r_alloc_complex": 15,
         "r_alloc_character": 16, "r_alloc_list": 19, "r_alloc_raw": 24}
BASE = {"logical": 10, "integer": 13, "double": 14, "complex": 15, "character": 16, "list": 19, "raw": 24}
ACCESS = {"LOGICAL": 10, "LOGICAL_RO": 10, "INTEGER": 13, "INTEGER_RO": 13, "REAL": 14, "REAL_RO": 14, "COMPLEX": 15,
          "COMPLEX_RO": 15, "RAW": 24, "RAW_RO": 24, "STRING_PTR": 16, "STRING_PTR_RO": 16, "STRING_ELT": 16,
          "VECTOR_ELT": 19, "SET_STRING_ELT": 16, "SET_VECTOR_ELT": 19}

# Classes the generic default method of vec_cast() unwraps itself, so that they
# need no registered conversion; the helper named must still be called there.
DEFAULT_CASTS = {"AsIs": ("vec_cast_from_asis", "vec_cast_to_asis")}
# Constructors whose result is a third, plainer type.
JOIN_HEAD = {"new_data_frame": "data.frame"}


def types_of(M, name, seen=None, depth=0):
    """(types whose storage is read, types allocated or coerced to) by a
    function and the static helpers it calls"""
    seen = seen if seen is not None else set()
    rd, wr = set(), set()
    f = M.get(name)
    if f is None or name in seen or depth > 2:
        return rd, wr
    seen.add(name)
    for i in f.calls():
        if not i.f:
            continue
        b = M.basename(i.f)
        if b in ACCESS:
            rd.add(ACCESS[b])
        elif b in ALLOC:
            wr.add(ALLOC[b])
        elif b in ("Rf_allocVector", "Rf_allocVector3") and i.a[0][0] == "c" if i.a and isinstance(i.a[0], tuple) else False:
            wr.add(i.a[0][1])
        elif b in ("Rf_coerceVector",) and isinstance(i.a[1], tuple) and i.a[1][0] == "c":
            wr.add(i.a[1][1])
        else:
            r, w = types_of(M, i.f, seen, depth + 1)
            rd |= r
            wr |= w
    return rd, wr


def global_type(M, g, off):
    """SEXPTYPE of the object a package global is initialised with"""
    res = set()
    for f in M.funcs.values():
        for i in f.insts():
            if i.op == "store" and i.a[1] == ("g", g, off) and isinstance(i.a[0], int):
                d = f.defs.get(i.a[0])
                if d is None or d.op != "call" or not d.f:
                    continue
                b = M.basename(d.f)
                if b in ALLOC:
                    res.add(ALLOC[b])
                elif b == "Rf_allocVector" and isinstance(d.a[0], tuple) and d.a[0][0] == "c":
                    res.add(d.a[0][1])
    return res.pop() if len(res) == 1 else None


def swapxy(v):
    """exchange what came from x with what came from y"""
    if isinstance(v, tuple):
        if v == X:
            return Y
        if v == Y:
            return X
        return tuple(swapxy(a) for a in v)
    return v


def native(rep, M):
    rep.rule("classify", "a pair of types has exactly one classification whatever runtime branch is taken", 300)
    rep.rule("symmetric", "(a, b) and (b, a) share one classification and their 'left' flags are complementary", 180)
    rep.rule("distinct", "two different pairs of known types never share a classification", 120)
    rep.rule("join-symmetric", "the common type computed for (a, b) is the one computed for (b, a)", 20)
    rep.rule("join-idempotent", "the common type of a with itself is a", 7)
    rep.rule("join-assoc", "three types whose pairwise common types exist have one common type in any order", 20)
    rep.rule("join-castable", "both members of a pair with a common type convert to it", 30)
    rep.rule("both", "native code takes no common type from one operand alone unless the operands agree or the other has nothing to contribute", 20)
    rep.rule("cast-direction", "a native conversion reads the source type's storage and produces the target's", 6)

    for e in ("vctrs_type", "vctrs_class_type", "vctrs_type2", "vctrs_type2_s3"):
        if e not in M.enums:
            raise AnalysisBroken("enum %s not found" % e)
    TY = {n.replace("VCTRS_TYPE_", ""): v for n, v in M.enums["vctrs_type"]}
    CL = {n.replace("VCTRS_CLASS_", ""): v for n, v in M.enums["vctrs_class_type"]}
    T2 = {v: n for n, v in M.enums["vctrs_type2"]}
    S2 = {v: n for n, v in M.enums["vctrs_type2_s3"]}
    nat = [t for t in TY if t != "s3"]
    cls = [c for c in CL if c.startswith("bare_") or c == "unknown"]
    NORET = {"r_stop_unreachable"}
    f2 = M.need("vec_typeof2_impl")
    fs = M.need("vec_typeof2_s3_impl")

    def t2(a, b):
        return CProp(M, noret=NORET).run(f2, [("c", TY[a]), ("c", TY[b]), ("p", "left")]), T2

    def s3assume(a, b):
        ca, cb = CL.get(a, CL["none"]), CL.get(b, CL["none"])
        return {"class_type": lambda A: ("c", ca) if A[0] == X else ("c", cb) if A[0] == Y else UNK}

    def ts(t):
        return ("c", TY[t] if t in TY else TY["s3"])

    def s2(a, b):
        return CProp(M, noret=NORET, assume=s3assume(a, b), descend={"vec_typeof2_s3_impl2"}).run(fs, [X, Y, ts(a), ts(b), ("p", "left")]), S2

    owner = {}
    for kind, names, ask in (("base", nat, lambda a, b: t2(a, b)), ("S3", nat + cls, lambda a, b: s2(a, b))):
        for ai, a in enumerate(names):
            for b in names[ai:]:
                if kind == "S3" and a in nat and b in nat:
                    continue
                (r, E), (q, _) = ask(a, b), ask(b, a)
                where = "%s:%s" % ((f2 if kind == "base" else fs).file, (f2 if kind == "base" else fs).line)
                bad = None
                for o, w in ((r, (a, b)), (q, (b, a))):
                    if len({(x.ret, x.noret, x.st.get(("p", "left"))) for x in o}) != 1 or o[0].noret or o[0].ret[0] != "c":
                        bad = w
                if bad:
                    rep.violation("classify", "%s x %s" % (a, b), where, "the pair (%s, %s) has no single classification: a type or class is not handled" % bad)
                    continue
                rep.ok("classify", 2)
                l1, l2 = r[0].st.get(("p", "left")), q[0].st.get(("p", "left"))
                n1, n2 = E.get(r[0].ret[1]), E.get(q[0].ret[1])
                lok = l1 is not None and l2 is not None and ({l1, l2} == {("c", 0), ("c", 1)} if a != b else l1 == l2 and l1 == ("c", -1))
                if n1 and "unknown_unknown" in n1:
                    lok = True      # nothing reads the direction of a pair with no native meaning
                if n1 != n2 or not lok:
                    rep.violation("symmetric", "%s x %s" % (a, b), where, "(%s, %s) is %s with left=%s but (%s, %s) is %s with left=%s" % (a, b, n1, l1 and l1[1], b, a, n2, l2 and l2[1]))
                    continue
                rep.ok("symmetric", 1, "%s x %s -> %s" % (a, b, n1))
                if n1 is None:
                    rep.violation("distinct", "%s x %s" % (a, b), where, "(%s, %s) has a classification that is not an enumerator" % (a, b))
                    continue
                if "unknown" in n1 or "unknown" in (a, b):
                    continue
                o = owner.setdefault((kind, n1), (a, b))
                if o != (a, b):
                    rep.violation("distinct", "%s x %s" % (a, b), where, "(%s, %s) and (%s, %s) are both classified %s" % (a, b, o[0], o[1], n1))
                else:
                    rep.ok("distinct")

    # ---- joins and casts
    pj = {}
    cj = {}
    psw, pds = M.need("vec_ptype2_switch_native"), M.need("vec_ptype2_dispatch_native")
    csw, cds = M.need("vec_cast_switch_native"), M.need("vec_cast_dispatch_native")
    common_desc = {"vec_typeof2_impl", "vec_typeof2_s3_impl", "vec_typeof2_s3_impl2"}

    so = field_offsets(M)

    def ev(f, a, b, kind):
        if kind == "ptype":
            fx, fy = so["ptype2_opts"]
        else:
            fx, fy = so["cast_opts"]
        def cls_assume(A):
            v = A[0]
            if v == ("ld*", ("fld", OPT, fx)) or (fx == 0 and v == ("ld*", OPT)):
                return ("c", CL.get(a, CL["none"]))
            if v == ("ld*", ("fld", OPT, fy)):
                return ("c", CL.get(b, CL["none"]))
            return UNK
        C = CProp(M, noret=NORET, descend=common_desc, assume={"class_type": cls_assume})
        outs = C.run(f, [OPT, ts(a), ts(b), ("p", "left")])
        return [o for o in outs if not o.noret]

    NIL = ("ld", "R_NilValue", 0)

    def outcome(a, b, kind):
        base = a in nat and b in nat
        f = {("ptype", True): psw, ("ptype", False): pds, ("cast", True): csw, ("cast", False): cds}[kind, base]
        o = ev(f, a, b, kind)
        vals = {x.ret for x in o}
        # R-level dispatch is how a native table says "not native"
        vals = {NIL if (v and v[0] == "call" and v[1] == "vec_ptype2_dispatch_s3") else v for v in vals}
        return vals, f

    allt = [t for t in nat if t not in ("null", "unspecified", "scalar")] + [c for c in cls if c != "unknown"]
    xo, yo = so["ptype2_opts"]

    def strip(v):
        """outcome of a join without the operands themselves"""
        sx, sy = ("ld*", ("fld", OPT, xo)), ("ld*", ("fld", OPT, yo))
        if xo == 0:
            sx0 = ("ld*", OPT)
        else:
            sx0 = sx
        if v[0] == "call":
            return ("call", v[1]) + tuple(sorted(("xy" if a in (sx, sy, sx0) else str(a)) for a in v[2]))
        return v

    for a in allt:
        for b in allt:
            vals, f = outcome(a, b, "ptype")
            where = "%s:%s" % (f.file, f.line)
            if len(vals) != 1:
                rep.violation("classify", "join %s x %s" % (a, b), where, "the common type of %s and %s depends on something other than the types" % (a, b))
                continue
            v = vals.pop()
            if v == NIL:
                continue
            pj[a, b] = v
    cast_where = {}
    for a in allt:
        for b in allt:
            vals, f = outcome(a, b, "cast")
            cast_where[a, b] = "%s:%s" % (f.file, f.line)
            if vals == {NIL}:
                continue
            cj[a, b] = vals
    done = set()
    jt = {}
    for (a, b), v in sorted(pj.items()):
        f = psw if (a in nat and b in nat) else pds
        where = "%s:%s" % (f.file, f.line)
        if (b, a) not in pj:
            rep.violation("join-symmetric", "%s x %s" % (a, b), where, "%s and %s have a common type only in that order" % (a, b))
            continue
        if strip(pj[b, a]) != strip(v):
            rep.violation("join-symmetric", "%s x %s" % (a, b), where, "common type of (%s, %s) and of (%s, %s) are computed differently" % (a, b, b, a))
            continue
        rep.ok("join-symmetric", 1, "%s x %s" % (a, b))
        # which type is it?
        t = None
        gl = v if v[0] == "ld" else (v[2][0] if v[0] == "call" and v[1] == "vec_shaped_ptype" and v[2] else None)
        if gl and gl[0] == "ld":
            st = global_type(M, gl[1], gl[2])
            t = next((n for n, k in BASE.items() if k == st), None)
            if gl[1] != "r_globals":
                t = None
        if t:
            jt[a, b] = t
        elif a == b:
            jt[a, b] = a
    for a in allt:
        if (a, a) not in pj:
            if a in BASE or a == "dataframe":
                rep.violation("join-idempotent", a, "%s:%s" % (psw.file, psw.line), "%s has no common type with itself" % a)
            continue
        if jt.get((a, a), a) != a:
            rep.violation("join-idempotent", a, "%s:%s" % (psw.file, psw.line), "the common type of %s with itself is %s" % (a, jt[a, a]))
        else:
            rep.ok("join-idempotent")
    bt = [t for t in BASE]
    for a in bt:
        for b in bt:
            for c in bt:
                if (a, b) in jt and (b, c) in jt and (a, c) in jt:
                    ab, bc = jt[a, b], jt[b, c]
                    l, r = jt.get((ab, c)), jt.get((a, bc))
                    if l != r:
                        rep.violation("join-assoc", "%s, %s, %s" % (a, b, c), "%s:%s" % (psw.file, psw.line), "combining %s, %s and %s gives %s or %s depending on the order" % (a, b, c, l, r))
                    else:
                        rep.ok("join-assoc")
    return dict(pj=pj, cj=cj, jt=jt, cast_where=cast_where, allt=allt, nat=nat, M=M, NIL=NIL, bt=bt)


def field_offsets(M):
    res = {}
    for s, names in (("ptype2_opts", ("x", "y")), ("cast_opts", ("x", "to"))):
        st = M.structs.get(s)
        if st is None:
            raise AnalysisBroken("struct %s not found" % s)
        off = {m[1]: m[0] for m in st}
        res[s] = (off[names[0]], off[names[1]])
    return res


CLS = {"bare_factor": "factor", "bare_ordered": "ordered", "bare_date": "Date", "bare_posixct": "POSIXct",
       "bare_posixlt": "POSIXlt", "bare_tibble": "tbl_df", "dataframe": "data.frame", "bare_data_frame": "data.frame"}
DF = {"tbl_df", "grouped_df", "rowwise_df", "sf", "data.table", "data.frame"}


def methods(P):
    """{generic: {(A, B): (method name, registration)}} for vec_ptype2/vec_cast;
    for a cast, A is the target and B the source."""
    res = {"vec_ptype2": {}, "vec_cast": {}}
    singles = {}
    raw = [(g, c, m, "NAMESPACE") for g, c, m in P.s3]
    for _, _, top in P.top:
        for n in top.calls():
            if n.callee() == "s3_register" and n.a and n.a[0][1].t == "str":
                g = n.a[0][1].v.split("::")[-1]
                c = n.arg("class", 1)
                m = n.arg("method", 2)
                if c is not None and c.t == "str":
                    raw.append((g, c.v, m.text() if m is not None else None, "%s" % "R/zzz.R"))
    known = set()
    for g, c, m, w in raw:
        known.add(g.split(".", 1)[1] if g.startswith(("vec_ptype2.", "vec_cast.")) else None)
        known.add(c)
        if w != "NAMESPACE":
            known.discard(c)
    known |= {"tbl_df", "grouped_df", "rowwise_df", "sf", "data.frame", "data.table", "omit", "exclude", "table"}
    known.discard(None)
    for g, c, m, w in raw:
        for gen in res:
            if g.startswith(gen + "."):
                res[gen][g[len(gen) + 1:], c] = (m or "%s.%s" % (g, c), w)
            elif g == gen:
                sp = [(c[:k], c[k + 1:]) for k, ch in enumerate(c) if ch == "."]
                sp = [p for p in sp if p[0] in known and p[1] in known and "." + p[0] != "." ]
                sp = [p for p in sp if not (c == "data.frame" or c == "data.table")]
                if sp:
                    res[gen][sp[0]] = (m or "%s.%s" % (gen, c), w)
    return res


def swap_tokens(n, names):
    d = rast.deparse(n)
    import re
    return re.sub(r"\b(%s)\b" % "|".join(map(re.escape, names)), lambda m: names[m.group(1)], d)


def is_native_stop(fn):
    for c in fn.body.calls():
        if c.callee() == "stop_native_implementation":
            return c
    return None


def refuses(fn):
    """the method only raises / defers to the default (no common type)"""
    last = fn.body
    while last.t == "call" and last.callee() == "{" and last.a:
        last = last.a[-1][1]
    return last.t == "call" and last.callee() in ("vec_default_ptype2", "vec_default_cast", "stop_incompatible_type", "stop_incompatible_cast")


def rside(rep, N, P):
    rep.rule("r-symmetric", "a registered common-type method has its mirror registered", 60)
    rep.rule("decided", "functions that settle for one operand by rule of the package", 0)
    rep.rule("r-converts", "a conversion between two classes does not hand its input back unconverted", 15)
    rep.rule("r-both", "a common-type method takes no type from one operand alone unless the operands agree", 20)
    rep.rule("r-mirror", "a common-type method and its mirror compute the same thing with the operands exchanged", 14)
    rep.rule("r-castable", "a registered common-type method is matched by conversions to the common type", 35)
    rep.rule("r-native", "a method that says its pair is implemented natively is right, and names itself", 20)
    R = methods(P)
    pt, ca = R["vec_ptype2"], R["vec_cast"]
    if len(pt) < 60 or len(ca) < 60:
        raise AnalysisBroken("only %d common-type and %d cast registrations found" % (len(pt), len(ca)))
    inv = {}
    for k, v in CLS.items():
        inv.setdefault(v, []).append(k)

    def nat_names(c):
        return [t for t in N["allt"] if t == c] + [t for t in inv.get(c, []) if t in N["allt"]]

    def native_join(a, b):
        return any((x, y) in N["pj"] for x in nat_names(a) for y in nat_names(b))

    def native_cast(to, frm):
        return any((y, x) in N["cj"] for x in nat_names(to) for y in nat_names(frm))

    def fn_of(m):
        return P.fun(m)

    def where(a, b, m):
        f = fn_of(m[0])
        return "R/%s:%s" % (os.path.basename(f.file), f.line) if f else m[1]

    B = bothsides.Methods(P, rep)
    for (a, b), m in sorted(pt.items()):
        if (b, a) not in pt:
            rep.violation("r-symmetric", "%s x %s" % (a, b), where(a, b, m), "vec_ptype2 has a method for (%s, %s) but none for (%s, %s)" % (a, b, b, a))
        else:
            rep.ok("r-symmetric")
    for (a, b), m in sorted(pt.items()):
        f = fn_of(m[0])
        if f is None:
            rep.violation("r-symmetric", m[0], m[1], "registered method %s is not defined" % m[0])
            continue
        st = is_native_stop(f)
        if st is not None:
            said = st.a[0][1].v if st.a and st.a[0][1].t == "str" else None
            if said is not None and said != "vec_ptype2.%s.%s" % (a, b):
                rep.violation("r-native", m[0], where(a, b, m), "method for (%s, %s) reports itself as %s" % (a, b, said))
            elif not native_join(a, b):
                rep.violation("r-native", m[0], where(a, b, m), "method for (%s, %s) claims a native implementation, but the native table has none: the pair can only fail with an internal error" % (a, b))
            else:
                rep.ok("r-native", 1, "vec_ptype2.%s.%s" % (a, b))
            continue
        g = pt.get((b, a)) and fn_of(pt[b, a][0])
        if not refuses(f) and len(f.formals) >= 2:
            B.method(f, a, b, g)
        if g is not None and a < b and is_native_stop(g) is None:
            same = {rast.deparse(f.body), swap_tokens(f.body, {"x": "y", "y": "x", "x_arg": "y_arg", "y_arg": "x_arg"})}
            d2 = rast.deparse(g.body)
            if d2 in same:
                rep.ok("r-mirror", 1, "%s / %s" % (m[0], pt[b, a][0]))
            else:
                heads = result_head(f, P), result_head(g, P)
                if heads[0] is None or heads[1] is None or heads[0] == heads[1]:
                    rep.ok("r-mirror")
                else:
                    rep.violation("r-mirror", "%s x %s" % (a, b), where(a, b, m), "%s computes %s but its mirror %s computes %s" % (m[0], heads[0], pt[b, a][0], heads[1]))
        if refuses(f):
            continue
        need = [(a, b), (b, a)]
        have = [c for c in need if c in ca or native_cast(*c)]
        part = a.startswith("vctrs_partial") or b.startswith("vctrs_partial")
        if part:
            continue
        third = JOIN_HEAD.get(result_head(f, P))
        if third and all((third, s) in ca or native_cast(third, s) for s in (a, b)):
            have.append((third, a))
        if a == b and a in DEFAULT_CASTS:
            d = P.fun("vec_default_cast")
            if d and all(any(c.callee() == h for c in d.body.calls()) for h in DEFAULT_CASTS[a]):
                have.append((a, a))
        if not have:
            rep.violation("r-castable", "%s x %s" % (a, b), where(a, b, m), "%s and %s have a common type but neither converts to the other" % (a, b))
        else:
            rep.ok("r-castable")
    # casts that claim to be native
    for (to, frm), m in sorted(ca.items()):
        f = fn_of(m[0])
        if f is not None and to != frm and to not in DF:
            x = list(f.formals)[0]
            same = [r for r in rops.returned(f) if r.t == "sym" and r.n == x and None in rops.last_assignment(f, r, x)]
            if same:
                rep.violation("r-converts", m[0], where(to, frm, m), "conversion of %s to %s hands its input back as it is" % (frm, to))
            else:
                rep.ok("r-converts")
        if f is None:
            rep.violation("r-castable", m[0], m[1], "registered method %s is not defined" % m[0])
            continue
        st = is_native_stop(f)
        if st is not None:
            said = st.a[0][1].v if st.a and st.a[0][1].t == "str" else None
            if said is not None and said != "vec_cast.%s.%s" % (to, frm):
                rep.violation("r-native", m[0], where(to, frm, m), "method converting %s to %s reports itself as %s" % (frm, to, said))
            elif not native_cast(to, frm):
                rep.violation("r-native", m[0], where(to, frm, m), "method converting %s to %s claims a native implementation, but the native table has none" % (frm, to))
            else:
                rep.ok("r-native")
    # classes with native implementations keep their own class
    own = {}
    for (a, b), v in sorted(N["pj"].items()):
        if a == b and a not in BASE and v[0] == "call":
            cl = result_class(N["M"], v)
            for o, (oc, ov) in own.items():
                if cl and cl == oc and ov[1] != v[1]:
                    rep.violation("join-idempotent", a, N["cast_where"][a, a], "the common type of %s with itself has the class of that of %s" % (a, o))
            if cl:
                own[a] = (cl, v)
                rep.ok("join-idempotent", 1, "%s: %s" % (a, "/".join(sorted(cl))))
    # native joins: both sides reach the join
    M = N["M"]
    for (a, b), v in sorted(N["pj"].items()):
        t = N["jt"].get((a, b))
        targets = [t] if t else [a, b]
        ca_ = lambda x: CLS.get(x, x)
        ok = False
        for tt in targets:
            o = True
            for s in (a, b):
                if s == tt and tt in BASE and (s, tt) not in N["cj"]:
                    o = o and (ca_(tt), ca_(s)) in ca
                elif s != tt or tt not in BASE:
                    o = o and ((s, tt) in N["cj"] or (ca_(tt), ca_(s)) in ca)
            ok = ok or o
        if not ok:
            rep.violation("join-castable", "%s x %s" % (a, b), N["cast_where"][a, b], "%s and %s have a common type (%s) but one of them does not convert to it" % (a, b, t or "one of the two"))
        else:
            rep.ok("join-castable")
    # direction of native conversions between distinct types
    for (a, b), vals in sorted(N["cj"].items()):
        if a == b:
            continue
        back = N["cj"].get((b, a), set())
        calls = {v[1] for v in vals if v and v[0] == "call"}
        bcalls = {v[1] for v in back if v and v[0] == "call"}
        w = N["cast_where"][a, b]
        if calls & bcalls:
            rep.violation("cast-direction", "%s to %s" % (a, b), w, "%s to %s and %s to %s use the same conversion %s" % (a, b, b, a, sorted(calls & bcalls)[0]))
            continue
        if a in BASE and b in BASE:
            for c in calls:
                rd, wr = types_of(M, c)
                if (wr and BASE[b] not in wr) or (rd and BASE[a] not in rd):
                    rep.violation("cast-direction", "%s to %s" % (a, b), w, "conversion %s of %s to %s does not read the source type or does not produce the target type" % (c, a, b))
                    break
            else:
                rep.ok("cast-direction", 1, "%s to %s via %s" % (a, b, "/".join(sorted(calls))))
            if not calls:
                rep.violation("cast-direction", "%s to %s" % (a, b), w, "%s is returned unconverted when %s is asked for" % (a, b))
        else:
            rep.ok("cast-direction")


def result_class(M, v):
    """globals holding the class attribute given to the result of a function"""
    out, seen = set(), set()

    def go(f, depth):
        if f is None or f.name in seen or depth > 4:
            return
        seen.add(f.name)
        made, work = set(), [i.a[0] for i in f.insts() if i.op == "ret" and i.a] + [k for k in range(f.nargs) if depth and f.args[k]["t"] == "ptr" and k == 0]
        while work:
            x = work.pop()
            if x in made or not isinstance(x, int):
                continue
            made.add(x)
            d = f.defs.get(x) if x >= f.nargs else None
            if d is not None and d.op == "phi":
                work += [y for y, _ in d.inn]
            elif d is not None and d.op == "call" and M.basename(d.f or "") in ("Rf_protect", "PROTECT_N"):
                work.append(d.a[0])
            for u in f.uses.get(x, ()):
                if u.op == "call" and M.basename(u.f or "") in ("Rf_protect", "PROTECT_N"):
                    work.append(u.id)
        for i in f.calls():
            b = M.basename(i.f or "")
            if b in ("Rf_setAttrib", "r_attrib_poke", "r_attrib_poke_class", "Rf_classgets"):
                if i.a[0] not in made:
                    continue
                d = f.defs.get(i.a[-1]) if isinstance(i.a[-1], int) else None
                if d is not None and d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g" and (len(i.a) < 3 or is_class(f, i.a[1])):
                    out.add(d.a[0][1])
            elif i.f in M.funcs and (i.id in made or i.a and i.a[0] in made):
                go(M.funcs[i.f], depth + 1)

    def is_class(f, v):
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or d.op != "load" or not isinstance(d.a[0], tuple):
            return False
        return d.a[0][1] in ("R_ClassSymbol",) or d.a[0][1] == "r_syms" and M.gfield("r_syms", d.a[0][2]) in ("class_", "class")
    top = M.get(v[1])
    go(top, 0)
    return frozenset(out)


HEADS = {}


def result_head(fn, P):
    """name of the constructor that produces a method's result, if the last
    expression is one call of a package function other than a pass-through"""
    last = fn.body
    while last.t == "call" and last.callee() == "{" and last.a:
        last = last.a[-1][1]
    if last.t == "call":
        return last.callee()
    return None


def run(rep):
    M = common.load_module()
    P = common.load_r()
    N = native(rep, M)
    NB = bothsides.Native(M, rep, ["vec_ptype2_switch_native", "vec_ptype2_dispatch_native"])
    NB.run()
    NB.missing()
    rside(rep, N, P)
    rep.coverage.update({"functions": ["vec_typeof2_impl", "vec_typeof2_s3_impl", "vec_ptype2_switch_native", "vec_ptype2_dispatch_native", "vec_cast_switch_native", "vec_cast_dispatch_native"],
                         "native_joins": len(N["pj"]), "native_casts": len(N["cj"])})


if __name__ == "__main__":
    main(PROP, run)
