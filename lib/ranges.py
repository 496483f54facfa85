"""Intervals and missingness of numbers on a path."""
import math
from facts import SWAP, const_of, fconst

INF = math.inf
NA_INT = -2147483648


class Val:
    __slots__ = ("lo", "hi", "nan", "lo_strict", "hi_strict")

    def __init__(self, lo=-INF, hi=INF, nan=True, ls=False, hs=False):
        self.lo, self.hi, self.nan, self.lo_strict, self.hi_strict = lo, hi, nan, ls, hs

    def upper(self, c, strict):
        if c < self.hi or c == self.hi and strict:
            self.hi, self.hi_strict = c, strict

    def lower(self, c, strict):
        if c > self.lo or c == self.lo and strict:
            self.lo, self.lo_strict = c, strict

    def __repr__(self):
        return "%s%s, %s%s%s" % ("(" if self.lo_strict else "[", self.lo, self.hi, ")" if self.hi_strict else "]", " or NaN" if self.nan else "")


INTW = {"i8": 8, "i32": 32, "i64": 64, "i16": 16}


def same(path, a, b):
    return a == b and isinstance(a, int)


def rng(path, atoms, v, depth=0):
    """Val for a value on a path"""
    f = path.f
    v = path.res(v)
    r = Val()
    c = fconst(v)
    if c is not None:
        return Val(c, c, math.isnan(c))
    c = const_of(path, v)
    if c is not None:
        return Val(c, c, False)
    if not isinstance(v, int):
        return r
    d = f.defs.get(v)
    if d is not None and depth < 6:
        if d.op == "sitofp":
            w = INTW.get(f.defs[d.a[0]].t if isinstance(d.a[0], int) and d.a[0] in f.defs else None, 64)
            r = Val(-2.0 ** (w - 1), 2.0 ** (w - 1) - 1, False)
            s = rng(path, atoms, d.a[0], depth + 1)
            r.lower(s.lo, s.lo_strict)
            r.upper(s.hi, s.hi_strict)
        elif d.op in ("fadd", "fsub", "fmul", "fdiv") and fconst(path.res(d.a[1])) is not None:
            k = fconst(path.res(d.a[1]))
            s = rng(path, atoms, d.a[0], depth + 1)
            if d.op in ("fadd", "fsub"):
                k = k if d.op == "fadd" else -k
                r = Val(s.lo + k, s.hi + k, s.nan, s.lo_strict, s.hi_strict)
            elif k > 0:
                k = k if d.op == "fmul" else 1 / k
                r = Val(s.lo * k, s.hi * k, s.nan, s.lo_strict, s.hi_strict)
        elif d.op == "call" and f.mod.basename(d.f) in ("floor", "ceil", "trunc", "round", "llvm.floor.f64", "llvm.ceil.f64", "llvm.trunc.f64", "rint", "nearbyint"):
            s = rng(path, atoms, d.a[0], depth + 1)
            r = Val(math.floor(s.lo) if s.lo > -INF else -INF, math.ceil(s.hi) if s.hi < INF else INF, s.nan)
        elif d.op in ("sext", "zext", "trunc") and d.t in INTW:
            s = rng(path, atoms, d.a[0], depth + 1)
            if d.op == "sext" or s.lo >= 0 and s.hi < 2 ** (INTW[d.t] - 1):
                r = Val(s.lo, s.hi, False)
    if d is not None and d.t in INTW or d is None and v < f.nargs and f.args[v]["t"] in INTW:
        w = INTW[d.t if d is not None else f.args[v]["t"]]
        r.nan = False
        r.lower(-2 ** (w - 1), False)
        r.upper(2 ** (w - 1) - 1, False)
    for at in atoms:
        if at[0] == "class" and same(path, at[2], v):
            if not at[1] & 3:
                r.nan = False
            if not at[1] & 0x204 and not at[1] & 3:
                r.lower(-1.8e308, False)
        if at[0] == "class" and same(path, at[2], v) and not at[1] & 0x4:
            r.lower(-1.7976931348623157e308, False)
        if at[0] not in ("fcmp", "icmp"):
            continue
        for p, a, b in ((at[1], at[2], at[3]), (SWAP[at[1]], at[3], at[2])):
            if not same(path, a, v):
                continue
            if at[0] == "fcmp":
                if p[0] == "o":
                    r.nan = False
                # comparison of x with floor(x) or with its own round trip
                if p in ("oeq", "ord"):
                    r.nan = False
                o = rng(path, [], b, depth + 3) if depth < 3 else Val()
                q = p[1:]
                # when unordered is allowed the bound holds only for ordered values
                if q == "lt":
                    r.upper(o.hi, True)
                elif q == "le":
                    r.upper(o.hi, o.hi_strict)
                elif q == "gt":
                    r.lower(o.lo, True)
                elif q == "ge":
                    r.lower(o.lo, o.lo_strict)
                elif q == "eq":
                    r.upper(o.hi, o.hi_strict)
                    r.lower(o.lo, o.lo_strict)
            else:
                o = rng(path, [], b, depth + 3) if depth < 3 else Val()
                if p in ("slt",):
                    r.upper(o.hi - 1, False)
                elif p == "sle":
                    r.upper(o.hi, False)
                elif p == "sgt":
                    r.lower(o.lo + 1, False)
                elif p == "sge":
                    r.lower(o.lo, False)
                elif p == "eq":
                    r.upper(o.hi, False)
                    r.lower(o.lo, False)
                elif p == "ne" and o.lo == o.hi == r.lo:
                    r.lo = r.lo + 1
                elif p == "ne" and o.lo == o.hi == r.hi:
                    r.hi = r.hi - 1
                elif p == "ult" and o.lo >= 0 and o.hi < 2 ** 62:
                    r.upper(o.hi - 1, False)
                    r.lower(0, False)
    return r


NA_FIELDS = ("na_int", "na_lgl", "na_dbl", "na_str", "na_cpl")
NA_GLOBALS = ("R_NaInt", "R_NaReal", "R_NaString", "NA_STRING")


def is_na(path, v):
    """the value is R's missing value"""
    f = path.f
    v = path.res(v)
    if v == ("c", NA_INT):
        return True
    if isinstance(v, tuple) and v[0] == "f" and "nan" in str(v[1]).lower():
        return True
    if not isinstance(v, int):
        return False
    d = f.defs.get(v)
    if d is None:
        return False
    if d.op in ("sitofp", "sext"):
        return is_na(path, d.a[0])
    if d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
        g = d.a[0]
        nm = f.mod.gfield(g[1], g[2])
        return (nm or "").split(".")[-1] in NA_FIELDS or g[1] in NA_GLOBALS
    return False


MISSING_FNS = ("isnan", "R_IsNA", "R_IsNaN", "R_isnancpp", "__isnan", "ISNAN", "R_IsNaN")


def missing(path, atoms, v):
    """True: the value is missing on this path; False: it is not; None: unknown"""
    f = path.f
    v = path.res(v)
    out = None
    for at in atoms:
        if at[0] == "class" and at[2] == v:
            if at[1] & ~3 == 0:
                return True
            if not at[1] & 3:
                out = False
        elif at[0] == "fcmp" and (at[2] == v or at[3] == v):
            if at[1] == "uno" or at[1] == "une" and at[2] == at[3]:
                return True
            if at[1][0] == "o":
                out = False
        elif at[0] == "icmp" and at[1] in ("eq", "ne"):
            for a, b in ((at[2], at[3]), (at[3], at[2])):
                if a == v and is_na(path, b):
                    if at[1] == "eq":
                        return True
                    out = False
                # an ordinary constant is not missing
                c = const_of(path, b)
                if a == v and at[1] == "eq" and c is not None and c != NA_INT:
                    out = False
        elif at[0] == "val" and isinstance(at[1], int):
            d = f.defs.get(at[1])
            if d is not None and d.op == "call" and f.mod.basename(d.f) in MISSING_FNS and d.a and path.res(d.a[0]) == v:
                if at[2]:
                    return True
                if f.mod.basename(d.f) != "R_IsNA":
                    out = False
        elif at[0] == "icmp":
            pass
    # isnan(x) != 0 spelled as an integer comparison
    for at in atoms:
        if at[0] == "icmp" and at[1] in ("eq", "ne") and const_of(path, at[3]) == 0 and isinstance(at[2], int):
            d = f.defs.get(at[2])
            if d is not None and d.op == "call" and f.mod.basename(d.f) in MISSING_FNS and path.res(d.a[0]) == v:
                if at[1] == "ne":
                    return True
                if f.mod.basename(d.f) != "R_IsNA":
                    out = False
    r = rng(path, atoms, v)
    if out is None and not r.nan and v in f.defs and f.defs[v].t in ("i32",) and r.lo > NA_INT:
        out = False
    if out is None and v in f.defs and f.defs[v].t == "double" and not r.nan:
        out = False
    return out


def loops(f):
    """natural loops: header -> blocks"""
    res = {}
    for b in range(len(f.blocks)):
        for s in f.succ[b]:
            if f.dominates(s, b):
                body = res.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(f.pred[x])
    return res


def innermost(f, b, lp=None):
    lp = lp if lp is not None else loops(f)
    best = None
    for h, body in lp.items():
        if b in body and (best is None or len(body) < len(lp[best])):
            best = h
    return best


def whole(path, atoms, v, conv=None):
    """the double v is a whole number on this path: compared equal to a whole
    constant, to its own floor, or to its own conversion to integer"""
    f = path.f
    v = path.res(v)
    for at in atoms:
        if at[0] != "fcmp" or at[1] not in ("oeq",):
            continue
        for a, b in ((at[2], at[3]), (at[3], at[2])):
            if a != v:
                continue
            c = fconst(path.res(b))
            if c is not None and c == math.floor(c):
                return True
            d = f.defs.get(path.res(b)) if isinstance(path.res(b), int) else None
            if d is None:
                continue
            if d.op == "sitofp":
                s = f.defs.get(path.res(d.a[0])) if isinstance(path.res(d.a[0]), int) else None
                if s is not None and s.op == "fptosi" and path.res(s.a[0]) == v:
                    return True
            if d.op == "call" and f.mod.basename(d.f) in ("floor", "ceil", "trunc", "round", "llvm.floor.f64", "llvm.trunc.f64", "llvm.ceil.f64") and path.res(d.a[0]) == v:
                return True
    d = f.defs.get(v) if isinstance(v, int) else None
    if d is not None and d.op in ("fadd", "fsub") and fconst(path.res(d.a[1])) is not None and fconst(path.res(d.a[1])) == math.floor(fconst(path.res(d.a[1]))):
        return whole(path, atoms, d.a[0])
    if d is not None and d.op == "call" and f.mod.basename(d.f) in ("floor", "ceil", "trunc", "round", "llvm.floor.f64", "llvm.trunc.f64"):
        return True
    return False
