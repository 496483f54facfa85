"""What a value handed to an R function is, as far as error reporting goes: the
label of an argument, the call to report, or an ordinary object - and under
which name native code knows it."""
from sides import Sides

PASS = {"Rf_protect", "KEEP", "r_protect", "r_expr_protect", "Rf_duplicate", "r_clone", "r_copy_in_env"}
LABEL = {"vctrs_arg"}
CALL = {"r_lazy_eval", "r_lazy_eval_protect"}


def strip(n):
    if not n:
        return None
    for p in ("ffi_", "p_", "r_", "_", "."):
        if n.startswith(p) and len(n) > len(p):
            n = n[len(p):]
    return n.rstrip("_")


class Roles:
    def __init__(self, M):
        self.M = M
        self.S = Sides(M)

    def source(self, f, v, depth=0):
        """name under which a pointer or object is known"""
        if not isinstance(v, int) or depth > 6:
            return None
        if v < f.nargs:
            return strip(f.argname(v).split(".coerce")[0])
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op == "load":
            g = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
            if g is not None and g.op == "getelementptr":
                if ((g.st or "").endswith("struct.r_lazy") or (g.st or "") == "{ ptr, ptr }"):
                    return self.source(f, g.a[0], depth + 1)
                fl = self.S.field(g)
                if fl:
                    return strip(fl[0])
            return strip(f.vn.get(v))
        if d.op == "getelementptr":
            if ((d.st or "").endswith("struct.r_lazy") or (d.st or "") == "{ ptr, ptr }"):
                return self.source(f, d.a[0], depth + 1)
            fl = self.S.field(d)
            return strip(fl[0]) if fl else None
        if d.op == "call" and self.M.basename(d.f) in PASS:
            return self.source(f, d.a[0], depth + 1)
        return strip(f.vn.get(v)) if v in f.vn else None

    def role(self, f, v, depth=0):
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is not None and d.op == "call" and depth < 8:
            b = self.M.basename(d.f)
            if b in PASS and d.a:
                return self.role(f, d.a[0], depth + 1)
            if b in LABEL:
                return ("label", self.source(f, d.a[0]))
            if b in CALL:
                n = self.source(f, d.a[0])
                return ("label", n) if n and n.endswith("arg") else ("call", None)
        if d is not None and d.op == "phi":
            rs = {self.role(f, x, depth + 1) for x, _ in d.inn if not isinstance(x, tuple)} if depth < 4 else set()
            kinds = {r[0] for r in rs}
            return rs.pop() if len(rs) == 1 else (kinds.pop(), None) if len(kinds) == 1 else ("value", None)
        return ("value", self.source(f, v))


def misplaced(formals, bound):
    """bound: [(formal, role)] of one call. Descriptions of what is out of place."""
    out = []
    for fm, (kind, name) in bound:
        if fm is None:
            continue
        lab, cal = fm.lstrip(".").split("_")[-1] in ("arg", "label", "tag") or fm.endswith("arg"), fm.lstrip(".").endswith("call")
        if kind == "call" and lab:
            out.append("the call to report arrives as `%s`" % fm)
        elif kind == "label" and cal:
            out.append("the label of an argument arrives as `%s`, the call to report" % fm)
        elif kind == "label" and not lab and any(x.endswith("arg") for x in formals) and fm in ("x", "y", "to", "i", "n", "size"):
            out.append("the label of an argument arrives as `%s`" % fm)
        elif kind == "value" and cal and name in formals and not name.endswith("call"):
            out.append("`%s` arrives as `%s`, the call to report" % (name, fm))
        elif kind == "label" and lab and name and name != fm and name in formals and name.endswith("arg"):
            out.append("the label `%s` arrives as `%s`" % (name, fm))
    for i in range(len(bound)):
        for j in range(i):
            (fi, (ki, ni)), (fj, (kj, nj)) = bound[i], bound[j]
            if ki == kj == "value" and fi and fj and fi != fj and ni == fj and nj == fi:
                out.append("`%s` and `%s` change places" % (fi, fj))
    return out
