"""Abstract interpretation of loop-free kernels and single loop iterations over
a finite partition of the inputs: a number is missing (NA), not a number, zero
or another number, and two of them are ordered or equal; a string is missing or
not and smaller, larger or the same; everything else is an uninterpreted term.
Branches the partition does not decide are followed both ways."""
import re

from ranges import loops

NA_INT = -(1 << 31)


class Budget(Exception):
    pass


class Out:
    __slots__ = ("kind", "val", "eff", "conds", "at")

    def __init__(self, kind, val, eff, conds, at=None):
        self.kind = kind
        self.val = val
        self.eff = eff
        self.conds = conds
        self.at = at


def mentions(t, leaf):
    if t == leaf:
        return True
    return isinstance(t, tuple) and any(mentions(c, leaf) for c in t if isinstance(c, tuple))


class Case:
    """what is known of the inputs: cls[name], and rel[(a, b)] in '<=>' """

    def __init__(self, cls, rel=None):
        self.cls = cls
        self.rel = dict(rel or {})
        for (a, b), r in list(self.rel.items()):
            self.rel[(b, a)] = {"<": ">", ">": "<", "=": "="}[r]

    def order(self, a, b):
        if a == b:
            return "="
        return self.rel.get((a, b))


FOLLOW_MAX = 24


class Interp:
    def __init__(self, M, case, elem, follow, call=None, budget=4000):
        self.M = M
        self.case = case
        self.elem = elem          # (base, idx list, off, type) -> value or None
        self.follow = follow      # Func -> bool
        self.call_hook = call     # (name, args, inst) -> value or None
        self.steps = 0
        self.budget = budget
        self.lp = {}

    # ---- values
    def const(self, v):
        if v[0] == "c":
            return ("c", v[1])
        if v[0] == "null":
            return ("null",)
        if v[0] == "f":
            s = str(v[1])
            try:
                return ("dc", float(s) + 0.0)
            except ValueError:
                return ("dc", s)
        if v[0] == "g":
            return ("addr", v[1], v[2])
        return ("undef",)

    def val(self, env, v):
        return env.get(v, ("undef",)) if isinstance(v, int) else self.const(v)

    def dcls(self, v):
        """class of a double: NA, NaN, zero, num or None"""
        if v[0] == "d":
            return self.case.cls.get(v[1])
        if v[0] == "dc":
            if v[1] in ("NA", "NaN"):
                return v[1]
            if isinstance(v[1], float):
                return "NaN" if v[1] != v[1] else "zero" if v[1] == 0.0 else "num"
        return None

    def drel(self, a, b):
        if a == b:
            return "="
        if a[0] == "d" and b[0] == "d":
            return self.case.order(a[1], b[1])
        if a[0] == "dc" and b[0] == "dc" and isinstance(a[1], float) and isinstance(b[1], float):
            return "<" if a[1] < b[1] else ">" if a[1] > b[1] else "="
        ca, cb = self.dcls(a), self.dcls(b)
        if ca == "zero" and cb == "zero":
            return "="
        if {ca, cb} == {"zero", "num"}:
            return "!"
        return None

    def fcmp(self, pred, a, b):
        ca, cb = self.dcls(a), self.dcls(b)
        if pred in ("true", "false"):
            return pred == "true"
        nan = lambda c: c in ("NA", "NaN")
        if nan(ca) or nan(cb):
            return pred[0] == "u"
        if ca is None or cb is None:
            return None
        if pred == "ord":
            return True
        if pred == "uno":
            return False
        r = self.drel(a, b)
        if r is None:
            return None
        if r == "!":
            return {"eq": False, "ne": True}.get(pred[1:])
        return {"eq": r == "=", "ne": r != "=", "lt": r == "<", "gt": r == ">", "le": r != ">", "ge": r != "<"}[pred[1:]]

    def icmp(self, pred, a, b, t=None):
        if a == b and a[0] != "undef":
            return pred in ("eq", "sle", "sge", "ule", "uge")
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if pred[0] == "u":
                x, y = x & (2 ** 64 - 1), y & (2 ** 64 - 1)
            p = pred[-2:]
            return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[p]
        # ordered integers
        if a[0] == "n" and b[0] == "n":
            r = self.case.order(a[1], b[1])
            if r:
                p = pred[-2:]
                return {"eq": r == "=", "ne": r != "=", "lt": r == "<", "gt": r == ">", "le": r != ">", "ge": r != "<"}[p]
        if b[0] == "n" and a[0] == "c":
            sw = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
            return self.icmp(sw.get(pred, pred), b, a)
        if a[0] == "n" and b == ("c", NA_INT) and self.case.cls.get(a[1]) == "num":
            return {"eq": False, "ne": True, "sgt": True, "sge": True, "slt": False, "sle": False}.get(pred)
        if a[0] == "sgn" and b[0] == "c":
            if b[1] == 0:
                return {"eq": False, "ne": True, "sgt": a[1] > 0, "sge": a[1] > 0, "slt": a[1] < 0, "sle": a[1] < 0}.get(pred)
            if a[1] > 0 and b[1] < 0 or a[1] < 0 and b[1] > 0:
                return {"eq": False, "ne": True, "sgt": a[1] > 0, "sge": a[1] > 0, "slt": a[1] < 0, "sle": a[1] < 0}.get(pred)
            return None
        if b[0] == "sgn" and a[0] == "c":
            sw = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
            return self.icmp(sw.get(pred, pred), b, a)
        # low word of a double
        for x, y in ((a, b), (b, a)):
            if x[0] == "low" and y == ("c", 1954):
                c = self.dcls(x[1])
                if c in ("NA", "NaN"):
                    return (c == "NA") == (pred == "eq")
        # objects
        ks = {"p", "G", "null", "addr"}
        if a[0] in ks and b[0] in ks and pred in ("eq", "ne"):
            if a[0] == "p" and b[0] == "p":
                r = self.case.order(a[1], b[1])
                if r is None:
                    return None
                return (r == "=") == (pred == "eq")
            if "p" in (a[0], b[0]):
                p, g = (a, b) if a[0] == "p" else (b, a)
                if self.case.cls.get(p[1]) == "plain":
                    return pred == "ne"
                return None
            return (a == b) == (pred == "eq")
        return None

    # ---- loads
    def gload(self, g, off, t):
        name = self.M.gfield(g, off) if g == "r_globals" else g
        if isinstance(name, tuple):
            name = name[-1]
        n = str(name).split(".")[-1] if name else g
        tab = {"na_int": ("c", NA_INT), "na_lgl": ("c", NA_INT), "R_NaInt": ("c", NA_INT), "na_dbl": ("dc", "NA"), "R_NaReal": ("dc", "NA"),
               "R_NaN": ("dc", "NaN"), "na_str": ("G", "NA_STRING"), "R_NaString": ("G", "NA_STRING"), "R_NilValue": ("G", "NIL"), "r_null": ("G", "NIL")}
        return tab.get(n, ("gl", g, off))

    def addr(self, v, off, idx):
        if v[0] == "gep":
            return ("gep", v[1], v[2] + tuple(idx), v[3] + off)
        return ("gep", v, tuple(idx), off)

    def load(self, p, t):
        if p[0] == "addr":
            return self.gload(p[1], p[2], t)
        if p[0] == "gep" and p[1][0] == "addr":
            if not p[2]:
                return self.gload(p[1][1], p[1][2] + p[3], t)
        b, idx, off = (p[1], p[2], p[3]) if p[0] == "gep" else (p, (), 0)
        v = self.elem(b, idx, off, t)
        if v is not None:
            return v
        return ("ld", b, idx, off)

    # ---- execution
    def run(self, f, args, depth=0):
        """all outcomes of a call"""
        if f.name not in self.lp:
            self.lp[f.name] = dict(loops(f))
        lp = self.lp[f.name]
        env0 = {k: a for k, a in enumerate(args)}
        stack = [(0, None, 0, env0, (), (), frozenset())]
        while stack:
            b, prev, pos, env, eff, conds, inloop = stack.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget(f.name)
            blk = f.blocks[b]
            if pos == 0:
                phis = [i for i in blk if i.op == "phi"]
                if b in lp and prev in lp[b] and b in inloop:
                    new = {}
                    for i in phis:
                        for v, pb in i.inn:
                            if pb == prev:
                                new[i.id] = (env[i.id], self.val(env, v))
                    yield Out("back", new, eff, conds, (f, b))
                    continue
                vals = {}
                for i in phis:
                    for v, pb in i.inn:
                        if pb == prev:
                            vals[i.id] = self.val(env, v)
                if b in lp:
                    body = lp[b]
                    for i in phis:
                        init = vals.get(i.id, ("undef",))
                        step = None
                        for v, pb in i.inn:
                            if pb in body and isinstance(v, int):
                                d = f.defs[v]
                                if d.op == "add" and d.a[0] == i.id and isinstance(d.a[1], tuple) and d.a[1] == ("c", 1):
                                    step = "int"
                                elif d.op == "getelementptr" and d.a[0] == i.id and len(d.a) == 1 and d.off:
                                    step = d.off
                        if step == "int":
                            vals[i.id] = ("iv", f.name, b, init)
                        elif step:
                            vals[i.id] = self.addr(init, 0, [(("iv", f.name, b, ("c", 0)), step)])
                        else:
                            vals[i.id] = ("lv", f.name, b, i.id, init)
                    inloop = inloop | {b}
                env = dict(env)
                env.update(vals)
                pos = len(phis)
            done = False
            for k in range(pos, len(blk)):
                i = blk[k]
                op = i.op
                if op == "br":
                    done = True
                    if not i.a:
                        stack.append((i.s[0], b, 0, env, eff, conds, inloop))
                        break
                    c = self.val(env, i.a[0])
                    t = self.truth(c, conds)
                    if t is None:
                        stack.append((i.s[0], b, 0, env, eff, conds + ((c, True),), inloop))
                        stack.append((i.s[1], b, 0, env, eff, conds + ((c, False),), inloop))
                    else:
                        stack.append((i.s[0 if t else 1], b, 0, env, eff, conds, inloop))
                    break
                if op == "switch":
                    done = True
                    c = self.val(env, i.a[0])
                    if c[0] == "c":
                        to = dict((x, y) for x, y in i.cases).get(c[1], i.deflt)
                        stack.append((to, b, 0, env, eff, conds, inloop))
                    else:
                        seen = set()
                        for x, y in i.cases:
                            t = self.truth(("icmp", "eq", c, ("c", x)), conds)
                            if t is False:
                                continue
                            stack.append((y, b, 0, env, eff, conds + ((("icmp", "eq", c, ("c", x)), True),), inloop))
                        stack.append((i.deflt, b, 0, env, eff, conds + tuple((("icmp", "eq", c, ("c", x)), False) for x, y in i.cases), inloop))
                    break
                if op == "ret":
                    done = True
                    yield Out("ret", self.val(env, i.a[0]) if i.a else None, eff, conds)
                    break
                if op == "unreachable":
                    done = True
                    yield Out("stop", None, eff, conds)
                    break
                if op == "store":
                    eff = eff + (("store", self.val(env, i.a[1]), self.val(env, i.a[0]), i),)
                    continue
                if op in ("call", "invoke"):
                    args2 = [self.val(env, a) for a in i.a]
                    g = None
                    name = i.f
                    if name is None and i.fp is not None:
                        fp = self.val(env, i.fp)
                        if fp[0] == "addr":
                            name = fp[1]
                    r = self.intrinsic(name, args2, i)
                    if r is None and self.call_hook:
                        r = self.call_hook(self.M.basename(name) if name else None, args2, i)
                        if r is not None and r[0] == "@":
                            eff = eff + (("elem",) + r[2:],)
                            r = r[1]
                    if r is None and name:
                        g = self.M.funcs.get(name)
                    if r is None and g is not None and g.blocks and depth < FOLLOW_MAX and self.follow(g):
                        for o in self.run(g, args2, depth + 1):
                            if o.kind == "ret":
                                e2 = dict(env)
                                e2[i.id] = o.val if o.val is not None else ("undef",)
                                merged = self.merge(conds, o.conds)
                                if merged is None:
                                    continue
                                stack.append((b, prev, k + 1, e2, eff + o.eff, merged, inloop))
                            else:
                                merged = self.merge(conds, o.conds)
                                if merged is not None:
                                    yield Out(o.kind, o.val, eff + o.eff, merged, o.at)
                        done = True
                        break
                    if r is None:
                        base = self.M.basename(name) if name else "?"
                        if name and name.startswith("llvm.mem"):
                            eff = eff + (("mem", name, tuple(args2), i),)
                            continue
                        r = ("call", base) + tuple(args2)
                        if i.t is None or i.t == "void":
                            eff = eff + (("call", base, tuple(args2), i),)
                    env[i.id] = r
                    continue
                v = self.step(env, i)
                if v[0] == "@":
                    eff = eff + (("elem",) + v[2:],)
                    v = v[1]
                env[i.id] = v
            if not done and k == len(blk) - 1:
                raise Budget("no terminator")

    def merge(self, a, b):
        d = dict(a)
        for c, t in b:
            if d.get(c, t) != t:
                return None
            d[c] = t
        return a + tuple(x for x in b if x not in a)

    def truth(self, c, conds):
        if c[0] == "c":
            return bool(c[1] & 1)
        neg = False
        while c[0] == "not":
            c = c[1]
            neg = not neg
        for k, t in conds:
            n2 = False
            while k[0] == "not":
                k = k[1]
                n2 = not n2
            if k == c:
                return t != n2 != neg
            if k[0] == "icmp" and c[0] == "icmp" and k[2:] == c[2:] and {k[1], c[1]} == {"eq", "ne"}:
                return (not t) != n2 != neg
            if k[0] == "icmp" and c[0] == "icmp" and k[1] == "eq" and c[1] == "eq" and t and not n2 and k[2] == c[2] and k[3][0] == "c" and c[3][0] == "c" and k[3] != c[3]:
                return neg
        return None

    def intrinsic(self, name, a, i):
        if name is None:
            return None
        n = self.M.basename(name)
        if n.startswith("llvm.is.fpclass") and a[1] == ("c", 3):
            c = self.dcls(a[0])
            return None if c is None else ("c", int(c in ("NA", "NaN")))
        if n in ("R_IsNA", "R_IsNaN", "R_isnancpp", "R_isnan"):
            c = self.dcls(a[0])
            if c is None:
                return None
            return ("c", int({"R_IsNA": c == "NA", "R_IsNaN": c == "NaN"}.get(n, c in ("NA", "NaN"))))
        if n.startswith("llvm.fabs"):
            c = self.dcls(a[0])
            return ("dc", 0.0) if c == "zero" else None
        if n.startswith("llvm.abs"):
            if a[0][0] == "c":
                return ("c", abs(a[0][1]))
            if a[0][0] == "sgn":
                return ("abs", a[0])
        if n == "abs":
            return ("c", abs(a[0][1])) if a[0][0] == "c" else ("abs", a[0]) if a[0][0] == "sgn" else None
        if n == "strcmp" and all(x[0] == "chars" for x in a):
            r = self.case.order(a[0][1], a[1][1])
            return {"<": ("sgn", -1), ">": ("sgn", 1), "=": ("c", 0)}.get(r)
        if n in ("R_CHAR",) and a[0][0] == "p":
            return ("chars", a[0][1])
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
            return ("undef",)
        if n in ("Rf_protect",):
            return a[0]
        if n == "Rf_unprotect":
            return ("undef",)
        if n.startswith("llvm.expect"):
            return a[0]
        return None

    def step(self, env, i):
        op = i.op
        a = [self.val(env, x) for x in i.a]
        if op == "getelementptr":
            idx = []
            sc = i.sc or []
            for x, s in zip(a[1:], sc):
                if x[0] == "c":
                    idx.append((x, s))
                else:
                    idx.append((self.strip(x), s))
            base = a[0]
            return self.addr(base, i.off or 0, idx) if (idx or i.off) else base
        if op == "load":
            return self.load(a[0], i.t)
        if op == "icmp":
            r = self.icmp(i.p, a[0], a[1])
            return ("c", int(r)) if r is not None else self.norm_icmp(i.p, a[0], a[1])
        if op == "fcmp":
            r = self.fcmp(i.p, a[0], a[1])
            return ("c", int(r)) if r is not None else ("fcmp", i.p, a[0], a[1])
        if op in ("zext", "sext", "trunc"):
            x = a[0]
            if op == "trunc" and x[0] == "bits":
                return ("low", x[1])
            if x[0] == "c":
                v = x[1]
                if op == "trunc":
                    bits = {"i1": 1, "i8": 8, "i16": 16, "i32": 32}.get(i.t, 64)
                    v &= (1 << bits) - 1
                    if bits > 1 and v >= 1 << (bits - 1):
                        v -= 1 << bits
                if i.frm == "i1":
                    v = (v & 1) * (-1 if op == "sext" else 1)
                return ("c", v)
            if x[0] == "sgn":
                if op == "trunc":
                    return ("c", 1) if i.t == "i1" and False else ("trunc", i.t, x)
                return x
            return x
        if op in ("bitcast",):
            if i.t == "i64":
                return ("bits", a[0])
            return a[0]
        if op == "select":
            t = self.truth(a[0], ())
            if t is None:
                return ("sel", a[0], a[1], a[2])
            return a[1] if t else a[2]
        if op == "insertvalue":
            k = i.idx if not isinstance(i.idx, (list, tuple)) else i.idx[0]
            cur = a[0] if a[0][0] == "agg" else ("agg", ("undef",), ("undef",))
            l = list(cur)
            if k is None:
                k = 0 if l[1] == ("undef",) else 1
            l[1 + k] = a[1]
            return tuple(l)
        if op == "extractvalue":
            k = i.idx if not isinstance(i.idx, (list, tuple)) else i.idx[0]
            if a[0][0] == "agg" and k is not None:
                return a[0][1 + k]
            return ("xv", k, a[0])
        if op == "freeze":
            return a[0]
        if op in ("fneg", "fsub", "fadd", "fmul", "fdiv"):
            if op == "fadd" and len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if self.dcls(x) == "zero" and y == ("dc", 0.0):
                        return ("dc", 0.0)
            return (op,) + tuple(a)
        if len(a) == 2:
            x, y = a
            if x[0] == "c" and y[0] == "c":
                v = self.arith(op, x[1], y[1])
                if v is not None:
                    return ("c", v)
            if op == "xor" and y in (("c", 1), ("c", -1)) and i.t == "i1":
                return x[1] if x[0] == "not" else ("not", x)
            if op == "sdiv" and x[0] == "sgn" and y == ("abs", x):
                return ("c", x[1])
            if op == "sub" and x == ("c", 0) and y[0] == "sgn":
                return ("sgn", -y[1])
            if op in ("and", "or") and i.t == "i1":
                for p, q in ((x, y), (y, x)):
                    if p[0] == "c":
                        return q if (p[1] & 1) == (op == "and") else p
            if op == "mul":
                for p, q in ((x, y), (y, x)):
                    if p == ("c", 0):
                        return p
                    if p[0] == "c" and q[0] == "sgn" and p[1] in (1, -1):
                        return ("sgn", p[1] * q[1])
            return (op, x, y)
        return (op,) + tuple(a)

    def norm_icmp(self, p, a, b):
        if p in ("eq", "ne") and (b < a if isinstance(a, tuple) and self.cmpable(a, b) else False):
            a, b = b, a
        if p == "ne":
            return ("not", ("icmp", "eq", a, b))
        return ("icmp", p, a, b)

    def cmpable(self, a, b):
        return False

    def strip(self, x):
        return x

    @staticmethod
    def arith(op, x, y):
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if op == "mul":
            return x * y
        if op == "and":
            return x & y
        if op == "or":
            return x | y
        if op == "xor":
            return x ^ y
        if op == "sdiv" and y:
            return int(x / y)
        if op == "shl":
            return x << y
        return None
