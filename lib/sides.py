"""Which operand does a value come from?

`Sides(M).stems(f, v)` is the set of operand names the value is computed from:
names of parameters, of fields of struct parameters, and, for routines called
with an argument list, the names the R caller passes. Label prefixes and
suffixes (p_, _arg, ffi_) are dropped, so an operand and its label share a
stem."""
import re
import cside


def stem(n):
    n = re.sub(r"\.coerce\d$", "", n)
    n = n.lstrip(".")
    ch = True
    while ch:
        ch = False
        for p in ("p_", "ffi_", "v_"):
            if n.startswith(p) and len(n) > len(p):
                n, ch = n[len(p):], True
    n = re.sub(r"_(arg|lazy|obj|proxy|name|tag)_?$", "", n)
    n = re.sub(r"_$", "", n)
    return n


class Sides:
    def __init__(self, M, extnames=None):
        self.M = M
        self.cg = cside.const_globals(M)
        self.ext = extnames or {}      # function -> {ssa id: name}
        self.memo = {}
        self.stores = {}

    def field(self, g):
        s = self.M.structs.get((g.st or "").replace("%", "").replace("struct.", ""))
        for f in s or ():
            if f[0] == g.off:
                return f[1], f[2]
        return None

    def storemap(self, f):
        m = self.stores.get(f.name)
        if m is None:
            m = {}
            for i in f.insts():
                if i.op == "store" and isinstance(i.a[1], int):
                    b, off = self.base(f, i.a[1])
                    m.setdefault((b, off), []).append(i)
            self.stores[f.name] = m
        return m

    def base(self, f, p):
        off = 0
        d = f.defs.get(p) if isinstance(p, int) else None
        while d is not None and d.op in ("getelementptr", "bitcast") and (d.op == "bitcast" or d.off is not None):
            off += d.off or 0
            p = d.a[0]
            d = f.defs.get(p) if isinstance(p, int) else None
        return p, off

    def stems(self, f, v, depth=0, seen=None):
        if seen is None:
            seen = set()
        if not isinstance(v, int) or depth > 14 or (f.name, v) in seen:
            return frozenset()
        seen.add((f.name, v))
        M = self.M
        e = self.ext.get(f.name, {})
        if v in e:
            return frozenset([stem(e[v])])
        if v < f.nargs:
            n = f.argname(v)
            return frozenset([stem(n)]) if n else frozenset()
        i = f.defs.get(v)
        if i is None:
            return frozenset()
        r = set()
        if i.op == "load":
            p = i.a[0]
            if isinstance(p, tuple):
                fact = self.cg.get((p[1], p[2])) if p[0] == "g" else None
                if fact and fact[0] == "sym":
                    r.add(stem(fact[1]))
                elif p[0] == "g":
                    n = M.gfield(p[1], p[2])
                    if n and p[1] == "vec_args" and n != "empty":
                        r.add(stem(n))
                return frozenset(r)
            b, off = self.base(f, p)
            g = f.defs.get(p)
            bd = f.defs.get(b) if isinstance(b, int) else None
            if bd is not None and bd.op == "alloca":
                for s in self.storemap(f).get((b, off), ()):
                    r |= self.stems(f, s.a[0], depth + 1, seen)
                return frozenset(r)
            if g is not None and g.op == "getelementptr":
                fl = self.field(g)
                if fl and fl[0]:
                    return frozenset([stem(fl[0])])
            if isinstance(b, int) and b < f.nargs:
                return self.stems(f, b, depth + 1, seen)
            return self.stems(f, b, depth + 1, seen) if isinstance(b, int) else frozenset()
        if i.op == "alloca":
            for (b, off), ss in self.storemap(f).items():
                if b == v:
                    for s in ss:
                        r |= self.stems(f, s.a[0], depth + 1, seen)
            for u in f.uses.get(v, ()):
                if u.op == "call" and u.f and (u.f.startswith("llvm.memcpy")) and u.a[0] == v:
                    r |= self.stems(f, u.a[1], depth + 1, seen)
                # a struct filled in through a pointer by a constructor
                elif u.op == "call" and u.f in M.funcs and u.a and u.a[0] == v and M.funcs[u.f].args[0]["n"] in ("agg.result",):
                    for x in u.a[1:]:
                        r |= self.stems(f, x, depth + 1, seen)
            return frozenset(r)
        if i.op == "phi":
            for x, _ in i.inn:
                r |= self.stems(f, x, depth + 1, seen)
            return frozenset(r)
        if i.op == "getelementptr":
            fl = self.field(i)
            b, off = self.base(f, v)
            bd = f.defs.get(b) if isinstance(b, int) else None
            if bd is not None and bd.op == "alloca":
                for s in self.storemap(f).get((b, off), ()):
                    r |= self.stems(f, s.a[0], depth + 1, seen)
                return frozenset(r)
            if fl and fl[0] and isinstance(i.a[0], int):
                return frozenset([stem(fl[0])])
            return self.stems(f, i.a[0], depth + 1, seen)
        if i.op == "call":
            for x in i.a:
                r |= self.stems(f, x, depth + 1, seen)
            return frozenset(r)
        for x in i.a or ():
            r |= self.stems(f, x, depth + 1, seen)
        return frozenset(r)
