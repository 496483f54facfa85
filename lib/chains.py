"""Backward chains: through which operations has a value gone on its way from
the entry points?

local(f, v) is the set of (ops, src) such that v may be src with ops applied,
outermost operation first. An operation is (name, detail); src is a parameter,
a field of a struct parameter, or something else the walk ends at. Values are
followed through SSA, local structs, and the return values of internal
functions; a chain that ends at a parameter can be continued into the callers.
"""
import cside
from ir import NULL

MAXOPS = 8
LIMIT = 60


class Spec:
    def __init__(self, name, x=0, to=None, field=None, tofield=None, detail=None, sym=None):
        self.sym = sym
        self.name, self.x, self.to, self.field, self.tofield, self.detail = name, x, to, field, tofield, detail


IDENT = {"Rf_protect": 0, "r_clone_referenced": 0, "r_clone": 0, "Rf_shallow_duplicate": 0, "Rf_duplicate": 0, "PROTECT_N": 0, "r_expr_protect": 0,
         "vec_clone_referenced": 0, "r_clone_shared": 0, "r_copy_in": 0}


ARRAYS = {"VECTOR_PTR_RO", "VECTOR_PTR", "DATAPTR_RO", "DATAPTR", "STRING_PTR_RO", "STRING_PTR"}


class Chains:
    def __init__(self, M, ops, S):
        self.M, self.ops, self.S = M, ops, S
        self.memo = {}
        self.active = set()
        # function -> (caller, call, arguments)
        self.callers = {}
        # functions handing out the array of elements of their argument
        self.arrays = set(ARRAYS)
        ch = True
        while ch:
            ch = False
            for f in M.funcs.values():
                if f.name not in self.arrays:
                    rv = [i.a[0] for i in f.insts() if i.op == "ret" and i.a]
                    d = f.defs.get(rv[0]) if len(rv) == 1 and isinstance(rv[0], int) else None
                    if d is not None and d.op == "call" and d.f in self.arrays and d.a and d.a[0] == 0:
                        self.arrays.add(f.name)
                        ch = True
        self.indirect = 0
        for f in M.funcs.values():
            for i in f.calls():
                if i.f in M.funcs:
                    self.callers.setdefault(i.f, []).append((f, i, i.a))
                # called back with the data handed over next to it
                for k, a in enumerate(i.a):
                    if isinstance(a, tuple) and a[0] in ("f", "g") and a[1] in M.funcs and i.f != a[1]:
                        g = M.funcs[a[1]]
                        if k + 1 < len(i.a) and g.nargs == 1 and i.f not in M.funcs:
                            self.callers.setdefault(a[1], []).append((f, i, i.a[k + 1:k + 2]))
        for f in M.funcs.values():
            for i in f.calls():
                if not i.f and isinstance(i.fp, int):
                    for n in self.fnvals(f, i.fp, set()):
                        if len(i.a) == M.funcs[n].nargs:
                            self.indirect += 1
                            self.callers.setdefault(n, []).append((f, i, i.a))

    def fnvals(self, f, v, seen):
        """internal functions a function pointer may be, if all are visible"""
        M = self.M
        if isinstance(v, tuple):
            return {v[1]} if v[0] in ("f", "g") and v[1] in M.funcs else set()
        if (f.name, v) in seen:
            return set()
        seen.add((f.name, v))
        r = set()
        if v < f.nargs:
            for h, _, args in list(self.callers.get(f.name, ())):
                if v < len(args):
                    r |= self.fnvals(h, args[v], seen)
            return r
        d = f.defs.get(v)
        if d is None:
            return r
        if d.op == "phi":
            for x, _ in d.inn:
                r |= self.fnvals(f, x, seen)
        elif d.op == "select":
            for x in d.a[1:]:
                r |= self.fnvals(f, x, seen)
        elif d.op == "call" and d.f in M.funcs:
            g = M.funcs[d.f]
            for x in self.retvals(g):
                r |= self.fnvals(g, x, seen)
        return r

    # -- keys: identity of a value within a frame
    def key(self, f, v, depth=0):
        while isinstance(v, int) and depth < 10:
            if v < f.nargs:
                return ("p", v)
            d = f.defs.get(v)
            if d is None:
                break
            if d.op == "call" and self.M.basename(d.f) in ("Rf_protect", "PROTECT_N"):
                v = d.a[0]
            elif d.op in ("bitcast",):
                v = d.a[0]
            elif d.op == "call" and d.f in self.M.funcs and self.M.basename(d.f) in IDENT:
                v = d.a[0]
            else:
                break
            depth += 1
        if isinstance(v, int):
            return ("v", f.name, v)
        return ("c", v)

    def rekey(self, k, f, args):
        """a key of a callee's frame in the caller's"""
        if k and k[0] == "p" and k[1] < len(args):
            return self.key(f, args[k[1]])
        return k

    def local(self, f, v):
        m = (f.name, v)
        r = self.memo.get(m)
        if r is not None:
            return r
        if m in self.active:
            return frozenset()
        self.active.add(m)
        r = frozenset(list(self._local(f, v))[:LIMIT])
        self.active.discard(m)
        if not self.active:
            self.memo[m] = r
        return r

    def wrap(self, op, chains):
        return {((op,) + o if len(o) < MAXOPS else o, s) for o, s in chains}

    def _local(self, f, v):
        M = self.M
        if not isinstance(v, int):
            if v == NULL:
                return {((), ("null",))}
            return {((), ("const",) + tuple(v[:2]))}
        if v < f.nargs:
            return {((), ("p", v))}
        d = f.defs.get(v)
        if d is None:
            return {((), ("?",))}
        if d.op == "phi":
            r = set()
            for x, _ in d.inn:
                r |= self.local(f, x)
            return r
        if d.op == "select":
            return self.local(f, d.a[1]) | self.local(f, d.a[2])
        if d.op == "bitcast":
            return self.local(f, d.a[0])
        if d.op == "load":
            return self.load(f, d.a[0])
        if d.op == "call":
            return self.call(f, d)
        return {((), ("?",))}

    def load(self, f, p):
        if isinstance(p, tuple):
            return {((), ("glob", p[1]))}
        arr = self.array_of(f, p)
        if arr is not None:
            return self.wrap(("elem", None), self.local(f, arr))
        b, off = self.S.base(f, p)
        if isinstance(b, tuple):
            return {((), ("glob", b[1]))}
        if b < f.nargs:
            return {((), ("pf", b, off))}
        d = f.defs.get(b)
        r = set()
        if d is not None and d.op == "call" and self.M.basename(d.f) in self.ops:
            # field of a structure made from a vector
            return self.local(f, b)
        if d is not None:
            for s in self.S.storemap(f).get((b, off), ()):
                r |= self.local(f, s.a[0])
            for u in f.uses.get(b, ()):
                if u.op == "call" and (u.f or "").startswith("llvm.memcpy") and u.a[0] == b:
                    b2, o2 = self.S.base(f, u.a[1])
                    if isinstance(b2, int) and b2 < f.nargs:
                        r.add(((), ("pf", b2, o2 + off)))
            if d.op == "load" and not r:
                # element of an array: keep the array
                return {((), ("mem",))}
        return r or {((), ("mem",))}

    def array_of(self, f, p):
        """the list whose array of elements p points into"""
        seen, dyn = set(), False
        while isinstance(p, int) and p >= f.nargs and p not in seen:
            seen.add(p)
            d = f.defs.get(p)
            if d is None:
                return None
            if d.op in ("getelementptr", "bitcast"):
                dyn |= d.op == "getelementptr" and d.off is None
                p = d.a[0]
            elif d.op == "phi":
                dyn = True
                c = [x for x, _ in d.inn if x not in seen]
                if len(c) != 1:
                    c = [x for x in c if not (isinstance(x, int) and f.defs.get(x) is not None and f.defs[x].op == "getelementptr" and f.defs[x].a[0] == p)]
                if len(c) != 1:
                    return None
                p = c[0]
            elif d.op == "call" and d.a and d.f in self.arrays:
                return d.a[0]
            else:
                return None
        if isinstance(p, int) and p < f.nargs and dyn:
            return p
        return None

    def call(self, f, d):
        M = self.M
        b = M.basename(d.f)
        if d.f in self.arrays and d.a:
            return self.wrap(("data", None), self.local(f, d.a[0]))
        if b in IDENT and d.a:
            return self.local(f, d.a[IDENT[b]])
        sp = self.ops.get(b)
        if sp is not None:
            if sp.field is not None:
                bb, off = self.S.base(f, d.a[sp.x])
                xs = self.fieldvals(f, bb, off + sp.field)
                tk = None
                if sp.tofield is not None:
                    ts = self.S.storemap(f).get((bb, off + sp.tofield), ())
                    tk = self.key(f, ts[0].a[0]) if len(ts) == 1 else ("pf", bb, off + sp.tofield) if isinstance(bb, int) and bb < f.nargs else ("v", f.name, d.id)
                return self.wrap((sp.name, tk), xs)
            det = sp.detail
            if sp.sym is not None:
                det = ("sym", cside.symname(M, f, d.a[sp.sym], self.S.cg))
            if sp.to is not None:
                det = self.key(f, d.a[sp.to])
            return self.wrap((sp.name, det), self.local(f, d.a[sp.x]))
        if b in ("VECTOR_ELT", "r_list_get"):
            return self.elem(f, d.a[0], d.a[1])
        if b in ("STRING_ELT", "r_chr_get"):
            return self.wrap(("elt", None), self.local(f, d.a[0]))
        g = M.funcs.get(d.f)
        if g is None:
            return {((), ("fresh", b))}
        return self.returned(f, g, d)

    def fieldvals(self, f, b, off):
        if isinstance(b, int) and b < f.nargs:
            return {((), ("pf", b, off))}
        r = set()
        for s in self.S.storemap(f).get((b, off), ()):
            r |= self.local(f, s.a[0])
        return r or {((), ("mem",))}

    def retvals(self, g):
        return [i.a[0] for i in g.insts() if i.op == "ret" and i.a]

    def returned(self, f, g, d):
        r = set()
        for v in self.retvals(g):
            for ops, src in self.local(g, v):
                r |= self.substitute(f, d.a, ops, src)
        return r or {((), ("fresh", g.base))}

    def substitute(self, f, args, ops, src):
        """a chain of a callee's frame in the frame of its caller"""
        ops = tuple((n, self.rekey(k, f, args)) for n, k in ops)
        if src[0] == "p":
            if src[1] >= len(args):
                return {(ops, ("?",))}
            return {(ops + o if len(ops + o) <= 2 * MAXOPS else ops, s) for o, s in self.local(f, args[src[1]])}
        if src[0] == "pf":
            if src[1] >= len(args):
                return {(ops, ("?",))}
            b, off = self.S.base(f, args[src[1]]) if isinstance(args[src[1]], int) else (args[src[1]], 0)
            if isinstance(b, tuple):
                return {(ops, ("glob", b[1] if len(b) > 1 else "null"))}
            return {(ops + o, s) for o, s in self.fieldvals(f, b, off + src[2])}
        return {(ops, src)}

    def elem(self, f, lst, idx):
        """element of a list: what was put there, or part of the container"""
        k = idx[1] if isinstance(idx, tuple) and idx[0] == "c" else None
        got = self.put(f, lst, k, 0, set())
        rest = self.wrap(("elem", k), self.local(f, lst))
        if got:
            # what a new list held before it was filled does not matter
            rest = {(o, s) for o, s in rest if s[0] != "fresh"}
        return got | rest

    def put(self, f, lst, k, depth, seen):
        """values stored at position k (any position if None) of a list made in
        f or a callee"""
        M = self.M
        if depth > 3 or not isinstance(lst, int) or (f.name, lst) in seen:
            return set()
        seen.add((f.name, lst))
        r = set()
        d = f.defs.get(lst) if lst >= f.nargs else None
        if d is None:
            return r
        if d.op == "phi":
            for x, _ in d.inn:
                r |= self.put(f, x, k, depth, seen)
            return r
        if d.op == "select":
            return self.put(f, d.a[1], k, depth, seen) | self.put(f, d.a[2], k, depth, seen)
        if d.op != "call":
            return r
        b = M.basename(d.f)
        if b in ("Rf_protect", "PROTECT_N"):
            return self.put(f, d.a[0], k, depth, seen)
        g = M.funcs.get(d.f)
        same = {lst} | {u.id for u in f.uses.get(lst, ()) if u.op == "call" and M.basename(u.f) in ("Rf_protect", "PROTECT_N")}
        for x in list(same):
            for u in f.uses.get(x, ()):
                if u.op == "phi":
                    same.add(u.id)
        for i in f.calls():
            if M.basename(i.f) in ("SET_VECTOR_ELT", "r_list_poke") and i.a[0] in same:
                c = i.a[1][1] if isinstance(i.a[1], tuple) and i.a[1][0] == "c" else None
                if c is None or k is None or c == k:
                    r |= self.local(f, i.a[2])
        if g is not None and b not in self.ops and b not in IDENT:
            for rv in self.retvals(g):
                for ops, src in self.put(g, rv, k, depth + 1, seen):
                    r |= self.substitute(f, d.a, ops, src)
        return r

    # -- towards the entry points -------------------------------------------
    def up(self, f, chain):
        """(caller, call, chain in the caller's frame)"""
        ops, src = chain
        for h, i, args in self.callers.get(f.name, ()):
            for c in self.substitute(h, args, ops, src):
                yield h, i, c
