"""Conditional constant propagation over a function's CFG for given constant
arguments: which outcomes (returned value, stores through pointer parameters,
calls on the way) remain possible once every branch decided by constants is
decided. Branches on anything else keep both sides."""
from ir import NULL

UNK = ("?",)


class Out:
    __slots__ = ("ret", "st", "calls", "noret")

    def __init__(self, ret, st, calls, noret=False):
        self.ret = ret
        self.st = st
        self.calls = calls
        self.noret = noret

    def key(self):
        return (self.ret, tuple(sorted(self.st.items(), key=str)), self.calls, self.noret)


class CProp:
    """descend: set of function basenames evaluated interprocedurally."""

    def __init__(self, M, noret=(), descend=(), limit=4000, assume=None):
        self.M = M
        self.noret = set(noret)
        self.descend = set(descend)
        self.limit = limit
        self.truncated = False
        self.assume = assume or {}   # callee -> fn(args): the value this analysis assumes it has

    def val(self, f, env, v):
        if isinstance(v, int):
            return env.get(v, ("a", v) if v < f.nargs else UNK)
        if v == NULL:
            return ("c", 0)
        return v

    def run(self, f, args, depth=0):
        """args: list of values (('c', n) | ('p', k) pointer token | other)."""
        outs = {}
        work = [(0, None, dict(enumerate(args)), {}, ())]
        seen = set()
        n = 0
        while work:
            bi, prev, env, st, calls = work.pop()
            k = (bi, prev, tuple(sorted(((a, b) for a, b in env.items() if b != UNK), key=str)), tuple(sorted(st.items(), key=str)), calls)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > self.limit:
                self.truncated = True
                break
            env = dict(env)
            st = dict(st)
            blk = f.blocks[bi]
            # phis first, simultaneously
            upd = {}
            for i in blk:
                if i.op != "phi":
                    break
                for v, p in i.inn:
                    if p == prev:
                        upd[i.id] = self.val(f, env, v)
            env.update(upd)
            branch = [(env, st, calls)]
            for i in blk:
                if i.op == "phi":
                    continue
                if i.op == "call" and i.f and self.M.basename(i.f) in self.descend and depth < 6 and i.f in self.M.funcs:
                    nb = []
                    g = self.M.funcs[i.f]
                    for e, s, c in branch:
                        av = [self.val(f, e, x) for x in i.a]
                        for o in self.run(g, av, depth + 1):
                            if o.noret:
                                out = Out(None, {**s, **o.st}, c + o.calls, True)
                                outs[out.key()] = out
                                continue
                            e2 = dict(e)
                            e2[i.id] = o.ret if o.ret is not None else UNK
                            nb.append((e2, {**s, **o.st}, c + o.calls))
                    branch = nb
                    continue
                dead = False
                nb = []
                for e, s, c in branch:
                    r = self.step(f, i, e, s, c)
                    if r == "stop":
                        o = Out(None, s, c + (self.M.basename(i.f),), True)
                        outs[o.key()] = o
                        continue
                    nb.append(r)
                branch = nb
            for env, st, calls in branch:
                t = blk[-1]
                if t.op == "ret":
                    r = self.val(f, env, t.a[0]) if t.a else None
                    o = Out(r, st, calls)
                    outs[o.key()] = o
                elif t.op == "br":
                    if t.a and len(t.s) == 2:
                        cv = self.val(f, env, t.a[0])
                        if cv[0] == "c":
                            # br cond, true, false: t.s order = (true, false)
                            nxt = [t.s[0] if cv[1] & 1 else t.s[1]]
                        else:
                            nxt = list(dict.fromkeys(t.s))
                    else:
                        nxt = [t.s[0]]
                    for b in nxt:
                        work.append((b, bi, env, st, calls))
                elif t.op == "switch":
                    cv = self.val(f, env, t.a[0])
                    if cv[0] == "c":
                        nxt = [dict(t.cases).get(cv[1], t.deflt)]
                    else:
                        nxt = list(dict.fromkeys([c[1] for c in t.cases] + [t.deflt]))
                    for b in nxt:
                        work.append((b, bi, env, st, calls))
                else:
                    o = Out(None, st, calls, True)
                    outs[o.key()] = o
        return list(outs.values())

    def step(self, f, i, e, s, c):
        op = i.op
        A = [self.val(f, e, x) for x in i.a]
        if op == "call":
            b = self.M.basename(i.f) if i.f else None
            if b and b.startswith("llvm."):
                return e, s, c
            if b in self.noret:
                return "stop"
            e = dict(e)
            if b in self.assume:
                e[i.id] = self.assume[b](A)
                return e, s, c
            if b in ("Rf_protect",):
                e[i.id] = A[0]
                return e, s, c
            if b in ("Rf_unprotect",):
                return e, s, c
            e[i.id] = ("call", b, tuple(A))
            return e, s, c + ((b, tuple(A)),)
        if op == "store":
            p = A[1]
            if p[0] in ("a", "p", "alloca"):
                s = dict(s)
                s[p] = A[0]
            return e, s, c
        if op == "load":
            p = A[0]
            e = dict(e)
            if p in s:
                e[i.id] = s[p]
            elif p[0] == "g":
                e[i.id] = ("ld", p[1], p[2])
            elif p[0] in ("arg", "fld"):
                e[i.id] = ("ld*", p)     # memory reached from an argument: fixed for the call
            else:
                e[i.id] = UNK
            return e, s, c
        e = dict(e)
        r = UNK
        if op == "alloca":
            r = ("alloca", (f.name, i.id))
        elif op in ("gep", "getelementptr") and A and A[0][0] in ("arg", "fld") and (i.off is not None):
            r = ("fld", A[0], i.off)
        elif op in ("zext", "sext", "trunc", "bitcast", "freeze"):
            r = A[0]
        elif op == "icmp" and len(A) == 2:
            a, b = A
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                p = i.p
                u = lambda v: v & 0xFFFFFFFFFFFFFFFF
                tab = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                       "ult": u(x) < u(y), "ule": u(x) <= u(y), "ugt": u(x) > u(y), "uge": u(x) >= u(y)}
                r = ("c", int(tab[p]))
            elif a == b and a != UNK and i.p in ("eq", "ne"):
                r = ("c", int(i.p == "eq"))
        elif op == "select" and len(A) == 3:
            if A[0][0] == "c":
                r = A[1] if A[0][1] & 1 else A[2]
            elif A[1] == A[2]:
                r = A[1]
        elif op in ("xor", "and", "or", "add", "sub") and len(A) == 2 and A[0][0] == "c" and A[1][0] == "c":
            x, y = A[0][1], A[1][1]
            r = ("c", {"xor": x ^ y, "and": x & y, "or": x | y, "add": x + y, "sub": x - y}[op])
        e[i.id] = r
        return e, s, c
