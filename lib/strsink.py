"""Where native code tells strings apart by identity: comparing the addresses of
two cached strings, hashing an address, marking a string, or keeping an array
of strings for later use."""
ARR = {"STRING_PTR", "STRING_PTR_RO"}
KEPT = {"DATAPTR_RO", "DATAPTR", "VECTOR_PTR_RO", "VECTOR_PTR"}
SCALAR_GET = {"STRING_ELT", "r_chr_get"}


class StringSinks:
    def __init__(self, M, S):
        self.M, self.S = M, S
        self.wrappers = set(ARR)          # functions returning the array of their first argument
        ch = True
        while ch:
            ch = False
            for f in M.funcs.values():
                if f.name in self.wrappers:
                    continue
                rv = [i.a[0] for i in f.insts() if i.op == "ret" and i.a]
                if len(rv) == 1 and isinstance(rv[0], int):
                    d = f.defs.get(rv[0])
                    if d is not None and d.op == "call" and d.f in self.wrappers and d.a and d.a[0] == 0:
                        self.wrappers.add(f.name)
                        ch = True
        self.bytes = {"R_CHAR", "CHAR"}
        for f in M.funcs.values():
            rv = [i.a[0] for i in f.insts() if i.op == "ret" and i.a]
            if len(rv) == 1 and isinstance(rv[0], int):
                d = f.defs.get(rv[0])
                if d is not None and d.op == "call" and d.f in self.bytes and d.a and d.a[0] == 0:
                    self.bytes.add(f.name)
        self.SC, self.AC = {}, {}         # (function, parameter) used as scalar string / array by identity
        self.sinks = {}                   # (function, value) -> (why, inst)
        ch = True
        while ch:
            ch = False
            for f in M.funcs.values():
                for i in f.insts():
                    ch |= self.step(f, i)

    def base(self, f, p):
        st, seen, out = [p], set(), set()
        while st:
            p = st.pop()
            if p in seen:
                continue
            seen.add(p)
            d = f.defs.get(p) if isinstance(p, int) else None
            if d is None:
                out.add(p)
            elif d.op in ("getelementptr", "bitcast"):
                st.append(d.a[0])
            elif d.op == "phi":
                st += [x for x, _ in d.inn]
            elif d.op == "select":
                st += list(d.a[1:])
            else:
                out.add(p)
        return out

    def step(self, f, i):
        M = self.M
        ch = False
        if i.op == "icmp" and len(i.a) == 2 and all(isinstance(x, int) for x in i.a):
            # comparing with a string held in a global is a test for NA or a constant
            for x in i.a:
                d = f.defs.get(x)
                if d is not None and d.op == "load" and isinstance(d.a[0], tuple):
                    return False
            for x in i.a:
                ch |= self.elem(f, x, "compared", i, set())
        elif i.op == "ptrtoint":
            ch |= self.elem(f, i.a[0], "hashed", i, set())
        elif i.op == "call":
            b = M.basename(i.f)
            if b in ("TRUELENGTH", "SET_TRUELENGTH"):
                ch |= self.elem(f, i.a[0], "marked", i, set())
            if b in ("strcmp", "strncmp", "memcmp", "strcoll"):
                cs = [self.chars(f, a) for a in i.a[:2]]
                if all(c is not None for c in cs):
                    for c in cs:
                        ch |= self.elem(f, c, "compared", i, set())
            if i.f in M.funcs:
                for k, a in enumerate(i.a):
                    if (i.f, k) in self.SC:
                        ch |= self.elem(f, a, self.SC[i.f, k], i, set())
                    if (i.f, k) in self.AC:
                        for x in self.base(f, a):
                            ch |= self.arr(f, x, self.AC[i.f, k], i)
        elif i.op == "store":
            d = f.defs.get(i.a[0]) if isinstance(i.a[0], int) else None
            if d is not None and d.op == "call" and (d.f in self.wrappers or d.f in KEPT) and d.a:
                b, _ = self.S.base(f, i.a[1])
                bd = f.defs.get(b) if isinstance(b, int) else None
                if bd is None or bd.op != "alloca":
                    ch |= self.sink(f, d.a[0], "kept", i)
        return ch

    def chars(self, f, v):
        """the string whose bytes v points to"""
        d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        if d is not None and d.op == "call" and d.a and d.f in self.bytes:
            return d.a[0]
        return None

    def elem(self, f, v, why, inst, seen):
        if not isinstance(v, int) or v in seen:
            return False
        seen.add(v)
        if v < f.nargs:
            if (f.name, v) not in self.SC:
                self.SC[f.name, v] = why
                return True
            return False
        d = f.defs.get(v)
        if d is None:
            return False
        ch = False
        if d.op == "phi":
            for x, _ in d.inn:
                ch |= self.elem(f, x, why, inst, seen)
        elif d.op == "select":
            for x in d.a[1:]:
                ch |= self.elem(f, x, why, inst, seen)
        elif d.op == "bitcast":
            ch |= self.elem(f, d.a[0], why, inst, seen)
        elif d.op == "load":
            for a in self.base(f, d.a[0]):
                ch |= self.arr(f, a, why, inst)
        elif d.op == "call" and self.M.basename(d.f) in SCALAR_GET:
            ch |= self.sink(f, d.a[0], why, inst)
        return ch

    def arr(self, f, a, why, inst):
        if not isinstance(a, int):
            return False
        if a < f.nargs:
            if (f.name, a) not in self.AC:
                self.AC[f.name, a] = why
                return True
            return False
        d = f.defs.get(a)
        if d is not None and d.op == "call" and d.f in self.wrappers and d.a:
            return self.sink(f, d.a[0], why, inst)
        return False

    def sink(self, f, s, why, inst):
        if (f.name, s) in self.sinks:
            return False
        self.sinks[f.name, s] = (why, inst)
        return True
