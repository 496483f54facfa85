"""Garbage-collection discipline: path-sensitive simulation of R's protection
stack over the SSA form, with bottom-up function summaries.

Abstract objects ("tokens") are created where an unrooted R object can appear:
results of allocating calls, and (for summaries) formal parameters. An object
is rooted while it sits on the protection stack, or is reachable from a rooted
object, or was registered for the session. A function violates the discipline
when an object that is still needed is not rooted at a call that may allocate.
"""
from ir import NULL

# ---------------------------------------------------------------- R API facts
# External functions that cannot run the collector. Everything else that is
# not defined in the package is taken to allocate.
NOALLOC = set("""
ALTREP ALTREP_CLASS ATTRIB BODY CADDR CADR CAR CDDR CDR CLOENV COMPLEX COMPLEX_RO DATAPTR_RO ENCLOS EXTPTR_PROT
EXTPTR_TAG FORMALS FRAME HASHTAB INTEGER INTEGER_RO IS_S4_OBJECT LEVELS LOGICAL LOGICAL_RO MARK_NOT_MUTABLE OBJECT
PRENV PRINTNAME PRVALUE RAW RAW_RO REAL REAL_RO REFCNT R_ActiveBindingFunction R_BindingIsActive R_CHAR R_CheckStack2
R_ExternalPtrAddr R_IsNA R_IsNamespaceEnv R_PromiseExpr R_ProtectWithIndex R_Reprotect R_altrep_data1 R_altrep_data2
R_set_altrep_Inspect_method R_set_altrep_Length_method R_set_altrep_data2 R_set_altstring_Elt_method
R_set_altstring_Set_elt_method R_set_altvec_Dataptr_method R_set_altvec_Dataptr_or_null_method
R_set_altvec_Extract_subset_method R_useDynamicSymbols Rf_GetOption1 Rf_ScalarLogical Rf_findVarInFrame3 Rf_findVar
Rf_getCharCE Rf_inherits Rf_isNull Rf_isVectorList Rf_length Rf_ncols Rf_onintr Rf_protect Rf_str2type Rf_type2char
Rf_type2str Rf_unprotect Rf_xlength SETCAR SETCDR SETLENGTH SET_ATTRIB SET_BODY SET_CLOENV SET_ENCLOS SET_FORMALS
SET_GROWABLE_BIT SET_OBJECT SET_S4_OBJECT SET_STRING_ELT SET_TAG SET_TRUELENGTH SET_VECTOR_ELT STDVEC_DATAPTR
STRING_ELT STRING_PTR STRING_PTR_RO TAG TRUELENGTH TYPEOF UNSET_S4_OBJECT VECTOR_ELT __ctype_b_loc getenv getppid
qsort snprintf strcmp strlen strtol vmaxget vmaxset vsnprintf memcpy memset memmove memcmp strncmp strncpy strcpy
R_registerRoutines R_IsNaN ISNAN strchr strrchr strstr isalpha isdigit fabs floor ceil round log pow abs
Rf_isFactor Rf_isFrame Rf_isFunction Rf_isArray Rf_isMatrix Rf_isObject Rf_isString Rf_nrows ANY_ATTRIB MISSING NAMED
SHALLOW_DUPLICATE_ATTRIB_ R_EnvironmentIsLocked RSTEP SET_MISSING SETCADR SETCADDR SETCADDDR R_CheckUserInterrupt
LOGICAL_ELT INTEGER_ELT REAL_ELT COMPLEX_ELT RAW_ELT XLENGTH LENGTH IS_LONG_VEC MAYBE_SHARED MAYBE_REFERENCED
NO_REFERENCES SET_NAMED GROWABLE_BIT_SET IS_GROWABLE R_nchar_ INCREMENT_REFCNT DECREMENT_REFCNT Rf_isSymbol
""".split())
# External allocators whose result is not a fresh object (registered forever,
# reachable from an argument, or not an object).
NOTFRESH = set("""
Rf_install Rf_installChar R_PreserveObject Rf_ScalarLogical Rf_findVar Rf_findVarInFrame3 Rf_GetOption1 Rf_setAttrib
R_GetCCallable R_RegisterCCallable Rf_error Rf_errorcall Rf_defineVar R_MakeActiveBinding R_removeVarFromFrame
Rf_type2str Rf_PrintValue Rprintf Rf_copyMostAttrib R_alloc Rf_translateChar Rf_translateCharUTF8 vmaxget
R_ExternalPtrAddr R_make_altstring_class R_ActiveBindingFunction
""".split())
# External allocators that protect these arguments themselves.
SAFEARGS = {
    "Rf_cons": "*", "Rf_lcons": "*", "Rf_lang1": "*", "Rf_lang2": "*", "Rf_lang3": "*", "Rf_lang4": "*",
    "Rf_list1": "*", "Rf_list2": "*", "Rf_setAttrib": "*", "Rf_ScalarString": "*", "Rf_duplicate": "*",
    "Rf_shallow_duplicate": "*", "R_MakeExternalPtr": "*", "R_new_altrep": "*", "R_PreserveObject": "*",
    "Rf_copyMostAttrib": "*", "Rf_installChar": "*", "Rf_defineVar": {0, 1}, "Rf_error": "*", "Rf_errorcall": "*",
    "Rf_getAttrib": "*", "Rf_translateChar": "*", "Rf_translateCharUTF8": "*",
}
# result object contains these arguments
RESHOLDS = {"Rf_cons": (0, 1), "Rf_lcons": (0, 1), "Rf_lang1": (0,), "Rf_lang2": (0, 1), "Rf_lang3": (0, 1, 2),
            "Rf_lang4": (0, 1, 2, 3), "Rf_list1": (0,), "Rf_list2": (0, 1), "Rf_ScalarString": (0,),
            "R_MakeExternalPtr": (1, 2), "R_new_altrep": (1, 2), "R_NewEnv": (0,)}
# (value, container)
STOREIN = {"SET_VECTOR_ELT": (2, 0), "SET_STRING_ELT": (2, 0), "SETCAR": (1, 0), "SETCDR": (1, 0), "SETCADR": (1, 0),
           "SET_TAG": (1, 0), "SET_ATTRIB": (1, 0), "Rf_setAttrib": (2, 0), "Rf_defineVar": (1, 2), "SET_ENCLOS": (1, 0),
           "SET_BODY": (1, 0), "SET_FORMALS": (1, 0), "SET_CLOENV": (1, 0), "R_set_altrep_data2": (1, 0),
           "R_set_altrep_data1": (1, 0), "R_MakeActiveBinding": (1, 2), "SETCADDR": (1, 0)}
# functions returning (a pointer into / a component of / the same as) argument 0
INTERIOR = set("INTEGER INTEGER_RO LOGICAL LOGICAL_RO REAL REAL_RO COMPLEX COMPLEX_RO RAW RAW_RO DATAPTR_RO DATAPTR "
               "STDVEC_DATAPTR STRING_PTR STRING_PTR_RO R_CHAR VECTOR_PTR_RO VECTOR_PTR".split())
CHILD = set("ATTRIB BODY CADDR CADR CAR CDDR CDR CLOENV ENCLOS EXTPTR_PROT EXTPTR_TAG FORMALS FRAME HASHTAB PRENV "
            "PRINTNAME PRVALUE R_PromiseExpr R_altrep_data1 R_altrep_data2 STRING_ELT VECTOR_ELT TAG Rf_getAttrib ALTREP_CLASS "
            "R_ActiveBindingFunction".split())
SAMEARG = {"Rf_protect": 0, "Rf_setAttrib": None}
NORETURN = {"Rf_error", "Rf_errorcall", "R_ContinueUnwind", "Rf_onintr"}

# Package functions whose result stays bound in the environment given as this argument.
BOUND_RESULT = {
    "r_env_get": (0, "a variable's value, or the value cached in its promise, stays reachable from the environment"),
}
# Package functions whose result is rooted by R itself.
ROOTED_RESULT = {
    "r_base_ns_get": "a variable of the base namespace, which is never unloaded",
    "r_peek_frame": "the environment of a function that is being evaluated: R's context stack holds it",
}

MAXSTATES = 3000
MAXDEPTH = 48
ROOT = "ROOT"


def strip_intrinsic(n):
    return n.startswith("llvm.")


class Summary:
    __slots__ = ("alloc", "noret", "ret", "unsafe", "holds", "rethold", "out", "outpar", "retmem", "net", "why", "pres", "nets")

    def __init__(self):
        self.alloc = False
        self.noret = False
        self.ret = frozenset()     # 'fresh', ('arg',k), ('child',k), 'root'
        self.unsafe = frozenset()  # args needing the caller's protection
        self.holds = frozenset()   # (value arg, container arg)
        self.rethold = frozenset()  # args held by the returned object
        self.out = ()              # ((k, off), group id, root group parent)
        self.retmem = ()
        self.net = 0
        self.nets = frozenset({0})
        self.why = {}
        self.pres = frozenset()

    def key(self):
        return (self.alloc, self.ret, self.unsafe, self.holds, self.rethold, self.out, self.retmem, self.net, self.pres)


class State:
    __slots__ = ("stack", "al", "par", "mem", "ints", "pis", "base")

    def copy(self):
        s = State()
        s.stack = self.stack
        s.al = dict(self.al)
        s.par = dict(self.par)
        s.mem = dict(self.mem)
        s.ints = dict(self.ints)
        s.pis = dict(self.pis)
        return s


class Sim:
    """Whole-module driver."""

    def __init__(self, M):
        self.M = M
        self.sum = {n: Summary() for n in M.funcs}
        self.addr = self.address_taken()
        self.callables = self.c_callables()
        self.cand = {}
        self.calls = {}
        for f in M.funcs.values():
            self.calls[f.name] = [i for i in f.calls()]
        self.compute_noret()
        self.compute_alloc()
        self.viol = {}
        self.bal = {}
        self.glob = {}
        self.nglob = {}
        self.imprecise = {}
        self.stats = {"functions": 0, "alloc_points": 0, "tokens": 0, "paths": 0, "returns": 0}

    # -- structure
    def address_taken(self):
        M = self.M
        res = set()

        def cst(v):
            if isinstance(v, tuple) and v[0] == "g" and v[1] in M.funcs:
                res.add(v[1])

        def ini(x):
            if isinstance(x, dict):
                if "g" in x and x["g"] in M.funcs:
                    res.add(x["g"])
                for y in x.get("a", ()) if isinstance(x.get("a"), list) else ():
                    ini(y)
        for g in M.globals.values():
            ini(g.get("init"))
        for f in M.funcs.values():
            for i in f.insts():
                for v in i.a:
                    cst(v)
                if i.inn:
                    for v, _ in i.inn:
                        cst(v)
        return res

    def c_callables(self):
        """Global function pointers bound to another package's C callable,
        mapped to whether the callable returns an R object."""
        M = self.M
        res = {}
        for f in M.funcs.values():
            for i in f.insts():
                if i.op == "store" and isinstance(i.a[1], tuple) and i.a[1][0] == "g" and isinstance(i.a[0], int):
                    d = f.defs.get(i.a[0])
                    if d is not None and d.op == "call" and M.basename(d.f) in ("R_GetCCallable", "r_peek_c_callable"):
                        di = (M.globals.get(i.a[1][1]) or {}).get("di", "")
                        res[i.a[1][1]] = "char" not in di
        return res

    def targets(self, i):
        """Possible defined callees of a call, and whether unknown code may run."""
        if i.f is not None:
            return ([i.f], False) if i.f in self.M.funcs else ([], i.f)
        d = i.fn.defs.get(i.fp) if isinstance(i.fp, int) else None
        if d is not None and d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g" and d.a[0][1] in self.callables:
            return [], "callable"
        key = (len(i.a), i.t or "void")
        if key not in self.cand:
            self.cand[key] = [n for n in self.addr if self.M.funcs[n].nargs == key[0] and self.M.funcs[n].ret == key[1]]
        return self.cand[key], True

    def compute_noret(self):
        M = self.M
        ch = True
        while ch:
            ch = False
            for f in M.funcs.values():
                s = self.sum[f.name]
                if s.noret:
                    continue
                if not any(b[-1].op == "ret" for b in self.reach(f)):
                    s.noret = True
                    ch = True

    def is_noret(self, i):
        if i.f is None:
            b = i.fn.blocks[i.bb]
            return i.pos + 1 < len(b) and b[i.pos + 1].op == "unreachable"
        if i.f in NORETURN:
            return True
        return i.f in self.M.funcs and self.sum[i.f].noret

    def reach(self, f):
        seen = {0}
        work = [0]
        res = []
        while work:
            b = work.pop()
            blk = f.blocks[b]
            res.append(blk)
            if any(i.op == "call" and self.is_noret(i) for i in blk):
                continue
            for s in f.succ[b]:
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        # drop the tail of blocks cut by a noreturn call
        out = []
        for blk in res:
            cut = next((k for k, i in enumerate(blk) if i.op == "call" and self.is_noret(i)), None)
            out.append(blk if cut is None else blk[:cut + 1])
        return out

    def returning_blocks(self, f):
        """Blocks from which a return can be reached."""
        good = set()
        for bi, b in enumerate(f.blocks):
            if b[-1].op == "ret" and not any(i.op == "call" and self.is_noret(i) for i in b):
                good.add(bi)
        work = list(good)
        while work:
            b = work.pop()
            for p in f.pred[b]:
                if p not in good and not any(i.op == "call" and self.is_noret(i) for i in f.blocks[p]):
                    good.add(p)
                    work.append(p)
        return good

    def call_allocates(self, i):
        if i.f is not None:
            if i.f in self.M.funcs:
                s = self.sum[i.f]
                return s.alloc and not s.noret
            if strip_intrinsic(i.f) or i.f in NOALLOC or i.f in NORETURN:
                return False
            return True
        t, _ = self.targets(i)
        if not t:
            return True
        return any(self.sum[x].alloc and not self.sum[x].noret for x in t)

    def compute_alloc(self):
        good = {n: self.returning_blocks(f) for n, f in self.M.funcs.items()}
        ch = True
        while ch:
            ch = False
            for f in self.M.funcs.values():
                s = self.sum[f.name]
                if s.alloc:
                    continue
                for bi in good[f.name]:
                    if any(i.op == "call" and self.call_allocates(i) for i in f.blocks[bi]):
                        s.alloc = True
                        ch = True
                        break

    def sccs(self):
        M = self.M
        g = {}
        for n in M.funcs:
            s = set()
            for i in self.calls[n]:
                if i.f in M.funcs:
                    s.add(i.f)
            g[n] = s
        idx = {}
        low = {}
        on = set()
        st = []
        res = []
        counter = [0]
        for root in g:
            if root in idx:
                continue
            work = [(root, iter(g[root]))]
            idx[root] = low[root] = counter[0]
            counter[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = counter[0]
                        counter[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(g[w])))
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        res.append(c)
        return res

    def run(self):
        for comp in self.sccs():
            for it in range(5 if len(comp) > 1 or any(i.f == comp[0] for i in self.calls[comp[0]]) else 1):
                changed = False
                for n in comp:
                    old = self.sum[n].key()
                    FnSim(self, self.M.funcs[n]).run()
                    if self.sum[n].key() != old:
                        changed = True
                if not changed:
                    break
        return self


class FnSim:
    def __init__(self, S, f, skip=None):
        self.S = S
        self.skip = skip
        self.f = f
        self.M = S.M
        self.viol = {}
        self.bal = {}
        self.imp = set()
        self.unsafe = {}
        self.track = self.counter_slice()
        self.addrs = {}
        for i in f.insts():
            if i.op == "alloca":
                self.addrs[i.id] = (("m", i.id), 0)
        for b in f.blocks:
            for i in b:
                if i.op == "getelementptr" and isinstance(i.a[0], int) and i.a[0] in self.addrs:
                    base, off = self.addrs[i.a[0]]
                    if len(i.a) > 1 or i.off is None or off is None:
                        self.addrs[i.id] = (base, None)
                    else:
                        self.addrs[i.id] = (base, off + i.off)
        # objects returned through memory are live while the alloca is
        self.alive_mem = self.mem_liveness()
        self.live = f.live_out
        self.lcache = {}
        self.nilloads = set()
        for i in f.insts():
            if i.op == "load" and isinstance(i.a[0], tuple) and i.a[0][0] == "g" and i.a[0][1] in ("R_NilValue", "r_null"):
                self.nilloads.add(i.id)
        self.rets = []
        self.ntok = set()
        self.glob = {}
        self.gsite = {}
        self.ngl = set()
        self.nalloc = set()

    # -- which integers matter
    def counter_slice(self):
        f = self.f
        work = []
        for i in f.calls():
            if i.f == "Rf_unprotect" and isinstance(i.a[0], int):
                work.append(i.a[0])
            if i.f == "R_Reprotect" and isinstance(i.a[1], int):
                work.append(i.a[1])
        seen = set()
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            d = f.defs.get(v)
            if d is None:
                continue
            if d.op == "phi":
                work += [x for x, _ in d.inn if isinstance(x, int)]
            elif d.op in ("add", "sub", "trunc", "sext", "zext", "select"):
                work += [x for x in d.a if isinstance(x, int)]
        return seen

    def mem_liveness(self):
        """Backward liveness of the content of stack objects, per pointer-sized
        cell; item (alloca, offset), offset None for everything else in it."""
        f = self.f
        offs = {}
        for i in f.insts():
            if i.op == "store" and isinstance(i.a[1], int) and i.a[1] in self.addrs:
                base, off = self.addrs[i.a[1]]
                if off is not None:
                    offs.setdefault(base[1], set()).add(off)
        self.offs = offs
        # the address of one object stored in another: using the latter may
        # read the former
        esc = {}
        for i in f.insts():
            if i.op == "store" and isinstance(i.a[0], int) and i.a[0] in self.addrs and isinstance(i.a[1], int) and i.a[1] in self.addrs:
                esc.setdefault(self.addrs[i.a[1]][0][1], set()).add(self.addrs[i.a[0]][0][1])
        ch = True
        while ch:
            ch = False
            for k in esc:
                for x in list(esc[k]):
                    new = esc.get(x, set()) - esc[k]
                    if new:
                        esc[k] |= new
                        ch = True
        self.esc = esc

        def items(a):
            return [(a, None)] + [(a, o) for o in offs.get(a, ())]
        ev = [[] for _ in f.blocks]
        for bi, b in enumerate(f.blocks):
            for i in b:
                seen = {}

                def use(a):
                    for y in [a] + sorted(esc.get(a, ())):
                        for it in items(y):
                            seen[it] = "use"

                def kill(a):
                    for it in items(a):
                        seen.setdefault(it, "kill")
                if i.op == "call":
                    fn = i.f or ""
                    for k, x in enumerate(i.a):
                        if isinstance(x, int) and x in self.addrs:
                            base, off = self.addrs[x]
                            if fn.startswith("llvm.lifetime"):
                                kill(base[1])
                            elif (fn.startswith("llvm.memcpy") or fn.startswith("llvm.memset") or fn.startswith("llvm.memmove")) and k == 0:
                                al = f.defs[base[1]]
                                if off == 0 and (isinstance(i.a[2], tuple) and i.a[2][1] == al.sz):
                                    kill(base[1])
                            elif i.sret == k:
                                kill(base[1])
                            else:
                                use(base[1])
                elif i.op == "store":
                    x = i.a[1]
                    if isinstance(x, int) and x in self.addrs:
                        base, off = self.addrs[x]
                        if off is not None:
                            seen.setdefault((base[1], off), "kill")
                            al = f.defs[base[1]]
                            if al.sz is not None and al.sz <= 8 and off == 0:
                                kill(base[1])
                    x = i.a[0]
                    if isinstance(x, int) and x in self.addrs and not (isinstance(i.a[1], int) and i.a[1] in self.addrs):
                        use(self.addrs[x][0][1])
                elif i.op in ("getelementptr", "alloca"):
                    pass
                elif i.op == "load":
                    x = i.a[0]
                    if isinstance(x, int) and x in self.addrs:
                        base, off = self.addrs[x]
                        if off is not None and off in offs.get(base[1], ()):
                            seen[(base[1], off)] = "use"
                        else:
                            use(base[1])
                else:
                    for x in i.a:
                        if isinstance(x, int) and x in self.addrs:
                            use(self.addrs[x][0][1])
                    if i.inn:
                        for x, _ in i.inn:
                            if isinstance(x, int) and x in self.addrs:
                                use(self.addrs[x][0][1])
                for a, k in seen.items():
                    ev[bi].append((i.pos, a, k))
        n = len(f.blocks)
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]
        for bi in range(n):
            for pos, a, k in ev[bi]:
                if k == "use" and a not in kill[bi]:
                    gen[bi].add(a)
                if k == "kill":
                    kill[bi].add(a)
        lout = [set() for _ in range(n)]
        lin = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                o = set()
                for s in f.succ[bi]:
                    o |= lin[s]
                i = gen[bi] | (o - kill[bi])
                if o != lout[bi] or i != lin[bi]:
                    lout[bi], lin[bi] = o, i
                    ch = True
        return ev, lout

    def live_after(self, i):
        key = i.id
        r = self.lcache.get(key)
        if r is not None:
            return r
        f = self.f
        s = set(self.live[i.bb])
        b = f.blocks[i.bb]
        for j in range(len(b) - 1, i.pos, -1):
            x = b[j]
            s.discard(x.id)
            if x.op != "phi":
                for v in x.a:
                    if isinstance(v, int):
                        s.add(v)
                if isinstance(x.fp, int):
                    s.add(x.fp)
        s.discard(i.id) if False else None
        ev, lout = self.alive_mem
        m = set(lout[i.bb])
        for pos, a, k in reversed(ev[i.bb]):
            if pos <= i.pos:
                break
            if k == "kill":
                m.discard(a)
            else:
                m.add(a)
        r = (s, m)
        self.lcache[key] = r
        return r

    # -- rooting
    def rooted(self, st, t, args=True, seen=None):
        """args: treat parameters as rooted by the caller."""
        if t is None or t == ROOT:
            return True
        if t in st.stack:
            return True
        if t[0] == "a":
            return args
        if seen is None:
            seen = set()
        if t in seen:
            return False
        seen.add(t)
        for p in st.par.get(t, ()):
            if self.rooted(st, p, args, seen):
                return True
        return False

    def argroots(self, st, t, seen=None):
        """Parameters this object depends on for being rooted."""
        if seen is None:
            seen = set()
        if t is None or t == ROOT or t in seen or t in st.stack:
            return set()
        seen.add(t)
        if t[0] == "a":
            return {t[1]}
        r = set()
        for p in st.par.get(t, ()):
            if p == ROOT or p in st.stack:
                return set()
            r |= self.argroots(st, p, seen)
        return r

    def origin(self, st, t):
        seen = set()
        while t not in seen:
            seen.add(t)
            ps = [p for p in st.par.get(t, ()) if p != ROOT]
            if t[0] == "d" and ps:
                t = ps[0]
            else:
                break
        return t

    # -- main loop
    def run(self):
        f = self.f
        S = self.S
        st = State()
        st.stack = ()
        st.al = {}
        st.par = {}
        st.mem = {}
        st.ints = {}
        st.pis = {}
        for k, a in enumerate(f.args):
            if a["t"] == "ptr" and not a.get("byval"):
                st.al[k] = ("a", k)
        self.seen = [set() for _ in f.blocks]
        work = [(0, None, st)]
        steps = 0
        while work:
            b, prev, st = work.pop()
            st = self.enter(b, prev, st)
            key = self.canon(b, st)
            if key in self.seen[b]:
                continue
            if len(self.seen[b]) >= MAXSTATES:
                self.imp.add("state cap")
                continue
            self.seen[b].add(key)
            steps += 1
            outs = self.block(b, st)
            work.extend(outs)
        self.finish(steps)

    def enter(self, b, prev, st):
        f = self.f
        blk = f.blocks[b]
        if prev is None:
            return st
        upd = {}
        ui = {}
        for i in blk:
            if i.op != "phi":
                break
            for v, p in i.inn:
                if p == prev:
                    upd[i.id] = st.al.get(v) if isinstance(v, int) else None
                    if isinstance(v, int) and v in self.addrs and i.id not in self.addrs:
                        upd[i.id] = self.addrs[v][0]
                    if i.id in self.track:
                        if isinstance(v, tuple) and v[0] == "c":
                            ui[i.id] = v[1]
                        elif isinstance(v, int) and v in st.ints:
                            ui[i.id] = st.ints[v]
                        else:
                            ui[i.id] = None
                    break
        for k, v in upd.items():
            if v is None:
                st.al.pop(k, None)
            else:
                st.al[k] = v
        for k, v in ui.items():
            if v is None:
                st.ints.pop(k, None)
            else:
                st.ints[k] = v
        # forget what is dead
        self.live
        lin = f._livein[b]
        phis = set(upd)
        st.al = {k: v for k, v in st.al.items() if k in lin or k in phis}
        st.ints = {k: v for k, v in st.ints.items() if k in lin or k in phis}
        self.prune(st)
        return st

    def prune(self, st):
        # objects held for the session need no further tracking
        perm = {t for t, ps in st.par.items() if ROOT in ps}
        if perm:
            ch = True
            while ch:
                ch = False
                for t, ps in st.par.items():
                    if t not in perm and t[0] in "cd" and any(p in perm for p in ps) and t[0] != "a":
                        perm.add(t)
                        ch = True
            perm = {t for t in perm if t[0] != "a"}
            st.al = {k: v for k, v in st.al.items() if v not in perm}
            st.mem = {k: v for k, v in st.mem.items() if v not in perm and k[0] not in perm}
            st.stack = tuple(None if t in perm else t for t in st.stack)
            st.par = {k: frozenset(ROOT if p in perm else p for p in ps) for k, ps in st.par.items() if k not in perm}
        keep = set(st.al.values()) | set(x for x in st.stack if x)
        for (base, off), t in st.mem.items():
            if base[0] in "mag":
                keep.add(t)
        work = list(keep)
        while work:
            t = work.pop()
            for p in st.par.get(t, ()):
                if p != ROOT and p not in keep:
                    keep.add(p)
                    work.append(p)
            for (base, off), v in st.mem.items():
                if base == t and v not in keep:
                    keep.add(v)
                    work.append(v)
        st.par = {k: v for k, v in st.par.items() if k in keep}
        st.mem = {k: v for k, v in st.mem.items() if k[0][0] in "mag" or k[0] in keep}

    def canon(self, b, st):
        return (st.stack, frozenset(st.al.items()), frozenset(st.par.items()), frozenset(st.mem.items()),
                frozenset(st.ints.items()), frozenset(st.pis.items()))

    def fresh(self, st, tok):
        """(Re)create a token: an older instance under the same name survives
        under an aged name if anything still refers to it."""
        old = ("o", tok)
        if tok in st.stack or tok in st.al.values() or tok in st.mem.values() or any(tok in ps for ps in st.par.values()):
            ren = lambda t: (None if t == old else old if t == tok else t)
            # an even older instance is forgotten (treated as rooted)
            st.stack = tuple(ren(t) for t in st.stack)
            st.al = {k: ren(v) for k, v in st.al.items() if ren(v) is not None}
            st.mem = {(ren(k[0]) or k[0], k[1]): ren(v) for k, v in st.mem.items() if ren(v) is not None}
            par = {}
            for k, ps in st.par.items():
                k2 = ren(k)
                if k2 is None:
                    continue
                q = frozenset(ren(p) for p in ps if p != old)
                par[k2] = q if q or not ps else frozenset([ROOT])
            st.par = par
        st.par.pop(tok, None)
        self.ntok.add(tok)
        return tok

    def child(self, st, i, parent):
        """A component of `parent` produced by i."""
        tok = ("d", i.id)
        if parent == tok:
            self.fresh(st, tok)
            parent = ("o", tok)
        elif parent == ("o", tok):
            gp = st.par.get(parent, frozenset([ROOT]))
            self.fresh(st, tok)
            st.par[tok] = frozenset(p for p in gp if p != tok) or frozenset([ROOT])
            return tok
        else:
            self.fresh(st, tok)
        ps = {parent}
        if parent[0] == "d" or (parent[0] == "o" and parent[1][0] == "d"):
            ps |= set(p for p in st.par.get(parent, ()) if p != tok)
        st.par[tok] = frozenset(ps)
        return tok

    def addr(self, st, v):
        """(base, offset) of an address, base a memory object or token."""
        if isinstance(v, int):
            if v in self.addrs:
                return self.addrs[v]
            d = self.f.defs.get(v)
            if d is not None and d.op == "getelementptr":
                base = self.addr(st, d.a[0])
                if base is None:
                    return None
                if len(d.a) > 1 or d.off is None or base[1] is None:
                    return (base[0], None)
                return (base[0], base[1] + d.off)
            t = st.al.get(v)
            if t is not None:
                return (t, 0)
        return None

    def val(self, st, v):
        if isinstance(v, int):
            return st.al.get(v)
        return None

    def block(self, b, st):
        f = self.f
        states = [st]
        for i in f.blocks[b]:
            if i.op == "phi":
                continue
            if i.op in ("br", "switch", "ret", "unreachable"):
                break
            for st in states:
                dead = self.step(i, st)
                if dead:
                    return []
        res = []
        t = f.blocks[b][-1]
        st = states[0]
        if t.op == "ret":
            self.rets.append((t, self.val(st, t.a[0]) if t.a else None, st))
            return []
        if t.op == "br" and len(t.s) == 2 and t.s[0] != t.s[1]:
            c = f.defs.get(t.a[0]) if isinstance(t.a[0], int) else None
            nilv = None
            if c is not None and c.op == "icmp" and c.p in ("eq", "ne"):
                for x, y in (c.a, c.a[::-1]):
                    if (isinstance(x, int) and x in self.nilloads) or x == NULL:
                        nilv = y
                        nils = t.s[0] if c.p == "eq" else t.s[1]
            dec = self.decide(st, c)
            for s in (t.s[0], t.s[1]):
                if dec is not None and s != t.s[0 if dec else 1]:
                    continue
                n = st.copy()
                if nilv is not None and s == nils and isinstance(nilv, int):
                    # equal to NULL here, hence not a collectable object
                    tok = n.al.get(nilv)
                    if tok is not None and tok[0] != "a":
                        n.al = {k: v for k, v in n.al.items() if v != tok}
                        n.mem = {k: v for k, v in n.mem.items() if v != tok}
                        n.stack = tuple(None if x == tok else x for x in n.stack)
                        n.par = {k: frozenset(ROOT if p == tok else p for p in ps) for k, ps in n.par.items() if k != tok}
                res.append((s, b, n))
            return res
        for s in f.succ[b]:
            res.append((s, b, st.copy()))
        return res

    def decide(self, st, c):
        if c is None or c.op != "icmp":
            return None
        x, y = c.a
        if isinstance(x, int) and x in st.ints and isinstance(y, tuple) and y[0] == "c" and isinstance(st.ints[x], int):
            a, bb = st.ints[x], y[1]
            return {"eq": a == bb, "ne": a != bb, "sgt": a > bb, "sge": a >= bb, "slt": a < bb, "sle": a <= bb}.get(c.p)
        return None

    def step(self, i, st):
        op = i.op
        f = self.f
        if op == "call":
            return self.call(i, st)
        if op == "getelementptr":
            t = st.al.get(i.a[0]) if isinstance(i.a[0], int) else None
            if t is not None:
                st.al[i.id] = t
            else:
                st.al.pop(i.id, None)
        elif op in ("bitcast", "freeze", "extractvalue", "inttoptr", "ptrtoint", "addrspacecast"):
            t = self.val(st, i.a[0])
            if t is not None:
                st.al[i.id] = t
            else:
                st.al.pop(i.id, None)
        elif op == "insertvalue":
            t = self.val(st, i.a[1]) or self.val(st, i.a[0])
            if t is not None:
                st.al[i.id] = t
            else:
                st.al.pop(i.id, None)
        elif op == "select":
            if i.t == "ptr":
                ts = [self.val(st, x) for x in i.a[1:]]
                t = next((x for x in ts if x is not None and not self.rooted(st, x)), None) or next((x for x in ts if x), None)
                if t is not None:
                    st.al[i.id] = t
                else:
                    st.al.pop(i.id, None)
        elif op == "load":
            if i.t == "ptr":
                ad = self.addr(st, i.a[0])
                t = None
                if isinstance(i.a[0], tuple) and i.a[0][0] == "g":
                    t = st.mem.get((("g", i.a[0][1]), i.a[0][2]))
                if ad is not None:
                    base, off = ad
                    if (base, off) in st.mem:
                        t = st.mem[(base, off)]
                    elif base[0] != "m":
                        t = self.child(st, i, base)
                if t is not None:
                    st.al[i.id] = t
                else:
                    st.al.pop(i.id, None)
            elif i.id in self.track:
                ad = self.addr(st, i.a[0])
                if ad is not None and ad in st.pis:
                    st.ints[i.id] = st.pis[ad]
                else:
                    st.ints.pop(i.id, None)
        elif op == "store":
            ad = self.addr(st, i.a[1])
            if ad is not None:
                v = self.val(st, i.a[0])
                if v is not None:
                    st.mem[ad] = v
                else:
                    st.mem.pop(ad, None)
                    if isinstance(i.a[0], tuple) and i.a[0][0] == "c" and ad[0][0] == "m":
                        st.pis[ad] = i.a[0][1]
                    elif isinstance(i.a[0], int) and i.a[0] in st.ints:
                        st.pis[ad] = st.ints[i.a[0]]
                    elif ad in st.pis and ad[0][0] == "m":
                        st.pis.pop(ad)
            elif isinstance(i.a[1], tuple) and i.a[1][0] == "g":
                v = self.val(st, i.a[0])
                key = (("g", i.a[1][1]), i.a[1][2])
                if v is not None and v[0] != "m":
                    st.mem[key] = v
                    self.gsite[key] = i
                    self.ngl.add(key)
                else:
                    st.mem.pop(key, None)
        elif op in ("add", "sub", "trunc", "sext", "zext"):
            if i.id in self.track:
                vs = []
                for x in i.a:
                    if isinstance(x, tuple) and x[0] == "c":
                        vs.append(x[1])
                    elif isinstance(x, int) and x in st.ints:
                        vs.append(st.ints[x])
                    else:
                        vs = None
                        break
                if vs is None or any(not isinstance(x, int) for x in vs):
                    st.ints.pop(i.id, None)
                else:
                    st.ints[i.id] = vs[0] if op not in ("add", "sub") else vs[0] + vs[1] if op == "add" else vs[0] - vs[1]
        return False

    # -- calls
    def hold(self, st, v, c):
        """v is now held by c."""
        if v is None:
            return
        st.par[v] = st.par.get(v, frozenset()) | frozenset([ROOT if c is None else c])

    def report(self, kind, tok, i, st, extra=""):
        t = self.origin(st, tok)
        self.viol.setdefault((kind, t, i.id), (i, extra))

    def check_alloc(self, i, st, exempt=()):
        """Everything needed after i must be rooted now. exempt: arguments the
        callee itself protects for the whole call."""
        self.nalloc.add(i.id)
        live, mem = self.live_after(i)
        need = set()
        for k, t in st.al.items():
            if k in live and k != i.id:
                need.add(t)
        for (base, off), t in st.mem.items():
            if base[0] == "m":
                if (base[1], off if off in self.offs.get(base[1], ()) else None) in mem:
                    need.add(t)
        for t in need:
            if t[0] == "m" or t in exempt:
                continue
            if not self.rooted(st, t):
                self.report("live", t, i, st)
            else:
                if not self.rooted(st, t, args=False):
                    for k in self.argroots(st, t):
                        self.unsafe.setdefault(k, (i, "needed after"))

    def call(self, i, st):
        S = self.S
        f = self.f
        fn = i.f
        if fn == "Rf_protect":
            t = self.val(st, i.a[0])
            if i.id == self.skip:
                t2, t = t, None
            if len(st.stack) >= MAXDEPTH:
                self.imp.add("unbounded stack")
                return True
            st.stack = st.stack + (t,)
            if i.id == self.skip:
                t = t2
            if t is not None:
                st.al[i.id] = t
            else:
                st.al.pop(i.id, None)
            return False
        if fn == "R_ProtectWithIndex":
            t = self.val(st, i.a[0])
            if len(st.stack) >= MAXDEPTH:
                self.imp.add("unbounded stack")
                return True
            ad = self.addr(st, i.a[1])
            if ad is not None:
                st.pis[ad] = ("pi", len(st.stack))
            st.stack = st.stack + (t,)
            return False
        if fn == "R_Reprotect":
            t = self.val(st, i.a[0])
            v = st.ints.get(i.a[1]) if isinstance(i.a[1], int) else None
            if isinstance(v, tuple) and v[1] < len(st.stack):
                s = list(st.stack)
                s[v[1]] = t
                st.stack = tuple(s)
            else:
                self.hold(st, t, None)
            return False
        if fn == "Rf_unprotect":
            v = i.a[0]
            n = v[1] if isinstance(v, tuple) and v[0] == "c" else st.ints.get(v) if isinstance(v, int) else None
            if not isinstance(n, int):
                self.imp.add("unprotect count unknown")
                return True
            if n > len(st.stack):
                self.bal.setdefault(("underflow", i.id), (i, n, len(st.stack)))
                return True
            if n < 0:
                self.imp.add("negative count")
                return True
            # a token leaving the stack that is held by something on it keeps
            # being rooted through `par`; nothing else to do
            if n:
                st.stack = st.stack[:len(st.stack) - n]
            return False
        if fn is not None and strip_intrinsic(fn):
            if fn.startswith("llvm.memcpy") or fn.startswith("llvm.memmove"):
                d = self.addr(st, i.a[0])
                s = self.addr(st, i.a[1])
                if d is not None and d[0][0] == "m" and d[1] is not None:
                    n = i.a[2][1] if isinstance(i.a[2], tuple) else 0
                    for k in [k for k in st.mem if k[0] == d[0] and k[1] is not None and d[1] <= k[1] < d[1] + n]:
                        st.mem.pop(k)
                    if s is not None and s[1] is not None:
                        for (base, off), t in list(st.mem.items()):
                            if base == s[0] and off is not None and s[1] <= off < s[1] + n:
                                st.mem[(d[0], off - s[1] + d[1])] = t
                        for (base, off), t in list(st.pis.items()):
                            if base == s[0] and off is not None and s[1] <= off < s[1] + n:
                                st.pis[(d[0], off - s[1] + d[1])] = t
                        if s[0][0] != "m":
                            # copied out of a foreign struct: components of it
                            for off in range(0, n, 8):
                                if (s[0], s[1] + off) not in st.mem:
                                    st.mem[(d[0], d[1] + off)] = s[0]
            elif fn.startswith("llvm.lifetime"):
                ad = self.addr(st, i.a[1])
                if ad is not None:
                    for k in [k for k in st.mem if k[0] == ad[0]]:
                        st.mem.pop(k)
                    for k in [k for k in st.pis if k[0] == ad[0]]:
                        st.pis.pop(k)
            return False

        args = [self.val(st, x) for x in i.a]
        tg, ext = S.targets(i)
        alloc = S.call_allocates(i)
        noret = S.is_noret(i)

        # 1. arguments must survive the callee
        for k, t in enumerate(args):
            if t is None or t[0] == "m":
                continue
            un = self.unsafe_arg(i, tg, ext, k)
            if un:
                if not self.rooted(st, t):
                    self.report("arg", t, i, st, str(k))
                elif not self.rooted(st, t, args=False):
                    for a in self.argroots(st, t):
                        self.unsafe.setdefault(a, (i, "passed to %s" % (fn or "a function pointer")))
        # objects held in structs passed by address
        if not (noret and fn in NORETURN):
            for k, x in enumerate(i.a):
                if isinstance(x, int) and x in self.addrs and self.unsafe_arg(i, tg, ext, k) and i.sret != k:
                    base = self.addrs[x][0]
                    bases = {base} | {("m", e) for e in self.esc.get(base[1], ())}
                    for (bs, off), t in st.mem.items():
                        if bs in bases and t[0] != "m":
                            if not self.rooted(st, t):
                                self.report("arg", t, i, st, str(k))
                            elif not self.rooted(st, t, args=False):
                                for a in self.argroots(st, t):
                                    self.unsafe.setdefault(a, (i, "passed to %s" % (fn or "a function pointer")))
        if noret:
            return True
        # 2. everything needed later must survive
        if alloc:
            ex = set()
            if ext and fn is not None:
                sa = SAFEARGS.get(fn, ())
                ex = {t for k, t in enumerate(args) if t is not None and (sa == "*" or k in sa)}
            self.check_alloc(i, st, ex)
        # 3. effects
        if ext and fn is not None:
            if fn in STOREIN:
                v, c = STOREIN[fn]
                if v < len(args):
                    ct = args[c]
                    if ct is None and isinstance(i.a[c], int) and i.a[c] in self.addrs:
                        ct = None
                    self.hold(st, args[v], ct)
            if fn == "R_PreserveObject":
                self.hold(st, args[0], None)
            if i.t == "ptr":
                if fn in INTERIOR:
                    self.setal(st, i.id, args[0])
                elif fn in CHILD:
                    if args[0] is not None:
                        st.al[i.id] = self.child(st, i, args[0])
                    else:
                        st.al.pop(i.id, None)
                elif fn in STOREIN:
                    v, c = STOREIN[fn]
                    self.setal(st, i.id, args[v] if args[v] is not None else None)
                elif fn == "Rf_eval" and self.is_symbol(i.a[0]):
                    # the value of a variable: stays bound in the environment
                    if args[1] is not None:
                        st.al[i.id] = self.child(st, i, args[1])
                    else:
                        st.al.pop(i.id, None)
                elif fn in NOALLOC or fn in NOTFRESH:
                    st.al.pop(i.id, None)
                else:
                    t = self.fresh(st, ("c", i.id))
                    st.al[i.id] = t
                    for k in RESHOLDS.get(fn, ()):
                        if k < len(args):
                            self.hold(st, args[k], t)
            return False
        if not tg:
            # another package's callable, or unknown code through a pointer
            st.al.pop(i.id, None)
            if i.t == "ptr":
                d = f.defs.get(i.fp) if isinstance(i.fp, int) else None
                g = d.a[0][1] if d is not None and d.op == "load" and isinstance(d.a[0], tuple) else None
                if S.callables.get(g, True):
                    st.al[i.id] = self.fresh(st, ("c", i.id))
            return False
        sums = [S.sum[x] for x in tg if not S.sum[x].noret]
        if not sums:
            return True if fn is not None else False
        ret = frozenset().union(*[s.ret for s in sums])
        if i.t is not None:
            if "fresh" in ret:
                t = self.fresh(st, ("c", i.id))
                st.al[i.id] = t
                for k in frozenset.intersection(*[s.rethold for s in sums]):
                    if k < len(args):
                        self.hold(st, args[k], t)
                if fn is not None:
                    self.apply_mem(st, t, S.sum[fn].retmem, i, args)
            else:
                cands = []
                for r in ret:
                    if isinstance(r, tuple) and r[1] < len(args):
                        cands.append((r[0], args[r[1]]))
                cands = [(k, t) for k, t in cands if t is not None]
                cands.sort(key=lambda kt: self.rooted(st, kt[1], args=False))
                if cands:
                    k, t = cands[0]
                    if k == "arg" and t[0] != "m":
                        st.al[i.id] = t
                    elif t[0] == "m":
                        st.al.pop(i.id, None)
                    else:
                        st.al[i.id] = self.child(st, i, t)
                else:
                    st.al.pop(i.id, None)
        for v, c in frozenset.intersection(*[s.holds for s in sums]):
            if v < len(args) and args[v] is not None:
                if c < len(args):
                    self.hold(st, args[v], args[c])
        for v in frozenset.intersection(*[s.pres for s in sums]):
            if v < len(args):
                self.hold(st, args[v], None)
        if fn is not None:
            s = S.sum[fn]
            # memory written through pointer parameters
            for k, cells in s.out:
                if k < len(i.a):
                    ad = self.addr(st, i.a[k])
                    if ad is not None and ad[1] is not None:
                        self.apply_mem(st, ad, cells, i, args, key=k)
            if s.net > 0:
                st.stack = st.stack + (None,) * s.net
            elif s.net < 0:
                if -s.net > len(st.stack):
                    self.bal.setdefault(("underflow", i.id), (i, -s.net, len(st.stack)))
                    return True
                st.stack = st.stack[:s.net]
        return False

    def is_symbol(self, v, depth=0):
        d = self.f.defs.get(v) if isinstance(v, int) else None
        if d is None or depth > 4:
            return False
        if d.op == "call":
            return d.f == "Rf_install" or (d.f == "Rf_protect" and self.is_symbol(d.a[0], depth + 1))
        if d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
            return d.a[0][1].startswith("syms_") or d.a[0][1] in ("r_syms", "syms")
        return False

    def setal(self, st, k, t):
        if t is None:
            st.al.pop(k, None)
        else:
            st.al[k] = t

    def apply_mem(self, st, where, cells, i, args, key="r"):
        """cells: (off, tag, parents) with tag/parents naming objects of the
        callee: ('n', x) new objects, ('arg', k), 'self'."""
        if not cells:
            return
        if isinstance(where, tuple) and len(where) == 2 and isinstance(where[0], tuple):
            base, off0 = where
        else:
            base, off0 = where, 0

        def obj(x):
            if x == "self":
                return base if base[0] != "m" else None
            if x[0] == "arg":
                return args[x[1]] if x[1] < len(args) else None
            return ("c", i.id, key, x[1])
        new = set()
        for owner, off, tag, pars in cells:
            t = obj(tag)
            if tag != "self" and tag[0] == "n" and t not in new:
                new.add(t)
                self.fresh(st, t)
        for owner, off, tag, pars in cells:
            t = obj(tag)
            if t is None:
                continue
            if (tag != "self" and tag[0] == "n") or off is None:
                for p in pars:
                    self.hold(st, t, obj(p))
            if off is not None:
                if owner == "self":
                    st.mem[(base, off0 + off)] = t
                else:
                    o = obj(owner)
                    if o is not None:
                        st.mem[(o, off)] = t

    def unsafe_arg(self, i, tg, ext, k):
        S = self.S
        if i.f is not None:
            if i.f in self.M.funcs:
                return k in S.sum[i.f].unsafe
            if i.f in NOALLOC or strip_intrinsic(i.f):
                return False
            sa = SAFEARGS.get(i.f, ())
            return not (sa == "*" or k in sa)
        if not tg:
            return True
        return any(k in S.sum[x].unsafe for x in tg)

    # -- results
    def finish(self, steps):
        S = self.S
        f = self.f
        s = S.sum[f.name]
        ret = set()
        holds = None
        pres = None
        rethold = None
        outs = []
        retm = []
        nets = set()
        for t, v, st in self.rets:
            nets.add(len(st.stack))
            if len(st.stack) != 0:
                self.bal.setdefault(("leak", t.id, len(st.stack)), (t, len(st.stack), 0))
            for (base, off), tok in st.mem.items():
                if base[0] == "g":
                    self.ngl.add((base, off))
                    sv, st.stack = st.stack, ()
                    if not self.rooted(st, tok):
                        self.glob.setdefault((base[1], off), (self.gsite.get((base, off)), tok))
                    st.stack = sv
            # what the caller sees: stack entries of this frame are popped
            saved = st.stack
            st.stack = ()
            if v is not None and v[0] != "m":
                if v[0] == "a":
                    ret.add(("arg", v[1]))
                elif self.rooted(st, v):
                    ar = self.argroots(st, v)
                    if ar:
                        for k in ar:
                            ret.add(("child", k))
                    else:
                        ret.add("root")
                else:
                    ret.add("fresh")
                    rh = set()
                    for k in range(f.nargs):
                        if v in st.par.get(("a", k), ()):
                            rh.add(k)
                    rethold = rh if rethold is None else rethold & rh
                    retm.append(self.memsum(st, v, "r"))
            else:
                if f.ret == "ptr":
                    ret.add("root")
            h = set()
            pr = {k for k in range(f.nargs) if ROOT in st.par.get(("a", k), ())}
            pres = pr if pres is None else pres & pr
            for k in range(f.nargs):
                for p in st.par.get(("a", k), ()):
                    if p == ROOT:
                        pass
                    elif p[0] == "a":
                        h.add((k, p[1]))
            holds = h if holds is None else holds & h
            o = {}
            for k, a in enumerate(f.args):
                if a["t"] == "ptr":
                    m = self.memsum(st, ("a", k), k)
                    if m:
                        o[k] = m
            outs.append(o)
            st.stack = saved
        s.ret = frozenset(ret)
        if f.base in ROOTED_RESULT:
            s.ret = frozenset(["root"])
        elif f.base in BOUND_RESULT:
            s.ret = frozenset([("child", BOUND_RESULT[f.base][0])])
        s.holds = frozenset(holds or ())
        s.pres = frozenset(pres or ())
        s.rethold = frozenset(rethold or ())
        s.unsafe = frozenset(self.unsafe)
        s.why = self.unsafe
        # memory summaries: the variant with the most fresh content
        if outs:
            ks = set().union(*[set(o) for o in outs])
            s.out = tuple(sorted((k, max((o.get(k, ()) for o in outs), key=lambda c: (len(c), str(c)))) for k in ks))
        else:
            s.out = ()
        s.retmem = max(retm, key=lambda c: (len(c), str(c))) if retm else ()
        if len(nets) == 1:
            s.net = next(iter(nets))
        else:
            s.net = 0
        s.nets = frozenset(nets)
        S.viol[f.name] = self.viol
        S.bal[f.name] = self.bal
        S.glob[f.name] = self.glob
        S.nglob[f.name] = len(self.ngl)
        S.imprecise[f.name] = self.imp
        self.S.stats.setdefault("fn", {})[f.name] = (len(self.ntok), len(self.nalloc), steps, len(self.rets))

    def memsum(self, st, base, key):
        """What the caller sees in memory reachable from base: (owner, offset,
        object, holders)."""
        names = {}

        def nm(t):
            if t == base:
                return "self"
            if t[0] == "a":
                return ("arg", t[1])
            if t not in names:
                names[t] = len(names)
            return ("n", names[t])
        owners = [base]
        visible = {base}
        items = []
        k = 0
        while k < len(owners):
            o = owners[k]
            k += 1
            for (b, off), t in sorted(((x, t) for x, t in st.mem.items() if x[0] == o and x[1] is not None and t[0] != "m"), key=lambda y: y[0][1]):
                items.append((o, off, t))
                if t not in visible and t[0] != "a":
                    visible.add(t)
                    if len(owners) < 8 and not self.rooted(st, t, args=False):
                        owners.append(t)
        if not items:
            return ()

        def holders(t):
            pars = set()
            seen = set()
            work = [t]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                for p in st.par.get(x, ()):
                    if p == ROOT:
                        continue
                    if p in visible or p[0] == "a":
                        pars.add(nm(p))
                    else:
                        work.append(p)
            return tuple(sorted(pars, key=str))
        cells = []
        if key == "r":
            hs = holders(base)
            if hs:
                cells.append(("self", None, "self", hs))
        for o, off, t in items:
            if t == base:
                cells.append((nm(o), off, "self", ()))
            elif t[0] == "a":
                cells.append((nm(o), off, ("arg", t[1]), ()))
            elif not self.rooted(st, t, args=False):
                cells.append((nm(o), off, nm(t), holders(t)))
        return tuple(cells)
