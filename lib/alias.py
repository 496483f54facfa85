"""Which caller-owned objects can a function modify in place?

A value-flow analysis over SSA. Each pointer value carries the set of *origins*
it may denote: an object passed in as a parameter, something reached from one
(element, attribute, tail), a field of a struct passed by pointer, or an object
held by a package global. Copying operations produce no origin (a new object)
but keep the origins of the elements, since R's copies are shallow. A write
through a value records a modification of each of its origins; function
summaries (what is returned, stored through pointers, modified) are instantiated
at call sites until a fixpoint.

An in-place operation may be conditional on an ownership flag; the condition is
part of the summary and is resolved at the call site that supplies the flag."""
import heapq

E = lambda t: t if t[0] in ("E", "Ea") else ("E", t)
EA = lambda t: t if t[0] in ("E", "Ea") else ("Ea", t)         # an attribute
T = lambda t: t if t[0] in ("E", "Ea", "T") else ("T", t)    # a tail of a pairlist
OBJ = ("p", "E", "Ea", "F", "g", "T")
U = frozenset()    # unconditional

# external functions: index of the argument modified
MUT = {"SET_VECTOR_ELT": 0, "SET_STRING_ELT": 0, "SET_ATTRIB": 0, "Rf_setAttrib": 0, "SET_OBJECT": 0, "SETCAR": 0,
       "SETCDR": 0, "SETCADR": 0, "SET_TAG": 0, "Rf_copyMostAttrib": 1, "Rf_namesgets": 0, "Rf_classgets": 0,
       "Rf_dimgets": 0, "SETLENGTH": 0, "SET_S4_OBJECT": 0, "UNSET_S4_OBJECT": 0, "SET_FORMALS": 0, "SET_BODY": 0,
       "SET_CLOENV": 0, "SHALLOW_DUPLICATE_ATTRIB": 0, "DUPLICATE_ATTRIB": 0, "SET_GROWABLE_BIT": 0, "Rf_sortVector": 0}
DATA = {"INTEGER", "LOGICAL", "REAL", "COMPLEX", "RAW", "DATAPTR", "STDVEC_DATAPTR", "STRING_PTR", "VECTOR_PTR",
        "INTEGER_RO", "LOGICAL_RO", "REAL_RO", "COMPLEX_RO", "RAW_RO", "DATAPTR_RO", "STRING_PTR_RO", "VECTOR_PTR_RO"}
SAME = {"Rf_protect": 0, "Rf_coerceVector": 0}
ATTR = {"ATTRIB", "Rf_getAttrib"}
REACH = {"VECTOR_ELT", "CAR", "CADR", "CADDR", "TAG", "FORMALS", "BODY", "CLOENV"}
SPINE = {"CDR", "CDDR"}   # copying a pairlist copies every cell
STORE = {"SET_VECTOR_ELT": 2, "SETCAR": 1, "SETCDR": 1}
COPY = {"Rf_shallow_duplicate", "Rf_lengthgets", "Rf_xlengthgets"}


class Summary:
    __slots__ = ("ret", "relts", "outs", "mut", "put")

    def __init__(self):
        self.ret = {}      # token -> conds
        self.relts = set()  # origins of the elements of a new object returned
        self.outs = {}     # (k, off) -> set of (token, cond)
        self.put = {}      # k -> origins stored into the list passed as parameter k
        self.mut = {}      # (token, cond) -> (where, text)

    def key(self):
        return (frozenset(self.ret), frozenset(self.relts), frozenset((k, frozenset(v)) for k, v in self.outs.items()), frozenset(self.mut), frozenset((k, frozenset(v)) for k, v in self.put.items()))


class Alias:
    def __init__(self, M, own=("vec_clone_referenced",), fresh=("r_clone_referenced",), dynamic_own=("vec_owned",), opaque=(), exempt_mut=()):
        self.M = M
        self.own = set(own)
        self.freshfns = set(fresh)
        self.dyn = set(dynamic_own)
        self.opaque = set(opaque)
        self.exempt = set(exempt_mut)
        self.partial = {}    # function -> callee after which its own writes are exempt
        self.sum = {n: Summary() for n in M.funcs}
        self.sites = 0

    def run(self):
        M = self.M
        callers = {}
        for f in M.funcs.values():
            for i in f.calls():
                if i.f in M.funcs:
                    callers.setdefault(i.f, set()).add(f.name)
        order = {}
        seen = set()
        for root in M.funcs:
            if root in seen:
                continue
            seen.add(root)
            st = [(root, iter([c.f for c in M.funcs[root].calls() if c.f in M.funcs]))]
            while st:
                nm, it = st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c)
                        st.append((c, iter([x.f for x in M.funcs[c].calls() if x.f in M.funcs])))
                        break
                else:
                    st.pop()
                    order[nm] = len(order)
        work = [(o, nm) for nm, o in order.items()]
        heapq.heapify(work)
        inw = set(order)
        n = 0
        while work:
            _, name = heapq.heappop(work)
            inw.discard(name)
            n += 1
            if n > 40000:
                raise RuntimeError("alias analysis does not converge")
            s = self.function(M.funcs[name])
            if s.key() != self.sum[name].key():
                self.sum[name] = s
                for c in callers.get(name, ()):
                    if c not in inw:
                        inw.add(c)
                        heapq.heappush(work, (order[c], c))
        self.rounds = n
        return self

    def function(self, f):
        M = self.M
        S = Summary()
        base = M.basename(f.name)
        if base in self.own or base in self.opaque:
            return S
        val = {}      # id -> set of (token, cond)
        pel = {}      # id -> {index: set}: what was stored into the object here
        elt = {}      # id -> set of tokens: what elements of the fresh object may be
        con = {}      # (alloca, off) -> set
        cpy = {}      # alloca -> set of pointer tokens it was copied from
        for k in range(f.nargs):
            val[k] = {(("p", k), U)}

        def get(v):
            if isinstance(v, int):
                return val.get(v, set())
            if isinstance(v, tuple) and v[0] == "g":
                return {(("G", v[1], v[2]), U)}
            return set()

        def elts(v, idx=None, attr=False):
            """origins of what v's elements (or attributes) may be"""
            r = set(elt.get(v, ())) if isinstance(v, int) else set()
            for t, c in get(v):
                if t[0] in OBJ:
                    r.add(((EA if attr else E)(t), c))
            if not attr and isinstance(v, int):
                for (k, at), w in pel.get(v, {}).items():
                    if (idx is None or k is None or k == idx) and flows(at, cur[0], v):
                        r |= w
            return r

        cur = [None]
        fcache = {}

        def flows(at, use, v):
            """what instruction `at` stored into v is still in v at `use`"""
            if use is None or at is None:
                return True
            key = (at.bb, use.bb, v) if at.bb != use.bb else (id(at), id(use), v)
            if key in fcache:
                return fcache[key]
            res = None
            if at.bb == use.bb:
                for x in f.blocks[at.bb]:
                    if x is at:
                        if at is use:
                            break
                        res = True
                        break
                    if x is use:
                        break
            if res is None:
                d = f.defs.get(v)
                stop = d.bb if d is not None else -1
                st, seen = [at.bb], set()
                res = False
                while st and not res:
                    b = st.pop()
                    for n in succs(b):
                        if n == stop or n in seen:
                            continue
                        if n == use.bb:
                            res = True
                            break
                        seen.add(n)
                        st.append(n)
            fcache[key] = res
            return res

        def succs(b):
            t = f.blocks[b][-1]
            r = list(t.s or ())
            if t.op == "switch":
                r += [c[1] for c in t.cases] + [t.deflt]
            return r

        def load(ptrs):
            r = set()
            for t, c in ptrs:
                k = t[0]
                if k == "p":
                    r.add((("F", t[1], 0), c))
                elif k == "P":
                    r.add((("F", t[1], t[2]), c))
                elif k == "A":
                    r |= con.get((t[1], t[2]), set())
                    for src in cpy.get(t[1], ()):
                        if src[0] in ("p", "P"):
                            r.add((("F", src[1], (src[2] if src[0] == "P" else 0) + t[2]), c))
                        elif src[0] == "A" and src[1] != t[1]:
                            r |= con.get((src[1], src[2] + t[2]), set())
                elif k == "D":
                    r.add((E(t[1]), c))
                elif k == "G":
                    if t[1] != "R_NilValue":
                        r.add((("g", t[1], t[2]), c))
                elif k == "DE":
                    r.add((t[1], c))
            return r

        def cond_of(v, depth=0):
            """ownership flag: False / True / dynamic / condition token / None"""
            if isinstance(v, tuple):
                if v[0] == "c":
                    return bool(v[1])
                return None
            if depth > 6:
                return None
            d = f.defs.get(v)
            if d is None:
                return ("p", v) if v < f.nargs else None
            if d.op in ("zext", "sext", "trunc", "freeze", "and") or (d.op == "icmp" and d.p == "ne" and isinstance(d.a[1], tuple)):
                return cond_of(d.a[0], depth + 1)
            if d.op == "call" and d.f and M.basename(d.f) in self.dyn:
                return "dyn"
            if d.op == "phi":
                cs = {cond_of(x, depth + 1) if x != v else "dyn" for x, _ in d.inn}
                cs.discard("dyn")
                cs.discard(False)
                if not cs:
                    return False
                return cs.pop() if len(cs) == 1 else None
            if d.op == "select":
                cs = {cond_of(x, depth + 1) for x in d.a[1:]} - {"dyn", False}
                if not cs:
                    return False
                return cs.pop() if len(cs) == 1 else None
            if d.op == "load":
                ps = get(d.a[0])
                if len(ps) == 1:
                    t = next(iter(ps))[0]
                    if t[0] == "P":
                        return ("F", t[1], t[2])
                    if t[0] == "p":
                        return ("F", t[1], 0)
                    if t[0] == "A":
                        vals = flag.get((t[1], t[2]), set())
                        vals = vals - {"dyn", False}
                        if not vals:
                            for src in cpy.get(t[1], ()):
                                if src[0] in ("p", "P"):
                                    return ("F", src[1], (src[2] if src[0] == "P" else 0) + t[2])
                            return False
                        return vals.pop() if len(vals) == 1 else None
            return None

        flag = {}

        def both(*cs):
            """conjunction; beyond twelve atoms the rest is dropped (a weaker condition)"""
            r = frozenset().union(*[c for c in cs if c])
            return r if len(r) <= 12 else frozenset(sorted(r, key=str)[:12])

        def resolve(c, i):
            """condition of a callee expressed at call i; False when it cannot hold"""
            out = set()
            for x in c:
                r = resolve1(x, i)
                if r is False:
                    return False
                if r is not None:
                    out.add(r)
            return frozenset(out)

        def resolve1(c, i):
            if c[0] == "p":
                if c[1] >= len(i.a):
                    return None
                r = cond_of(i.a[c[1]])
            else:
                r = False
                ps = get(i.a[c[1]]) if c[1] < len(i.a) else set()
                rs = set()
                for t, _ in ps:
                    if t[0] == "A":
                        v = flag.get((t[1], t[2] + c[2]), set())
                        if v:
                            rs |= v
                        for src in cpy.get(t[1], ()):
                            if src[0] in ("p", "P") and not v:
                                rs.add(("F", src[1], (src[2] if src[0] == "P" else 0) + t[2] + c[2]))
                    elif t[0] == "p":
                        rs.add(("F", t[1], c[2]))
                    elif t[0] == "P":
                        rs.add(("F", t[1], t[2] + c[2]))
                rs -= {"dyn", False}
                if not rs:
                    r = False
                else:
                    r = rs.pop() if len(rs) == 1 else True
            if r == "dyn" or r is False:
                return False
            if r is True or r is None:
                return None
            return r

        def inst(tok, i):
            """callee token -> set of (token, cond) here"""
            k = tok[0]
            if k == "p":
                return get(i.a[tok[1]]) if tok[1] < len(i.a) else set()
            if k == "P":
                r = set()
                for t, c in (get(i.a[tok[1]]) if tok[1] < len(i.a) else ()):
                    n = shift(t, tok[2])
                    if n:
                        r.add((n, c))
                return r
            if k == "F":
                if tok[1] >= len(i.a):
                    return set()
                ps = set()
                for t, c in get(i.a[tok[1]]):
                    n = shift(t, tok[2])
                    if n:
                        ps.add((n, c))
                return load(ps)
            if k in ("E", "Ea"):
                r = set()
                if tok[1][0] == "p" and tok[1][1] < len(i.a):
                    idx = None
                    if i.f and M.basename(i.f) == "r_list_get" and isinstance(i.a[1], tuple) and i.a[1][0] == "c":
                        idx = i.a[1][1]
                    return elts(i.a[tok[1][1]], idx, k == "Ea")
                for t, c in inst(tok[1], i):
                    if t[0] in OBJ:
                        r.add(((E if k == "E" else EA)(t), c))
                return r
            if k == "T":
                return {(T(t), c) for t, c in inst(tok[1], i) if t[0] in OBJ}
            if k == "D":
                r = {(("D", t), c) for t, c in inst(tok[1], i)}
                if tok[1][0] == "p" and tok[1][1] < len(i.a):
                    own = {t for t, _ in get(i.a[tok[1][1]])}
                    r |= {(("DE", t), c) for t, c in elts(i.a[tok[1][1]]) if t[0] in OBJ and t[1] not in own}
                return r
            if k == "g":
                return {(tok, U)}
            return set()

        def shift(t, off):
            k = t[0]
            if k == "p":
                return ("P", t[1], off)
            if k in ("P", "A"):
                return (k, t[1], t[2] + off)
            if k == "G":
                return ("G", t[1], t[2] + off)
            if k in ("D", "DE"):
                return t
            return None

        def put(idx, lst, what):
            """an object of origin `what` becomes an element of the list lst"""
            what = {x for x in what if x[0][0] in OBJ and x[0][0] != "g"}
            if not what:
                return
            for t, c in get(lst):
                if t[0] == "p":
                    S.put.setdefault((t[1], idx), set()).update(what)
            if not isinstance(lst, int):
                return
            d = f.defs.get(lst)
            seen = 0
            while d is not None and seen < 4:
                q = pel.setdefault(d.id, {}).setdefault((idx, cur[0]), set())
                if not what <= q:
                    q |= what
                    self.changed = True
                if d.op == "call" and d.f and M.basename(d.f) in SAME and isinstance(d.a[0], int):
                    d = f.defs.get(d.a[0])
                    seen += 1
                else:
                    break

        def guard(bb):
            """the ownership-like parameter a block is only reached under, if any"""
            if bb in gcache:
                return gcache[bb]
            res = set()
            for b2, blk in enumerate(f.blocks):
                t = blk[-1]
                if t.op != "br" or len(t.s) != 2 or t.s[0] == t.s[1] or not f.dominates(b2, bb) or not t.a:
                    continue
                v = t.a[0]
                inv = False
                for _ in range(4):
                    d = f.defs.get(v) if isinstance(v, int) else None
                    if d is None:
                        break
                    if d.op in ("trunc", "zext", "freeze"):
                        v = d.a[0]
                    elif d.op == "icmp" and d.a[1] == ("c", 0) and d.p in ("ne", "eq"):
                        inv ^= d.p == "eq"
                        v = d.a[0]
                    elif d.op == "icmp" and d.a[1] == ("c", 1) and d.p == "eq":
                        v = d.a[0]
                    else:
                        break
                if isinstance(v, int) and v < f.nargs and not (f.defs.get(v)):
                    tgt = t.s[1] if inv else t.s[0]
                    if f.dominates(tgt, bb) and len(preds(tgt)) == 1:
                        res.add(("p", v))
            gcache[bb] = frozenset(res)
            return gcache[bb]

        gcache = {}
        pcache = {}

        def preds(b):
            if not pcache:
                for b2, blk in enumerate(f.blocks):
                    for x in blk[-1].s or ():
                        pcache.setdefault(x, set()).add(b2)
                    if blk[-1].op == "switch":
                        for x in [c[1] for c in blk[-1].cases] + [blk[-1].deflt]:
                            pcache.setdefault(x, set()).add(b2)
            return pcache.get(b, ())

        def unreferenced(v, pred, bb):
            """the edge pred->bb is only taken when v has no references"""
            for _ in range(3):
                t = f.blocks[pred][-1]
                if t.op == "br" and len(t.s) == 2 and t.a:
                    d = f.defs.get(t.a[0]) if isinstance(t.a[0], int) else None
                    if d is not None and d.op == "icmp" and d.a[1] == ("c", 0):
                        r = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
                        if r is not None and r.op == "call" and r.f and M.basename(r.f) in ("REFCNT", "NAMED", "MAYBE_REFERENCED") and r.a[0] == v:
                            zero_on = {"eq": 0, "ne": 1, "sgt": 1, "ugt": 1, "sle": 0, "ule": 0}.get(d.p)
                            return zero_on is not None and t.s[zero_on] == bb and t.s[0] != t.s[1]
                    return False
                if len(t.s or ()) == 1 and len(preds(pred)) == 1:
                    bb = pred
                    pred = next(iter(preds(pred)))
                    continue
                return False
            return False

        after = None
        if base in self.exempt and base in self.partial:
            after = [c for c in f.calls() if c.f and M.basename(c.f) == self.partial[base]]

        def blocked(i):
            return base in self.exempt and (after is None or any(f.inst_dominates(c, i) for c in after))

        def mutate(toks, i, what):
            if blocked(i):
                return
            g = guard(i.bb)
            for t, c in toks:
                c = both(c, g)
                if t[0] in OBJ:
                    if (t, c) not in S.mut:
                        S.mut[t, c] = ("%s:%s" % (f.file, i.l), what, f.name, (base, what), ())

        def addv(i, new):
            if len(new) > 40:
                new = set(sorted(new, key=str)[:40])
            o = val.setdefault(i.id, set())
            if not new <= o:
                o |= new
                return True
            return False

        for rnd in range(12):
            ch = False
            for i in f.insts():
                op = i.op
                cur[0] = i
                if op == "alloca":
                    ch |= addv(i, {(("A", i.id, 0), U)})
                elif op == "phi":
                    new = set()
                    ne = set()
                    for v, p in i.inn:
                        if isinstance(v, int) and unreferenced(v, p, i.bb):
                            continue
                        new |= get(v)
                        if isinstance(v, int):
                            ne |= elt.get(v, set())
                    # what was stored into a phi's operands is not carried over: whether a
                    # list or a data frame is at hand differs between the branches
                    ch |= addv(i, new)
                    o = elt.setdefault(i.id, set())
                    if not ne <= o:
                        o |= ne
                        ch = True
                elif op == "select":
                    ch |= addv(i, get(i.a[1]) | get(i.a[2]))
                elif op in ("bitcast", "freeze"):
                    ch |= addv(i, get(i.a[0]))
                elif op == "getelementptr":
                    new = set()
                    for t, c in get(i.a[0]):
                        struct = i.st and (i.st.startswith("%") or i.st.startswith("struct") or i.st[0] in "[{")
                        n = shift(t, i.off if (i.off is not None and struct) else 0)
                        if n:
                            new.add((n, c))
                    ch |= addv(i, new)
                elif op == "load":
                    ch |= addv(i, load(get(i.a[0])))
                elif op == "store":
                    v, p = i.a[0], i.a[1]
                    for t, c in get(p):
                        if t[0] == "A":
                            s = con.setdefault((t[1], t[2]), set())
                            n = get(v)
                            if not n <= s:
                                s |= n
                                ch = True
                            fv = cond_of(v)
                            if fv is not None:
                                q = flag.setdefault((t[1], t[2]), set())
                                if fv not in q:
                                    q.add(fv)
                                    ch = True
                        elif t[0] == "D":
                            mutate({(t[1], c)}, i, "writes to its data")
                        elif t[0] in ("p", "P"):
                            # what is stored through a pointer parameter
                            n = get(v)
                            if n:
                                q = S.outs.setdefault((t[1], t[2] if t[0] == "P" else 0), set())
                                n = {x for x in n if x[0][0] in OBJ + ("D",)}
                                q |= n
                elif op == "call":
                    new, ne = self.call(f, i, S, get, elts, load, inst, resolve, cond_of, mutate, con, cpy, shift, guard, blocked, put, both, elt)
                    ch |= addv(i, new)
                    o = elt.setdefault(i.id, set())
                    if not ne <= o:
                        o |= ne
                        ch = True
                    if self.changed:
                        ch = True
                        self.changed = False
            if not ch:
                break
        cur[0] = None
        for i in f.insts():
            if i.op == "ret" and i.a:
                for t, c in get(i.a[0]):
                    if t[0] in OBJ + ("P", "D"):
                        S.ret[t, c] = 1
                if isinstance(i.a[0], int):
                    S.relts |= {x for x in elt.get(i.a[0], ()) if x[0][0] in OBJ}
                    for w in pel.get(i.a[0], {}).values():
                        S.relts |= {x for x in w if x[0][0] in OBJ}
        return S

    changed = False

    def call(self, f, i, S, get, elts, load, inst, resolve, cond_of, mutate, con, cpy, shift, guard, blocked, put, both, elt):
        M = self.M
        self.sites += 1
        if not i.f:
            return set(), set()
        b = M.basename(i.f)
        a = i.a
        if b.startswith("llvm.memcpy") or b.startswith("llvm.memmove") or b in ("memcpy", "memmove"):
            for t, c in get(a[0]):
                if t[0] == "D":
                    mutate({(t[1], c)}, i, "copies into its data")
                elif t[0] == "A":
                    q = cpy.setdefault(t[1], set())
                    for u, _ in get(a[1]):
                        if u[0] in ("p", "P", "A") and t[2] == 0 and u not in q:
                            q.add(u)
                            self.changed = True
            return set(), set()
        if b.startswith("llvm.memset"):
            for t, c in get(a[0]):
                if t[0] == "D":
                    mutate({(t[1], c)}, i, "writes to its data")
            return set(), set()
        if b.startswith("llvm."):
            return set(), set()
        if b in self.freshfns:
            return set(), elts(a[0])
        if b in self.own:
            c = cond_of(a[1])
            if c is True:
                return set(get(a[0])), elts(a[0])
            if c is False or c == "dyn":
                return set(), elts(a[0])
            if c is None:
                return set(get(a[0])), elts(a[0])
            return {(t, both(cc, {c})) for t, cc in get(a[0])}, elts(a[0])
        if i.f not in M.funcs:
            if b in STORE and isinstance(a[0], int):
                put(a[1][1] if b == "SET_VECTOR_ELT" and isinstance(a[1], tuple) and a[1][0] == "c" else None, a[0], get(a[STORE[b]]))
            if b in MUT and len(a) > MUT[b] and b not in self.exempt:
                mutate(get(a[MUT[b]]), i, b)
            if b in DATA:
                return {(("D", t), c) for t, c in get(a[0]) if t[0] in OBJ} | {(("DE", t), c) for t, c in elts(a[0]) if not any(u == t[1] for u, _ in get(a[0]))}, set()
            if b in SAME:
                return set(get(a[SAME[b]])), set(elt.get(a[SAME[b]], ()))
            if b in ATTR:
                return elts(a[0], attr=True), set()
            if b in REACH:
                return elts(a[0], a[1][1] if b == "VECTOR_ELT" and isinstance(a[1], tuple) and a[1][0] == "c" else None), set()
            if b in SPINE:
                return {(T(t), c) for t, c in get(a[0]) if t[0] in OBJ}, elts(a[0])
            if b in COPY:
                return set(), elts(a[0])
            return set(), set()
        s = self.sum[i.f]
        new, ne = set(), set()
        for (t, c) in s.ret:
            rc = resolve(c, i)
            if rc is False:
                continue
            for u, uc in inst(t, i):
                new.add((u, both(uc, rc)))
        for t, c in s.relts:
            rc = resolve(c, i)
            if rc is False:
                continue
            for u, uc in inst(t, i):
                ne.add((u, both(uc, rc)))
        for (t, c), (w, what, fn, root, path) in s.mut.items():
            if blocked(i):
                break
            rc = resolve(c, i)
            if rc is False:
                continue
            g = guard(i.bb)
            for u, uc in inst(t, i):
                if u[0] in OBJ:
                    k = (u, both(uc, rc, g))
                    if k not in S.mut:
                        S.mut[k] = (w, what, fn, root, (b,) + path)
        # a parameter that is returned keeps its element origins
        for (t, c) in s.ret:
            if t[0] == "T":
                t = t[1]
            if t[0] == "p" and t[1] < len(a):
                ne |= elts(a[t[1]]) if not get(a[t[1]]) else set()
        for (k, idx), ts in s.put.items():
            if k < len(a):
                if b == "r_list_poke":
                    idx = a[1][1] if isinstance(a[1], tuple) and a[1][0] == "c" else None
                for u, uc in ts:
                    put(idx, a[k], inst(u, i))
        for (k, off), ts in s.outs.items():
            if k >= len(a):
                continue
            for t, c in get(a[k]):
                n = shift(t, off)
                if n and n[0] == "A":
                    q = con.setdefault((n[1], n[2]), set())
                    add = set()
                    for u, uc in ts:
                        rc = resolve(uc, i)
                        if rc is False:
                            continue
                        for x, xc in inst(u, i):
                            add.add((x, both(xc, rc)))
                    if not add <= q:
                        q |= add
                        self.changed = True
                elif n and n[0] == "P":
                    q = S.outs.setdefault((n[1], n[2]), set())
                    for u, uc in ts:
                        rc = resolve(uc, i)
                        if rc is False:
                            continue
                        for x, xc in inst(u, i):
                            if x[0] in OBJ + ("D",):
                                q.add((x, both(xc, rc)))
        return new, ne
