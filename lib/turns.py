"""Whether loops over elements go from the first to the last, and what they fill
is filled."""
import loops

# length argument of allocating functions
ALLOC = {"Rf_allocVector": 1, "r_alloc_vector": 1, "r_new_vector": 1, "r_new_logical": 0, "r_new_integer": 0, "r_alloc_integer": 0, "r_alloc_logical": 0, "r_alloc_double": 0,
         "r_alloc_raw": 0, "r_alloc_complex": 0, "r_alloc_character": 0, "r_alloc_list": 0, "r_new_raw": 0, "r_new_list": 0}
SAME = {"INTEGER", "LOGICAL", "REAL", "COMPLEX", "RAW", "r_int_begin", "r_lgl_begin", "r_dbl_begin", "r_cpl_begin", "r_raw_begin", "Rf_protect"}
LENGTH = {"Rf_xlength", "Rf_length", "r_length", "vec_size", "r_lgl_sum", "df_size", "df_raw_size", "r_ssize_as_integer"}
POKE = {"SET_STRING_ELT": 1, "SET_VECTOR_ELT": 1, "r_chr_poke": 1, "r_list_poke": 1, "r_int_poke": 1, "r_lgl_poke": 1, "r_dbl_poke": 1}
# loops over something else than all elements, and why
OTHER = {
    ("new_strides_info", "first"): "the index of the first dimension is handled before the loop",
    ("new_strides_info", "last"): "steps between dimensions: one less than there are dimensions",
    ("vec_shape_index_increment", "left"): "counts up the digits of an index, like an odometer",
    ("dict_hash_with", "fixed"): "probing of the hash table, not a loop over elements",
}


def strip(f, v):
    for _ in range(12):
        d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        if d is not None and d.op in ("sext", "zext", "trunc", "freeze"):
            v = d.a[0]
        elif d is not None and d.op == "call" and d.f in ("r_ssize_as_integer",):
            v = d.a[0]
        else:
            break
    return v


class Check:
    def __init__(self, M, rep, only=None, rules=("ends", "left", "filled")):
        self.M, self.rep, self.only, self.rules = M, rep, only, rules

    def root(self, f, v):
        for _ in range(30):
            d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
            if d is not None and d.op == "call" and self.M.basename(d.f or "") in SAME:
                v = d.a[0]
            else:
                break
        return v

    def same(self, f, a, b):
        a, b = strip(f, a), strip(f, b)
        if a == b:
            return True
        da = f.defs.get(a) if isinstance(a, int) and a >= f.nargs else None
        db = f.defs.get(b) if isinstance(b, int) and b >= f.nargs else None
        return (da is not None and db is not None and da.op == db.op == "call" and da.f == db.f and len(da.a) == len(db.a)
                and all(x == y or self.root(f, x) == self.root(f, y) for x, y in zip(da.a, db.a)))

    def pure(self, f, v):
        """a plain length: an argument, a constant or the length of something"""
        v = strip(f, v)
        if isinstance(v, tuple):
            return v[0] == "c"
        if v < f.nargs:
            return True
        d = f.defs.get(v)
        return d is not None and d.op == "call" and self.M.basename(d.f or "") in LENGTH

    # -- reasons for a loop to begin late or end early
    def neighbours(self, f, ins, ctr, sign):
        """the element before (or after) the current one is looked at too"""
        for i in ins:
            if i.op in ("add", "sub") and i.a[0] == ctr and isinstance(i.a[1], tuple) and i.a[1][0] == "c":
                d = i.a[1][1] if i.op == "add" else -i.a[1][1]
                if d == sign and any(u.op in ("getelementptr", "call", "sext", "phi") and u.bb in {x.bb for x in ins} for u in f.uses.get(i.id, ())):
                    if sign < 0 or any(u.op != "icmp" and u.op != "phi" for u in f.uses.get(i.id, ())):
                        return True
        return False

    def before(self, f, h, body, ctr):
        """the first position is handled before the loop"""
        M = self.M
        blocks = {n[0] for n in body}

        def zero(v):
            """(object, index) of an access outside the loop"""
            d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
            if d is None or d.op != "getelementptr":
                return self.root(f, v), ("c", 0)
            if len(d.a) == 1:
                return self.root(f, d.a[0]), ("c", 0) if not d.off else None
            return self.root(f, d.a[0]), strip(f, d.a[-1])
        ins = list(loops.insts(f, body))
        bases, calls, moved = set(), {}, {}
        phis = {i.id: i for i in f.blocks[h[0]] if i.op == "phi"}
        for i in ins:
            if i.op == "getelementptr" and len(i.a) > 1:
                k = strip(f, i.a[-1])
                if k == ctr:
                    bases.add(self.root(f, i.a[0]))
                elif k in phis:
                    # a second position going along
                    for x, q in phis[k].inn:
                        d = f.defs.get(x) if isinstance(x, int) and x >= f.nargs else None
                        if q not in blocks and d is not None and d.op == "add":
                            moved.setdefault(self.root(f, i.a[0]), set()).update(d.a)
            if i.op == "call" and any(isinstance(a, int) and strip(f, a) == ctr for a in i.a):
                calls.setdefault(i.f or "?", set()).add(tuple(k for k, a in enumerate(i.a) if isinstance(a, int) and strip(f, a) == ctr))
        reads = {i.id for i in ins if i.op == "load" and isinstance(i.a[0], int) and f.defs.get(i.a[0]) is not None and f.defs[i.a[0]].op == "getelementptr"
                 and self.root(f, f.defs[i.a[0]].a[0]) in bases and strip(f, f.defs[i.a[0]].a[-1]) == ctr}
        reads |= {i.id for i in ins if i.op == "call" and (i.f or "?") in calls and i.id is not None}
        # carried from one turn to the next
        for k, p in phis.items():
            if k == ctr:
                continue
            if any(q in blocks and x in reads for x, q in p.inn):
                return True
        for i in f.insts():
            if i.bb in blocks or not f.dominates(i.bb, h[0]):
                continue
            if i.op in ("load", "store"):
                v = i.a[0] if i.op == "load" else i.a[1]
                if not isinstance(v, int):
                    continue
                o, k = zero(v)
                if o in bases and k == ("c", 0) or o in moved and k in moved[o]:
                    return True
            if i.op == "call" and (i.f or "?") in calls and any(max(ks) < len(i.a) and all(i.a[k] == ("c", 0) for k in ks) for ks in calls[i.f or "?"]):
                return True
            if i.op == "call" and i.f and M.basename(i.f) in ("llvm.memcpy.p0.p0.i64", "memcpy"):
                o, k = zero(i.a[0])
                if o in bases:
                    return True
        return False

    def run(self):
        M, rep = self.M, self.rep
        for f in sorted(M.funcs.values(), key=lambda f: (f.file, f.line)):
            if self.only is not None and f.name not in self.only:
                continue
            L, S, entry = loops.loops(f)
            for h, body, exits in L:
                ins = list(loops.insts(f, body))
                blocks = {n[0] for n in body}
                phis = {i.id: i for i in f.blocks[h[0]] if i.op == "phi"}
                ctrs = [k for k, p in phis.items() if (loops.step_of(f, p) or 0) >= 1]
                if not ctrs:
                    continue
                works = {i.bb for i in ins if i.op in ("load", "store", "call") and i.bb != h[0]}
                if not works:
                    continue
                if "ends" in self.rules:
                    self.shape(f, h, body, exits, S, works, ins, phis, ctrs)
                if "left" in self.rules:
                    self.left(f, h, body, exits, S, ins, phis, ctrs)
                if "filled" in self.rules:
                    self.filled(f, h, body, exits, ins, ctrs)

    def shape(self, f, h, body, exits, S, works, ins, phis, ctrs):
        rep = self.rep
        r = loops.incomplete(f, h, body, exits, S, works)
        if r is None:
            rep.ok("ends", 1)
            return
        kind = "first" if "first" in r[0] else "last" if "last" in r[0] else "fixed" if "fixed" in r[0] else "skips"
        line = r[1].l or f.blocks[h[0]][-1].l or f.line
        ok = (f.base, kind) in OTHER
        if kind == "first":
            ok = ok or any(self.before(f, h, body, c) or self.neighbours(f, ins, c, -1) for c in ctrs)
        elif kind == "last":
            ok = ok or any(self.neighbours(f, ins, c, 1) for c in ctrs) or self.mirrored(f, ins, ctrs)
        elif kind == "fixed":
            # only if it also counts up to something else
            tests = [i for i in ins if i.op == "icmp" and any(a in ctrs for a in i.a)]
            ok = ok or not any(all(isinstance(a, int) for a in t.a) for t in tests)
        if ok:
            rep.ok("ends", 1, "%s:%s: %s" % (f.file, line, OTHER.get((f.base, kind), "explained by the code")))
        else:
            rep.violation("ends", "%s|%s" % (f.base, kind), "%s:%s" % (f.file, line), "the loop of %s() %s" % (f.base, r[0]))

    def mirrored(self, f, ins, ctrs):
        """exchanges elements from both ends"""
        subs = {i.id for i in ins if i.op == "sub" and i.a[1] in ctrs}
        down = {i.id for i in f.insts() if i.op == "phi" and loops.step_of(f, i) == -1}
        for i in ins:
            if i.op == "getelementptr" and (i.a[-1] in subs or i.a[-1] in down):
                return True
        return False

    # -- loops filling a result are not left before the end
    def output(self, f, i, ctrs):
        if i.op == "store" and isinstance(i.a[1], int):
            g = f.defs.get(i.a[1])
            if g is not None and g.op == "getelementptr" and strip(f, g.a[-1]) in ctrs:
                return g.a[0]
        if i.op == "call" and self.M.basename(i.f or "") in POKE and strip(f, i.a[1]) in ctrs:
            return i.a[0]
        return None

    def left(self, f, h, body, exits, S, ins, phis, ctrs):
        M, rep = self.M, self.rep
        outs = [(i, b) for i in ins for b in [self.output(f, i, ctrs)] if b is not None]
        if not outs:
            return
        roots = {self.root(f, b) for i, b in outs} | {b for i, b in outs}
        ok = True
        for a, b in exits:
            t = f.blocks[a[0]][-1]
            d = f.defs.get(t.a[0]) if t.a and isinstance(t.a[0], int) else None
            if self.exhausted(f, d, phis, ctrs):
                continue
            if not self.returns(f, S, h, body, a, b, roots):
                continue
            if (f.base, "left") in OTHER:
                continue
            ok = False
            line = t.l or (d.l if d is not None else None) or outs[0][0].l
            rep.violation("left", f.base, "%s:%s" % (f.file, line), "%s() can stop filling its result before the end and return it all the same" % f.base)
            break
        if ok:
            rep.ok("left", 1)

    def exhausted(self, f, d, phis, ctrs, seen=()):
        """the condition says that nothing is left to be done"""
        if d is None:
            return False
        if d.id in seen:
            return True
        seen = seen + (d.id,)
        if d.op == "phi" and d.t in ("i1", "i8"):
            return all(isinstance(x, tuple) or self.exhausted(f, f.defs.get(x), phis, ctrs, seen) for x, _ in d.inn)
        if d.op in ("and", "or", "xor") and d.t == "i1" or d.op in ("trunc", "zext"):
            return all(isinstance(x, tuple) or self.exhausted(f, f.defs.get(x), phis, ctrs, seen) for x in d.a)
        if d.op == "icmp":
            if any(strip(f, x) in ctrs or self.stepped(f, x, ctrs) for x in d.a):
                return True
            if ("c", 0) in d.a and any(self.countdown(f, x) for x in d.a):
                return True
            if any(x in phis and phis[x].t in ("i64", "i32") and x not in ctrs for x in d.a if isinstance(x, int)) and all(isinstance(x, int) for x in d.a):
                return True
        # an iterator asked for the next element
        return d.op == "call" and bool(d.f) and "_next" in self.M.basename(d.f)

    def stepped(self, f, v, ctrs):
        d = f.defs.get(strip(f, v)) if isinstance(v, int) and v >= f.nargs else None
        return d is not None and d.op == "add" and any(a in ctrs for a in d.a)

    def countdown(self, f, v):
        """a number that goes down by one"""
        d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        if d is None:
            return False
        if d.op in ("sub", "add"):
            return any(isinstance(a, tuple) for a in d.a)
        if d.op == "load" and isinstance(d.a[0], int):
            g = f.defs.get(d.a[0])
            for i in f.insts():
                if i.op == "store" and isinstance(i.a[0], int):
                    s = f.defs.get(i.a[0])
                    if s is not None and s.op in ("add", "sub") and (i.a[1] == d.a[0] or g is not None and g.op == "getelementptr" and f.defs.get(i.a[1]) is not None
                                                                    and f.defs[i.a[1]].op == "getelementptr" and f.defs[i.a[1]].off == g.off and f.defs[i.a[1]].st == g.st):
                        return True
        return False

    def returns(self, f, S, h, body, a, b, roots):
        """the edge a->b leads to a return of the result (or of nothing, when
        the result is the caller's)"""
        own = {r for r in roots if isinstance(r, int) and r >= f.nargs}
        first = {}
        if a[1] is not None:
            for i in f.blocks[a[0]]:
                if i.op == "phi":
                    for x, q in i.inn:
                        if q == a[1][0]:
                            first[i.id] = x
        seen, work = set(), [(b, a, tuple(sorted(first.items(), key=lambda kv: kv[0])))]
        while work:
            n, p, env = work.pop()
            if (n, p, env) in seen or n in body or len(seen) > 3000:
                continue
            seen.add((n, p, env))
            e = dict(env)
            for i in f.blocks[n[0]]:
                if i.op == "phi":
                    for x, q in i.inn:
                        if q == p[0]:
                            e[i.id] = e.get(x, x) if isinstance(x, int) else x
            env = tuple(sorted(e.items(), key=lambda kv: kv[0]))
            t = f.blocks[n[0]][-1]
            if t.op == "ret":
                if not t.a:
                    return True
                v = e.get(t.a[0], t.a[0]) if isinstance(t.a[0], int) else t.a[0]
                if isinstance(v, tuple):
                    # a constant: NULL or false stands for `no result`
                    if v[0] == "c" and f.ret in ("i1", "void", "i32"):
                        if v[1] != 0 and not own:
                            return True
                    continue
                d = f.defs.get(v) if v >= f.nargs else None
                if d is not None and d.op == "load" and isinstance(d.a[0], tuple):
                    continue
                if self.root(f, v) in roots or v in roots:
                    return True
                if d is not None and d.op == "call":
                    # what something else makes of it
                    if any(x in roots or self.root(f, x) in roots for x in d.a if isinstance(x, int)):
                        return True
                    continue
                if d is not None and d.op == "phi":
                    if any(x in roots or self.root(f, x) in roots for x, _ in d.inn if isinstance(x, int)):
                        return True
                    continue
                if not own:
                    return True
                continue
            for s in S[n]:
                work.append((s, n, env))
        return False

    # -- what is allocated here is filled up to its end
    def filled(self, f, h, body, exits, ins, ctrs):
        M, rep = self.M, self.rep
        for i in ins:
            base = self.output(f, i, ctrs)
            if base is None:
                continue
            d = f.defs.get(self.root(f, base)) if isinstance(base, int) else None
            if d is None or d.op != "call" or M.basename(d.f or "") not in ALLOC:
                continue
            size = d.a[ALLOC[M.basename(d.f)]]
            for a, b in exits:
                t = f.blocks[a[0]][-1]
                c = f.defs.get(t.a[0]) if t.a and isinstance(t.a[0], int) else None
                if c is None or c.op != "icmp" or not any(strip(f, x) in ctrs for x in c.a):
                    continue
                bound = next((x for x in c.a if strip(f, x) not in ctrs), None)
                if bound is None:
                    continue
                if self.same(f, size, bound):
                    rep.ok("filled", 1)
                elif self.pure(f, size) and self.pure(f, bound):
                    rep.violation("filled", f.base, i.loc(), "%s() fills a vector up to another size than it was made with" % f.base)
