"""How data is turned back: by path, by class and by depth."""
import cside
import facts
import ranges

SETATTR = ("Rf_setAttrib", "r_attrib_poke")
GETATTR = ("Rf_getAttrib", "r_attrib_get")
WHOLE = ("r_poke_attrib", "SET_ATTRIB")
MARK = ("r_mark_s4", "SET_S4_OBJECT", "Rf_asS4")
ISS4 = ("IS_S4_OBJECT", "Rf_isS4", "r_is_s4")
# what a class of vectors without R methods is turned back by
BY_CLASS = {"none": "vec_restore_default", "bare_factor": "vec_restore_default", "bare_ordered": "vec_restore_default",
            "bare_date": "vec_date_restore", "bare_posixct": "vec_posixct_restore", "bare_posixlt": "vec_posixlt_restore",
            "bare_data_frame": "vec_bare_df_restore", "bare_tibble": "vec_bare_df_restore"}
DISPATCHED = ("vec_restore_dispatch", "vec_df_restore")
DEEP, SHALLOW = "vec_restore_recurse", "vec_restore"


class PutBack:
    def __init__(self, M, rep, O, flow):
        self.M, self.rep, self.O, self.flow = M, rep, O, flow

    def sym(self, f, v):
        return cside.symname(self.M, f, v, self.O.S.cg)

    def isnull(self, f, p, v):
        v = p.res(v)
        d = f.defs.get(v) if isinstance(v, int) else None
        return v == ("null",) or d is not None and d.op == "load" and d.a[0][:2] == ("g", "R_NilValue")

    def under(self, f, p, v):
        """the call a value comes from, seeing through protection"""
        v = p.res(v)
        d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        n = 0
        while d is not None and d.op == "call" and self.M.basename(d.f) in ("Rf_protect", "PROTECT_N") and n < 9:
            v = p.res(d.a[0])
            d = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
            n += 1
        return v, d

    def nullness(self, f, p):
        """{value: True if known to be NULL, False if known not to be}, calls known to be true or false"""
        null, calls = {}, {}
        for a in p.atoms():
            if a[0] == "icmp" and a[1] in ("eq", "ne"):
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if self.isnull(f, p, y) and not self.isnull(f, p, x):
                        null[self.under(f, p, x)[0]] = a[1] == "eq"
                    d = f.defs.get(p.res(x)) if isinstance(p.res(x), int) else None
                    if d is not None and d.op == "call" and facts.const_of(p, y) == 0 and d.t != "ptr":
                        calls[d.id] = a[1] == "ne"
            if a[0] == "val":
                calls[a[1]] = a[2]
        return null, calls

    def line(self, f):
        return "%s:%s" % (f.file, f.line)

    # -- attributes, path by path
    def attributes(self):
        M, rep = self.M, self.rep
        f = M.get("vec_restore_default")
        said = set()

        def bad(key, text):
            if key not in said:
                said.add(key)
                rep.violation("putback", key, self.line(f), "vec_restore_default() " + text)
        n = 0
        for bi, b in enumerate(f.blocks):
            if b[-1].op != "ret":
                continue
            for p in self.through(f, bi):
                n += 1
                null, calls = self.nullness(f, p)
                seq = [i for x in p.blocks for i in f.blocks[x] if i.op == "call"]
                s4 = [calls.get(i.id) for i in seq if M.basename(i.f) in ISS4]
                at = [null.get(i.id) for i in seq if M.basename(i.f) in ("r_attrib", "ATTRIB") and self.under(f, p, i.a[0])[0] == 1]
                whole = [k for k, i in enumerate(seq) if M.basename(i.f) in WHOLE]
                marked = any(M.basename(i.f) in MARK for i in seq)
                if not (False in s4) and not marked:
                    bad("s4", "can hand out the data without marking it as an S4 object as the target is")
                if not whole:
                    if True not in at:
                        bad("early", "can hand out the data without the attributes of the target although there are some")
                    continue
                # what may have been put back, and why it was not
                got, vals = {}, {}
                for k, i in enumerate(seq):
                    if M.basename(i.f) in GETATTR or M.basename(i.f) == "df_rownames":
                        s = self.sym(f, i.a[1]) if M.basename(i.f) in GETATTR else "row.names"
                        if k < whole[0] and self.of_data(f, p, i.a[0]):
                            got[s] = i.id
                done = {self.sym(f, i.a[1]): i for k, i in enumerate(seq) if M.basename(i.f) in SETATTR and k > whole[-1]}
                frame = [calls.get(i.id) for i in seq if M.basename(i.f) == "is_data_frame"]
                dim = got.get("dim")
                for s in ("names", "dim", "dimnames", "row.names"):
                    if s in done:
                        v = self.under(f, p, done[s].a[2])[0]
                        if got.get(s) != v:
                            bad(s, "puts something else than that of the data in the place of the attribute %s" % s)
                        if s == "row.names" and True not in frame:
                            bad("row.names of others", "puts row names on what is not a data frame")
                        continue
                    why = (s in got and null.get(got[s]) is True or s == "names" and dim is not None and null.get(dim) is False
                           or s in ("dim", "dimnames") and dim is not None and null.get(dim) is True
                           or s == "row.names" and (False in frame or dim is not None and null.get(dim) is False))
                    if not why:
                        bad(s, "can lose the attribute %s of the data" % s)
                if "class" not in done:
                    # only if the target has none: what is tested is what would be set
                    cls = {p.res(i.a[2]) for i in f.calls() if M.basename(i.f) in SETATTR and self.sym(f, i.a[1]) == "class"}
                    if not any(null.get(self.under(f, p, c)[0]) is True or self.isnull(f, p, c) for c in cls):
                        bad("class", "can lose the class of the target")
        if not said:
            rep.ok("putback", n, "vec_restore_default(): %d paths" % n)
        # a node taken out of the attributes leaves those behind it
        for i in f.calls():
            if M.basename(i.f) in ("r_node_poke_cdr", "SETCDR"):
                d = f.defs.get(i.a[1]) if isinstance(i.a[1], int) else None
                if d is not None and d.op == "call" and M.basename(d.f) in ("r_node_cdr", "CDR"):
                    rep.ok("putback", 1, "%s: skips one attribute" % i.loc())
                else:
                    bad("rest", "drops the attributes behind one that is left out")

    def of_data(self, f, p, v):
        return any(o == ("p", 0) for o in self.flow(f, v))

    def through(self, f, end):
        """paths on which what a loop leaves behind is unknown"""
        heads = set(ranges.loops(f))
        turned = {i.id for h in heads for i in f.blocks[h] if i.op == "phi"}
        return [facts.Path(f, p.blocks, {k: v for k, v in p.env.items() if k not in turned}, p.facts) for p in facts.paths(f, 0, end)]

    # -- by class
    def classes(self):
        M, rep = self.M, self.rep
        f = M.get("vec_restore_4")
        codes = {n.replace("VCTRS_CLASS_", ""): v for n, v in M.enums["vctrs_class_type"]}
        ct = [i for i in f.calls() if M.basename(i.f) == "class_type"]
        if f is None or len(ct) != 1:
            raise cside.AnalysisBroken("vec_restore_4() does not look at the class once") if hasattr(cside, "AnalysisBroken") else ValueError("vec_restore_4")
        if not any(o == ("p", 1) for o in self.flow(f, ct[0].a[0])):
            rep.violation("classes", "of", ct[0].loc(), "vec_restore_4() does not go by the class of the target")
        paths = []
        for bi, b in enumerate(f.blocks):
            if b[-1].op == "ret":
                paths += [(p, p.res(b[-1].a[0])) for p in facts.paths(f, 0, bi)]
        for c, v in sorted(codes.items()):
            bad, n = None, 0
            for p, r in paths:
                at = p.atoms()
                if any(a[0] == "icmp" and a[2] == ct[0].id and isinstance(a[3], tuple) and ((a[1] == "eq") != (a[3][1] == v)) and a[1] in ("eq", "ne") for a in at):
                    continue
                n += 1
                names = self.made_by(f, p, r, 0)
                if c in BY_CLASS:
                    if names != {BY_CLASS[c]}:
                        bad = "turns data back into vectors of class %s by %s" % (c, ", ".join(sorted(names)) or "nothing")
                else:
                    rec = any(a[0] == "icmp" and a[1] == "ne" and a[2] == 3 and facts.const_of(p, a[3]) == 0 for a in at)
                    plain = c != "data_frame" and not rec
                    if not names or not names <= set(DISPATCHED) or plain and names != {"vec_restore_dispatch"}:
                        bad = "does not turn data back into vectors of class %s by their method" % c
            if bad or not n:
                rep.violation("classes", c, self.line(f), "vec_restore_4() " + (bad or "never deals with class " + c))
            else:
                rep.ok("classes", 1, c)
        # a class of data frames has its method called last
        g = M.get("vec_df_restore")
        for bi, b in enumerate(g.blocks):
            if b[-1].op == "ret":
                for p in facts.paths(g, 0, bi):
                    if self.made_by(g, p, p.res(b[-1].a[0]), 0) != {"vec_restore_dispatch"}:
                        rep.violation("classes", "data frames", self.line(g), "vec_df_restore() can hand out a data frame without its class having turned it back")
                        return
        rep.ok("classes", 1, "vec_df_restore()")

    def made_by(self, f, p, r, depth):
        v, d = self.under(f, p, r)
        if d is None or d.op != "call":
            return set()
        n = self.M.basename(d.f)
        if n in BY_CLASS.values() or n in DISPATCHED or depth > 3:
            return {n}
        g = self.M.funcs.get(d.f)
        if g is None:
            return {n}
        out = set()
        for bi, b in enumerate(g.blocks):
            if b[-1].op == "ret":
                for q in facts.paths(g, 0, bi):
                    out |= self.made_by(g, q, q.res(b[-1].a[0]), depth + 1)
        return out

    # -- a data frame always has names and row names
    def frames(self):
        M, rep = self.M, self.rep
        f = M.get("vec_bare_df_restore")
        said = set()
        n = 0
        for bi, b in enumerate(f.blocks):
            if b[-1].op != "ret":
                continue
            for p in facts.paths(f, 0, bi):
                n += 1
                null, calls = self.nullness(f, p)
                seq = [i for x in p.blocks for i in f.blocks[x] if i.op == "call"]
                back = [k for k, i in enumerate(seq) if M.basename(i.f) == "vec_restore_default"]
                if not back:
                    said.add("hands out a data frame without its attributes")
                    continue
                tail = seq[back[-1]:]
                nm = [null.get(i.id) for i in tail if M.basename(i.f) in GETATTR and self.sym(f, i.a[1]) == "names"]
                rn = [null.get(i.id) for i in tail if M.basename(i.f) == "df_rownames"]
                if False not in nm and not any(M.basename(i.f) in SETATTR and self.sym(f, i.a[1]) == "names" for i in tail):
                    said.add("can hand out a data frame without names")
                if False not in rn and not any("init" in M.basename(i.f) and "rownames" in M.basename(i.f) for i in tail):
                    said.add("can hand out a data frame without row names")
        for t in said:
            rep.violation("frames", t, self.line(f), "vec_bare_df_restore() " + t)
        if not said:
            rep.ok("frames", n, "vec_bare_df_restore(): %d paths" % n)

    # -- what was taken apart column by column is put together in the same way
    def depth(self):
        M, rep, O = self.M, self.rep, self.O
        for f in M.funcs.values():
            if f.name not in O.live:
                continue
            for i in f.calls():
                b = M.basename(i.f)
                if b not in (DEEP, SHALLOW):
                    continue
                if f.base == "vec_bare_df_restore":
                    if b == DEEP:
                        rep.ok("depth", 1, i.loc())
                    else:
                        rep.violation("depth", f.base, i.loc(), "%s() turns back columns, but not those inside them" % f.base)
                    continue
                by = set()
                for o in self.flow(f, i.a[0]):
                    d = f.defs.get(o[1]) if o[0] == "v" else None
                    if d is not None and d.op == "call" and M.basename(d.f) in ("vec_proxy", "vec_proxy_recurse"):
                        by.add(M.basename(d.f))
                if len(by) != 1:
                    continue
                deep = by == {"vec_proxy_recurse"}
                if deep == (b == DEEP):
                    rep.ok("depth", 1, i.loc())
                else:
                    rep.violation("depth", f.base, i.loc(), "%s() turns back %s" % (f.base, "only the whole, although its columns were taken apart too" if deep else "columns that were not taken apart"))

    # -- what was taken apart on a path is turned back on it
    def paired(self):
        M, rep, O = self.M, self.rep, self.O
        for f in M.funcs.values():
            if f.name not in O.live or f.base in ("vec_proxy", "vec_proxy_recurse"):
                continue
            taken = [i for i in f.calls() if M.basename(i.f) in ("vec_proxy", "vec_proxy_recurse")]
            back = [i for i in f.calls() if M.basename(i.f) in (DEEP, SHALLOW)]
            if not taken or not back:
                continue
            for i in f.calls():
                if M.basename(i.f) not in ("SET_VECTOR_ELT", "r_list_poke"):
                    continue
                fl = self.flow(f, i.a[2])
                for c in taken:
                    rs = {r.bb for r in back if ("v", r.id) in fl and ("v", c.id) in self.flow(f, r.a[0])}
                    if ("v", c.id) not in fl or not rs:
                        continue
                    try:
                        ps = facts.paths(f, c.bb, i.bb)
                    except facts.TooMany:
                        continue
                    # how the block with the call was come to
                    into = self.before(f, c.bb)
                    bad = [p for p in ps if not rs & set(p.blocks) and self.agrees(f, p, into)]
                    if bad:
                        rep.violation("paired", f.base, i.loc(), "%s() can put bare data into a list without having turned it back" % f.base)
                    else:
                        rep.ok("paired", 1, i.loc())

    def key(self, f, p, cond, truth):
        v, t = p.res(cond) if not isinstance(cond, tuple) else cond, truth
        for _ in range(8):
            d = f.defs.get(v) if isinstance(v, int) else None
            if d is None:
                break
            if d.op in ("trunc", "zext", "freeze"):
                v = p.res(d.a[0])
            elif d.op == "icmp" and d.p in ("eq", "ne") and facts.const_of(p, d.a[1]) == 0:
                v, t = p.res(d.a[0]), t == (d.p == "ne")
            elif d.op == "xor" and d.a[1] in (("c", -1), ("c", 1)):
                v, t = p.res(d.a[0]), not t
            elif d.op == "load":
                b, o = self.O.S.base(f, d.a[0])
                return ("ld", str(b), str(o)), t
            else:
                break
        return ("v", str(v)), t

    def before(self, f, b):
        out = {}
        p = facts.Path(f, [], {}, [])
        while True:
            up = f.idom[b] if b < len(f.idom) else None
            if up is None:
                return out
            t = f.blocks[up][-1]
            if t.op == "br" and t.a and t.s[0] != t.s[1]:
                for k in (0, 1):
                    if len(f.pred[t.s[k]]) == 1 and f.dominates(t.s[k], b):
                        kk, tt = self.key(f, p, t.a[0], k == 0)
                        out.setdefault(kk, tt)
            b = up

    def agrees(self, f, p, into):
        seen = dict(into)
        for c, t in p.facts:
            if isinstance(c, tuple):
                continue
            k, tt = self.key(f, p, c, t)
            if seen.setdefault(k, tt) != tt:
                return False
        return True
