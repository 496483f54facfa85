"""SSA program representation read from irdump."""
import json


class Inst:
    __slots__ = ("id", "op", "t", "l", "lc", "a", "f", "fp", "s", "cases", "deflt", "inn", "off", "sc", "st", "p",
                 "at", "sz", "n", "idx", "frm", "sret", "byval", "bb", "pos", "fn")

    def __repr__(self):
        return "<%s %s %s %s>" % (self.id, self.op, self.f or "", self.a)

    def loc(self):
        return "%s:%s" % (self.fn.file, self.l)


def _op(o):
    if isinstance(o, int):
        return o
    if "c" in o:
        return ("null",) if o.get("null") else ("c", o["c"])
    if "g" in o:
        return ("g", o["g"], o["o"])
    if "f" in o:
        return ("f", o["f"])
    return ("u", o.get("k"))


NULL = ("null",)


class Func:
    def __init__(self, d, mod):
        self.mod = mod
        self.name = d["name"]
        self.base = d["base"]
        self.args = d["args"]
        self.nargs = len(self.args)
        self.ret = d["ret"]
        self.local = d["local"]
        f = d.get("file") or "?"
        self.file = f[len(mod.repo) + 1:] if f.startswith(mod.repo + "/") else f
        self.line = d.get("line", 0)
        self.di = d.get("di", [])
        self.pn = {k: v for k, v in d.get("pn", [])}
        self.vn = {int(k): v for k, v in d["vn"].items()}
        self.vt = {int(k): v for k, v in d["vt"].items()}
        self.blocks = []
        self.defs = {}
        for bi, b in enumerate(d["blocks"]):
            insts = []
            for pos, o in enumerate(b):
                i = Inst()
                i.fn = self
                i.id = o["i"]
                i.op = o["op"]
                i.t = o.get("t")
                i.l = o.get("l")
                i.lc = o.get("lc")
                i.a = tuple(_op(x) for x in o.get("a", ()))
                i.f = o.get("f")
                i.fp = _op(o["fp"]) if "fp" in o else None
                i.s = o.get("s")
                i.cases = [tuple(c) for c in o["cases"]] if "cases" in o else None
                i.deflt = o.get("def")
                i.inn = [(_op(v), b2) for v, b2 in o["in"]] if "in" in o else None
                i.off = o.get("off")
                i.sc = o.get("sc")
                i.st = o.get("st")
                i.p = o.get("p")
                i.at = o.get("at")
                i.sz = o.get("sz")
                i.n = o.get("n")
                i.idx = o.get("idx")
                i.frm = o.get("from")
                i.sret = o.get("sret")
                i.byval = o.get("byval")
                i.bb = bi
                i.pos = pos
                insts.append(i)
                self.defs[i.id] = i
            self.blocks.append(insts)
        self.succ = []
        self.pred = [[] for _ in self.blocks]
        for bi, b in enumerate(self.blocks):
            t = b[-1]
            if t.op == "br":
                s = list(t.s)
            elif t.op == "switch":
                s = [t.deflt] + [c[1] for c in t.cases]
            else:
                s = []
            s2 = []
            for x in s:
                if x not in s2:
                    s2.append(x)
            self.succ.append(s2)
            for x in s2:
                self.pred[x].append(bi)
        self._uses = None
        self._dom = None
        self._live = None

    def __repr__(self):
        return "<Func %s>" % self.name

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for b in self.blocks:
                for i in b:
                    for x in i.a:
                        if isinstance(x, int):
                            u.setdefault(x, []).append(i)
                    if isinstance(i.fp, int):
                        u.setdefault(i.fp, []).append(i)
                    if i.inn:
                        for v, _ in i.inn:
                            if isinstance(v, int):
                                u.setdefault(v, []).append(i)
            self._uses = u
        return self._uses

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op == "call":
                    yield i

    @property
    def live_out(self):
        """Per block: set of value ids live at the end."""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            phi_use = [set() for _ in range(n)]
            for bi, b in enumerate(self.blocks):
                for i in b:
                    if i.op == "phi":
                        for v, p in i.inn:
                            if isinstance(v, int):
                                phi_use[p].add(v)
                    else:
                        for x in i.a:
                            if isinstance(x, int) and x not in dfn[bi]:
                                use[bi].add(x)
                        if isinstance(i.fp, int) and i.fp not in dfn[bi]:
                            use[bi].add(i.fp)
                    dfn[bi].add(i.id)
            lin = [set() for _ in range(n)]
            lout = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for bi in range(n - 1, -1, -1):
                    o = set(phi_use[bi])
                    for s in self.succ[bi]:
                        o |= lin[s]
                    i = use[bi] | (o - dfn[bi])
                    if o != lout[bi] or i != lin[bi]:
                        lout[bi] = o
                        lin[bi] = i
                        ch = True
            self._live = lout
            self._livein = lin
        return self._live

    @property
    def idom(self):
        if self._dom is None:
            self._dom = dominators(len(self.blocks), self.succ, self.pred)
        return self._dom

    def dominates(self, a, b):
        """Block a dominates block b."""
        d = self.idom
        while b is not None:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]
        return False

    def inst_dominates(self, a, b):
        if a.bb == b.bb:
            return a.pos < b.pos
        return self.dominates(a.bb, b.bb)

    def argname(self, k):
        return self.args[k]["n"]

    def valname(self, v):
        if isinstance(v, int):
            if v in self.vn:
                return self.vn[v]
            if v < self.nargs:
                return self.args[v]["n"]
            d = self.defs.get(v)
            if d is not None and d.op == "call":
                return "%s(...)" % (d.f or "<indirect>")
            return "%%%d" % v
        return str(v)


def dominators(n, succ, pred):
    order = []
    seen = [False] * n
    stack = [(0, iter(succ[0]))]
    seen[0] = True
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = [None] * n
    idom[0] = 0
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in num and idom[p] is not None:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom[b] != new:
                idom[b] = new
                ch = True
    idom[0] = None
    return idom


class Module:
    def __init__(self, text, repo="/repo"):
        import common
        self.repo = common.REPO
        lines = text.splitlines()
        h = json.loads(lines[0])
        self.structs = h["structs"]
        self.enums = h["enums"]
        self.globals = h["globals"]
        self.decls = h["decls"]
        self.funcs = {}
        self.bybase = {}
        for l in lines[1:]:
            f = Func(json.loads(l), self)
            self.funcs[f.name] = f
            self.bybase.setdefault(f.base, []).append(f)

    def get(self, name):
        f = self.funcs.get(name)
        if f is None and self.bybase.get(name):
            f = self.bybase[name][0]
        return f

    def need(self, name):
        from common import AnalysisBroken
        f = self.get(name)
        if f is None:
            raise AnalysisBroken("function %s not found" % name)
        return f

    def basename(self, name):
        if name is None:
            return None
        f = self.funcs.get(name)
        return f.base if f else name

    def gfield(self, g, off):
        """Field path name of a struct global at a byte offset."""
        gi = self.globals.get(g)
        if not gi or "di" not in gi:
            return None
        t = gi["di"]
        path = []
        while t.startswith("struct "):
            mem = self.structs.get(t[7:])
            if not mem:
                return None
            for o, nm, ty, sz in mem:
                if o <= off < o + sz:
                    path.append(nm)
                    off -= o
                    t = ty
                    break
            else:
                return None
        return ".".join(path) if path and off == 0 else None
