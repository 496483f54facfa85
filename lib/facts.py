"""What is known about values on the paths that lead to an instruction: the
outcomes of the tests taken on the way, with phi nodes resolved per path."""

INV = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
FINV = {"oeq": "une", "une": "oeq", "olt": "uge", "uge": "olt", "ogt": "ule", "ule": "ogt", "oge": "ult", "ult": "oge", "ole": "ugt", "ugt": "ole",
        "one": "ueq", "ueq": "one", "ord": "uno", "uno": "ord"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "oeq": "oeq", "une": "une", "olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "one": "one", "ueq": "ueq", "ord": "ord", "uno": "uno"}


class TooMany(Exception):
    pass


class Path:
    __slots__ = ("f", "blocks", "env", "facts")

    def __init__(self, f, blocks, env, facts):
        self.f = f
        self.blocks = blocks
        self.env = env
        self.facts = facts

    def res(self, v):
        """a value as seen on this path"""
        f = self.f
        for _ in range(30):
            if not isinstance(v, int):
                return v
            if v in self.env:
                v = self.env[v]
                continue
            d = f.defs.get(v)
            if d is not None and d.op in ("freeze",):
                v = d.a[0]
                continue
            return v
        return v

    def atoms(self):
        out = []
        for cond, truth in self.facts:
            atoms(self, cond, truth, out, 0)
        return out


def possible(path):
    """whether the facts of a path do not plainly contradict each other"""
    seen = {}
    for a in path.atoms():
        if a[0] == "icmp" and a[1] in ("eq", "ne"):
            k = (a[2], a[3])
            if seen.setdefault(k, a[1]) != a[1]:
                return False
        elif a[0] == "val":
            if seen.setdefault(a[1], a[2]) != a[2]:
                return False
    return True


def const_of(path, v, depth=0):
    """integer constant a value has on the path, or None"""
    v = path.res(v)
    if isinstance(v, tuple):
        return v[1] if v[0] == "c" and len(v) == 2 else 0 if v == ("null",) else None
    d = path.f.defs.get(v)
    if d is None or depth > 6:
        return None
    if d.op in ("zext", "trunc", "sext"):
        c = const_of(path, d.a[0], depth + 1)
        if c is None:
            return None
        if d.op == "trunc" and d.t == "i1":
            return c & 1
        return -c if d.op == "sext" and c == 1 else c
    if d.op == "icmp":
        a, b = const_of(path, d.a[0], depth + 1), const_of(path, d.a[1], depth + 1)
        if a is None or b is None:
            return None
        if d.p == "eq":
            return int(a == b)
        if d.p == "ne":
            return int(a != b)
    if d.op == "xor":
        a, b = const_of(path, d.a[0], depth + 1), const_of(path, d.a[1], depth + 1)
        return None if a is None or b is None else a ^ b
    return None


def atoms(path, v, truth, out, depth):
    """atoms known when the boolean v is truth:
    (kind, pred, a, b) for comparisons, ('class', mask, a, truth), ('val', id, truth)"""
    if isinstance(v, tuple) and v and v[0] == "switch":
        out.append(("icmp", "eq" if truth else "ne", path.res(v[1]), ("c", v[2])))
        return
    v = path.res(v)
    if not isinstance(v, int) or depth > 12:
        return
    f = path.f
    d = f.defs.get(v)
    if d is None:
        out.append(("val", v, truth))
        return
    if d.op in ("zext", "trunc", "freeze"):
        atoms(path, d.a[0], truth, out, depth + 1)
        out.append(("val", v, truth))
        return
    if d.op == "xor" and d.a[1] in (("c", -1), ("c", 1)):
        atoms(path, d.a[0], not truth, out, depth + 1)
        return
    if d.op == "and" and truth or d.op == "or" and not truth:
        for x in d.a:
            atoms(path, x, truth, out, depth + 1)
        return
    if d.op == "icmp":
        p = d.p if truth else INV[d.p]
        a, b = path.res(d.a[0]), path.res(d.a[1])
        ca, cb = const_of(path, a), const_of(path, b)
        # comparison of a boolean with a constant
        if cb is not None and isinstance(a, int) and p in ("eq", "ne"):
            da = f.defs.get(a)
            if da is not None and (da.op in ("zext", "icmp", "fcmp", "trunc") or da.t == "i1") and cb in (0, 1):
                atoms(path, a, (p == "eq") == (cb == 1), out, depth + 1)
        out.append(("icmp", p, a, b))
        return
    if d.op == "fcmp":
        p = d.p if truth else FINV[d.p]
        out.append(("fcmp", p, path.res(d.a[0]), path.res(d.a[1])))
        return
    if d.op == "call" and d.f and d.f.startswith("llvm.is.fpclass"):
        m = d.a[1][1]
        out.append(("class", m if truth else 1023 & ~m, path.res(d.a[0])))
        return
    out.append(("val", v, truth))


def paths(f, start, end, limit=4000, env=None, stop=()):
    """acyclic paths from block start to block end (start may equal end)"""
    n = [0]
    res = []
    # blocks that can reach end without passing start again
    reach = {end}
    work = [end]
    while work:
        x = work.pop()
        if x == start:
            continue
        for p in f.pred[x]:
            if p not in reach:
                reach.add(p)
                work.append(p)
    if start not in reach:
        return []

    def step(b, blocks, env, facts):
        if b == end and len(blocks) > (0 if start != end else 0):
            n[0] += 1
            if n[0] > limit:
                raise TooMany(f.name)
            res.append(Path(f, blocks + [b], env, facts))
            return
        blocks = blocks + [b]
        t = f.blocks[b][-1]
        p = Path(f, blocks, env, facts)
        outs = []
        if t.op == "br" and t.a:
            c = const_of(p, t.a[0])
            if t.s[0] == t.s[1]:
                outs.append((t.s[0], facts))
            else:
                if c is None or c & 1:
                    outs.append((t.s[0], facts + [(t.a[0], True)]))
                if c is None or not c & 1:
                    outs.append((t.s[1], facts + [(t.a[0], False)]))
        elif t.op == "br":
            outs.append((t.s[0], facts))
        elif t.op == "switch":
            c = const_of(p, t.a[0])
            v = t.a[0]
            if c is not None:
                tgt = [s for k, s in t.cases if k == c]
                outs.append((tgt[0] if tgt else t.deflt, facts))
            else:
                for k, s in t.cases:
                    outs.append((s, facts + [(("switch", v, k), True)]))
                outs.append((t.deflt, facts + [(("switch", v, k), False) for k, s in t.cases]))
        for s, fc in outs:
            if s not in reach or s in blocks or s in stop and s != end:
                continue
            e2 = env
            for i in f.blocks[s]:
                if i.op != "phi":
                    break
                for v, pb in i.inn:
                    if pb == b:
                        if e2 is env:
                            e2 = dict(env)
                        e2[i.id] = p.res(v)
            step(s, blocks, e2, fc)

    import sys
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 5000))
    if start == end:
        return [Path(f, [start], env or {}, [])]
    step(start, [], env or {}, [])
    return res


def fconst(v):
    if isinstance(v, tuple) and v[0] == "f":
        try:
            return float(v[1])
        except ValueError:
            return None
    return None
