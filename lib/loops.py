"""Loops of a function, and whether they visit everything.

Blocks that only dispatch on a constant chosen by where control came from (the
way the compiler lowers `continue` and `break` next to clean-ups) are split per
predecessor, so that a path through them is the path the program takes."""


def graph(f):
    """nodes: (block, None), or (block, (predecessor, constant)) for blocks
    dispatching on a constant; returns (entry, succ)"""
    def split(b):
        t = f.blocks[b][-1] if f.blocks[b] else None
        if t is not None and t.op in ("switch", "br") and t.a and isinstance(t.a[0], int):
            d = f.defs.get(t.a[0])
            if d is not None and d.op == "phi" and d.bb == b:
                return t, d
        return None
    S = {}
    disp = {b: split(b) for b in range(len(f.blocks))}
    # blocks choosing the constant another one dispatches on
    splits = dict(disp)
    work = [s[1] for s in disp.values() if s]
    while work:
        d = work.pop()
        for x, _ in d.inn:
            e = f.defs.get(x) if isinstance(x, int) else None
            if e is not None and e.op == "phi" and not splits[e.bb]:
                splits[e.bb] = (f.blocks[e.bb][-1], e)
                work.append(e)

    def node(b, n):
        s = splits[b]
        if not s or n is None:
            return (b, None)
        p, sel = n
        for x, q in s[1].inn:
            if q == p:
                if isinstance(x, tuple):
                    return (b, (p, x[1])) if x[0] == "c" else (b, None)
                if splits[p] and splits[p][1].id == x and sel is not None:
                    return (b, (p, sel[1]))
                return (b, (p, None))
        return (b, None)

    def out(n):
        b, sel = n
        s = disp[b]
        if s and sel is not None and sel[1] is not None:
            t, d = s
            if t.op == "switch":
                return [node(dict(t.cases).get(sel[1], t.deflt), n)]
            return [node(t.s[0 if sel[1] else 1], n)]
        return [node(k, n) for k in f.succ[b]]
    entry = node(0, None)
    work = [entry]
    while work:
        n = work.pop()
        if n in S:
            continue
        S[n] = out(n)
        work.extend(S[n])
    return entry, S


def loops(f):
    """[(header, body, exits)] of the natural loops"""
    entry, S = graph(f)
    pred = {n: [] for n in S}
    for a, ss in S.items():
        for b in ss:
            pred[b].append(a)
    allb = set(S)
    dom = {n: set(allb) for n in S}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for n in S:
            if n == entry:
                continue
            ps = [dom[p] for p in pred[n]]
            d = (set.intersection(*ps) if ps else set()) | {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    out = {}
    for a, ss in S.items():
        for h in ss:
            if h in dom[a]:
                body = out.setdefault(h, {h})
                st = [a]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(pred[x])
    res = []
    for h, body in out.items():
        res.append((h, body, [(n, s) for n in body for s in S[n] if s not in body]))
    return res, S, entry


def insts(f, nodes):
    for b in sorted({n[0] for n in nodes}):
        yield from f.blocks[b]


def reach(S, start, stop=(), cut=()):
    """nodes reachable from start without entering `stop` or following `cut` edges"""
    seen, work = set(), [start]
    while work:
        n = work.pop()
        if n in seen or n in stop:
            continue
        seen.add(n)
        work.extend(s for s in S[n] if (n, s) not in cut)
    return seen


def step_of(f, p):
    """constant step of a counter (None: not one)"""
    for x, _ in p.inn:
        d = f.defs.get(x) if isinstance(x, int) else None
        if d is not None and d.op in ("add", "sub") and d.a[0] == p.id and isinstance(d.a[1], tuple) and d.a[1][0] == "c":
            return d.a[1][1] if d.op == "add" else -d.a[1][1]
        if d is not None and d.op == "phi":
            for y, _ in d.inn:
                e = f.defs.get(y) if isinstance(y, int) else None
                if e is not None and e.op == "add" and e.a[0] == p.id and isinstance(e.a[1], tuple) and e.a[1][0] == "c":
                    return e.a[1][1]
    return None


def shrunk(f, w):
    """an expression that makes a bound smaller"""
    b = f.defs.get(w) if isinstance(w, int) and w >= f.nargs else None
    while b is not None and b.op in ("sext", "zext", "trunc"):
        w = b.a[0]
        b = f.defs.get(w) if isinstance(w, int) and w >= f.nargs else None
    if b is None:
        return False
    if b.op == "select":
        return any(isinstance(a, tuple) and a[0] == "c" and a[1] > 0 for a in b.a[1:])
    return b.op in ("sub", "ashr", "lshr", "sdiv", "udiv") and not (b.op == "sub" and isinstance(b.a[1], int)) or b.op == "add" and any(isinstance(a, tuple) and a[0] == "c" and a[1] < 0 for a in b.a)


def incomplete(f, h, body, exits, S, works=None):
    """why a loop counting upwards does not visit every position, or None.
    works: blocks doing the work of the loop"""
    blocks = {n[0] for n in body}
    phis = {i.id: i for i in f.blocks[h[0]] if i.op == "phi"}
    for k, p in phis.items():
        st = step_of(f, p)
        if st is None or st < 1:
            continue
        tests = []
        for u in f.uses.get(k, ()):
            if u.op == "icmp" and u.bb in blocks:
                tests.append((u, k, False))
            if u.op in ("sext", "zext", "trunc"):
                for v in f.uses.get(u.id, ()):
                    if v.op == "icmp" and v.bb in blocks:
                        tests.append((v, u.id, False))
            if u.op == "add" and isinstance(u.a[1], tuple) and u.a[1][0] == "c" and u.a[1][1] > 0:
                for v in f.uses.get(u.id, ()):
                    if v.op == "icmp" and v.bb in blocks:
                        tests.append((v, u.id, True))
        controls = False
        for t, v, ahead in tests:
            w = t.a[1] if t.a[0] == v else t.a[0]
            ctl = [e for e in exits if any(f.blocks[e[0][0]][-1].a and f.blocks[e[0][0]][-1].a[0] == t.id for _ in (0,))]
            if not ctl:
                # a part of the condition of the loop
                later = {u.id for u in f.uses.get(t.id, ()) if u.op in ("phi", "and", "or", "select")}
                ctl = [e for e in exits if f.blocks[e[0][0]][-1].a and f.blocks[e[0][0]][-1].a[0] in later]
            if not ctl and works is not None:
                # a condition in several parts
                ends = {e[0] for e in exits}
                for n in body:
                    if n[0] == t.bb and f.blocks[n[0]][-1].a and f.blocks[n[0]][-1].a[0] == t.id:
                        for s in S[n]:
                            if s in body and s[0] not in works and s != h:
                                r = reach(S, s, stop={x for x in S if x not in body or x[0] in works or x == h})
                                if r & ends:
                                    ctl = [e for e in exits if e[0] in r]
            if not ctl:
                continue
            controls = True
            if isinstance(w, tuple) and w[0] == "c" and t.p in ("slt", "sle", "ult", "ule", "sgt", "ugt", "sge", "uge"):
                return "stops after a fixed number of elements", t
            if shrunk(f, w):
                return "leaves out the last elements", t
            if ahead and works and all(f.dominates(t.bb, b) for b in works) and t.p in ("slt", "ult", "ne"):
                return "leaves out the last element", t
        if not controls:
            continue
        if st > 1:
            return "skips elements", p
        for x, b in p.inn:
            if b not in blocks and isinstance(x, tuple) and x[0] == "c" and x[1] > 0:
                if x[1] == 1 and all(t.p in ("sle", "ule", "sgt", "ugt") and t.a[0] == v or t.p in ("sge", "uge") and t.a[1] == v for t, v, ah in tests):
                    continue  # counts from one
                return "skips the first elements", p
    return None
