"""Path-sensitive check of a function that copies an object once, before the
first write, and remembers having done so in a local flag.

States are (block, block before, what is known of local values); known values
are the constants of flags and whether a pointer belongs to the copy. The state
space is finite: flags are 0 or 1, pointers belong to a copy or do not."""

STEP = {"CDR", "r_node_cdr", "Rf_protect", "CDDR"}


def foreign_writes(M, f, copies, writes, limit=20000):
    """writes [(inst, n)] reached with a pointer that does not belong to a copy;
    returns (bad, number of writes seen)"""
    bad, seen_w = {}, set()

    def val(env, a):
        if isinstance(a, tuple):
            return a[1] if a[0] == "c" and a[1] in (0, 1) else None
        return env.get(a)

    def small(i):
        return i.t in ("i1", "i8")
    start = (0, None, tuple(sorted({k: "foreign" for k in range(f.nargs)}.items())))
    seen, work = set(), [start]
    while work:
        st = work.pop()
        if st in seen:
            continue
        seen.add(st)
        if len(seen) > limit:
            return None, 0
        b, p, e0 = st
        e = dict(e0)
        new = {}
        ins = f.blocks[b]
        for i in ins:
            if i.op != "phi":
                continue
            for x, q in i.inn:
                if q == p:
                    v = val(e, x)
                    if i.t == "ptr" or small(i):
                        new[i.id] = v
        for k, v in new.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        for i in ins:
            v = None
            if i.op == "phi":
                continue
            if i.op == "call":
                n = M.basename(i.f) if i.f else None
                if n in copies:
                    v = "copy"
                elif n in STEP:
                    v = val(e, i.a[0])
                elif n in writes:
                    seen_w.add(i.id)
                    if val(e, i.a[writes[n]]) != "copy":
                        bad[i.id] = i
            elif i.op in ("trunc", "zext", "freeze") and (small(i) or i.t == "i32"):
                v = val(e, i.a[0])
            elif i.op == "xor" and small(i) and isinstance(i.a[1], tuple):
                x = val(e, i.a[0])
                v = None if x not in (0, 1) else 1 - x if i.a[1][1] not in (0,) else x
            elif i.op == "icmp" and i.p in ("eq", "ne"):
                x, y = val(e, i.a[0]), val(e, i.a[1])
                if x in (0, 1) and y in (0, 1):
                    v = int((x == y) == (i.p == "eq"))
            if i.id is not None:
                if v is None:
                    e.pop(i.id, None)
                else:
                    e[i.id] = v
        t = ins[-1]
        succ = f.succ[b]
        if t.op == "br" and t.a:
            v = val(e, t.a[0])
            if v in (0, 1):
                succ = [t.s[0 if v else 1]]
        elif t.op == "switch":
            d = f.defs.get(t.a[0]) if isinstance(t.a[0], int) else None
            if d is not None and d.op == "phi" and d.bb == b:
                for x, q in d.inn:
                    if q == p and isinstance(x, tuple) and x[0] == "c":
                        succ = [dict(t.cases).get(x[1], t.deflt)]
        key = tuple(sorted((k, v) for k, v in e.items()))
        for s in succ:
            work.append((s, b, key))
    return list(bad.values()), len(seen_w)
