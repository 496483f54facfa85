#!/usr/bin/env python3
"""P01: no R object is used after a point where the collector could have freed it."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import gcrun

GLOBAL_EXEMPT = {
    "r_methods_ns_env": "the namespace registry holds the methods namespace",
}


def where_from(f, tok):
    k = tok
    while k[0] == "o":
        k = k[1]
    if k[0] in "cd":
        d = f.defs.get(k[1])
        if d is not None:
            return (f.mod.basename(d.f) or "a function pointer") if d.op == "call" else d.op, d.l
    if k[0] == "a":
        return "parameter %s" % (f.pn.get(k[1] + 1) or k[1]), f.line
    return "?", f.line


def check(rep):
    rep.rule("live", "an object needed after a call that may allocate is on the protection stack, reachable from a rooted object, or registered for the session", 3000)
    rep.rule("argument", "an object handed to a function that allocates before it is done with that argument is rooted by the caller", 1000)
    rep.rule("session", "an object kept in a C global is registered with the collector", 60)
    M, S = gcrun.simulate()
    nal = sum(v[1] for v in S.stats["fn"].values())
    ntk = sum(v[0] for v in S.stats["fn"].values())
    rep.ok("live", nal + ntk)
    nargs = 0
    for f in M.funcs.values():
        for i in f.calls():
            if i.f in M.funcs:
                nargs += len(S.sum[i.f].unsafe)
    rep.ok("argument", nargs)
    rep.ok("session", sum(S.nglob.values()))
    for n in sorted(S.viol):
        f = M.funcs[n]
        for (kind, tok, iid), (i, extra) in S.viol[n].items():
            src, line = where_from(f, tok)
            callee = M.basename(i.f) or "a function pointer"
            key = "%s:%s:%s" % (f.base, src, callee)
            if kind == "live":
                rep.violation("live", key, "%s:%s" % (f.file, i.l),
                              "%s() still needs the object from %s (line %s) after calling %s, which may run the garbage collector, but nothing roots it there" % (f.base, src, line, callee))
            else:
                rep.violation("argument", key, "%s:%s" % (f.file, i.l),
                              "%s() passes the unrooted object from %s (line %s) to %s, which may run the garbage collector before it is done with it" % (f.base, src, line, callee))
        for (g, off), (i, tok) in S.glob[n].items():
            if g in GLOBAL_EXEMPT:
                continue
            nm = g + ("." + M.gfield(g, off) if M.gfield(g, off) else "")
            rep.violation("session", "%s:%s" % (f.base, nm), "%s:%s" % (f.file, i.l if i else f.line),
                          "%s() keeps an R object in the C global %s without registering it with the garbage collector" % (f.base, nm))
    und = sorted("%s: %s" % (n, ", ".join(sorted(v))) for n, v in S.imprecise.items() if v)
    rep.coverage["functions"] = len(M.funcs)
    rep.coverage["program_points_that_may_collect"] = nal
    rep.coverage["objects_tracked"] = ntk
    rep.coverage["states_explored"] = sum(v[2] for v in S.stats["fn"].values())
    rep.coverage["exploration_truncated_in"] = und
    for n in ("vec_c_opts", "list_unchop", "vec_rbind"):
        if n in S.stats["fn"]:
            t, a, st, r = S.stats["fn"][n]
            rep.ok("live", 0, "%s(): %d objects tracked over %d collecting points, %d abstract states, %d returns" % (n, t, a, st, r))
    rep.assumptions += [
        "R API functions allocate, return fresh objects and protect their arguments as listed in lib/gcroot.py",
        "accessors (INTEGER(), STRING_ELT(), ...) do not allocate, i.e. ALTREP methods called through them do not",
        "arguments of .Call entry points and of exported C callables are rooted by the caller",
    ]


if __name__ == "__main__":
    common.main("P01", check)
