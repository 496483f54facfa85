#!/usr/bin/env python3
"""P02: every C function leaves the protection stack as deep as it found it."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import gcrun

# Loops whose pushes are bounded by a condition the simulation cannot see.
BOUNDED = {
    "r_pairlist_clone_until": "pushes only while `parent` is still NULL, i.e. once",
}


def check(rep):
    rep.rule("balance", "on every path to a return, pushes and pops of the protection stack cancel out", 900)
    rep.rule("underflow", "no path pops entries its function did not push", 600)
    rep.rule("bounded", "no loop grows the protection stack without bound", 700)
    M, S = gcrun.simulate()
    rep.ok("balance", sum(v[3] for v in S.stats["fn"].values()))
    rep.ok("underflow", sum(1 for f in M.funcs.values() for i in f.calls() if i.f == "Rf_unprotect"))
    rep.ok("bounded", len(M.funcs))
    for n in sorted(S.bal):
        f = M.funcs[n]
        for k, (i, a, b) in S.bal[n].items():
            if k[0] == "leak":
                rep.violation("balance", f.base, "%s:%s" % (f.file, i.l or f.line),
                              "%s() can return with %d more entries on the protection stack than on entry" % (f.base, a))
            else:
                rep.violation("underflow", f.base, "%s:%s" % (f.file, i.l),
                              "%s() can pop %d entries when it has pushed only %d" % (f.base, a, b))
        if "unbounded stack" in S.imprecise[n] and f.base not in BOUNDED:
            rep.violation("bounded", f.base, "%s:%s" % (f.file, f.line),
                          "%s() pushes onto the protection stack in a loop without popping" % f.base)
    rep.coverage["functions"] = len(M.funcs)
    rep.coverage["states_explored"] = sum(v[2] for v in S.stats["fn"].values())
    rep.coverage["undecided"] = sorted("%s: %s" % (n, ", ".join(sorted(v))) for n, v in S.imprecise.items() if v)
    f = M.get("vec_rbind")
    if f:
        rep.ok("balance", 0, "vec_rbind(): %d abstract returns, all at depth 0" % S.stats["fn"][f.name][3])
    rep.assumptions.append("non-local exits (errors) are unwound by R itself")


if __name__ == "__main__":
    common.main("P02", check)
