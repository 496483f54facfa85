"""P03: no function of the package modifies an object its caller can see."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import alias
import common
import cprop
import cside
import flagged
import rast
from common import AnalysisBroken, main

PROP = "P03"

# In-place writes that are safe for a reason the value-flow analysis does not
# see. (function performing or returning the object, parameter or None) ->
# (reason, functions it must still call / None). An entry is void when the
# function it depends on is no longer called there.
SAFE_WRITES = {
    "attrib_normalize_encoding": ("clones the attribute list before the first write, tracked by a local flag", ("r_clone",)),
    "df_c_fallback": ("writes columns of the result under construction, and drops sentinels from a common type computed for this call", ("vec_is_common_class_fallback", "df_needs_fallback")),
}
# of these, the functions for which every way to a write through the copy is followed
ONCE = {"attrib_normalize_encoding"}
# functions whose result is a new object although one path returns the argument
FRESH_RESULT = {
    "r_as_data_frame": "returns its argument only for data frames, which every caller has excluded before",
}
# vec_restore_default() returns its input only when the target has no
# attributes; a data frame always has some
RESTORE_DF = {"vec_bare_df_restore": ("the restored object is already a copy: a data frame target always has attributes", ("vec_restore_default",))}
# R functions creating a list nobody else holds
FRESH_R = {"list2", "list", "dots_list", "vector", "new_environment", "as.list", "list_of", "dots_splice", "pairlist2", "unclass", "enquos", "environment", "current_env", "rep"}


def run(rep):
    M = common.load_module()
    P = common.load_r()
    rep.rule("inputs", "a routine reachable from R does not modify its arguments or anything reachable from them", 250)
    rep.rule("shared", "objects held by package globals are not modified after initialisation", 100)
    rep.rule("writes", "every write to an object, direct or through a call, is attributed to where the object came from", 300)
    rep.rule("copies", "copying operations on whose result an in-place write relies", 40)

    # the primitives the analysis trusts elsewhere do what it assumes they do
    rep.rule("primitives", "a referenced or foreign object is copied by the copying primitives, and never reported as owned", 3)
    refd = {"REFCNT": lambda a: ("c", 7), "NAMED": lambda a: ("c", 7), "MAYBE_REFERENCED": lambda a: ("c", 1), "NO_REFERENCES": lambda a: ("c", 0)}
    for fn, args, bad, text in (
            ("vec_clone_referenced", [("p", "x"), ("c", 0)], ("p", "x"), "returns an object it does not own without copying it"),
            ("r_clone_referenced", [("p", "x")], ("p", "x"), "returns a referenced object without copying it"),
            ("vec_owned", [("p", "x")], None, "reports a referenced object as owned")):
        f = M.get(fn)
        if f is None:
            raise AnalysisBroken("%s() not found" % fn)
        outs = cprop.CProp(M, noret=(), descend={"r_is_shared", "r_clone_referenced"}, assume=refd).run(f, args)
        rets = [o.ret for o in outs if not o.noret]
        if not rets:
            raise AnalysisBroken("no outcome of %s()" % fn)
        if any((r == bad) if bad else r != ("c", 0) for r in rets):
            rep.violation("primitives", fn, "%s:%d" % (f.file, f.line), "%s() %s" % (fn, text))
        else:
            rep.ok("primitives")

    calls = lambda n: {M.basename(i.f) for i in (M.get(n).calls() if M.get(n) else ()) if i.f}
    exempt = set()
    for table in (SAFE_WRITES, RESTORE_DF):
        for fn, (why, needs) in table.items():
            if M.get(fn) is not None and all(n in calls(fn) for n in needs):
                if fn in ONCE:
                    bad, n = flagged.foreign_writes(M, M.get(fn), {"r_clone", "Rf_shallow_duplicate", "Rf_duplicate"}, {"SETCAR": 0, "r_node_poke_car": 0, "SETCDR": 0, "r_node_poke_cdr": 0, "SET_TAG": 0, "r_node_poke_tag": 0})
                    if bad is None or bad or n == 0:
                        continue
                exempt.add(fn)
    A = alias.Alias(M, fresh=("r_clone_referenced",) + tuple(FRESH_RESULT), exempt_mut=exempt)
    # in data frame restoration only the writes after the restoring copy are safe,
    # not the recursive one that precedes it
    A.partial = {"vec_bare_df_restore": "vec_restore_default"}
    A.run()
    T = cside.tables(M)

    # R side: which routines are reachable, and which arguments are temporaries
    extra = set()
    for g in M.globals.values():
        ini = g.get("init")
        if ini and "s" in ini:
            extra.add(ini["s"])
    live = rast.reachable(P, extra)
    sites = {}
    init_only = {}
    for name, fn in list(P.funs.items()):
        for c in fn.body.calls():
            if c.callee() in (".Call", ".External2", ".External") and c.a:
                r = c.a[0][1].text()
                sites.setdefault(r, []).append((name, c))
    n_live = 0
    for kind in ("call", "ext"):
        for r, v in T[kind].items():
            if r == "#dup":
                continue
            fn, n = v
            if fn not in A.sum:
                continue
            ss = [(nm, c) for nm, c in sites.get(r, ()) if nm in live]
            if sites.get(r) and not ss:
                continue
            if ss and all(nm == ".onLoad" and len(rast.enclosing_funs(c)) == 1 for nm, c in ss):
                continue
            n_live += 1
            f = M.funcs[fn]
            for k in range(f.nargs):
                bad = None
                for (t, c), (w, what, where, root, path) in A.sum[fn].mut.items():
                    b = t
                    deep = False
                    while b[0] in ("E", "Ea", "T"):
                        deep |= b[0] != "T"
                        b = b[1]
                    if b[0] in ("p", "F") and b[1] == k:
                        if kind == "call" and not deep and ss and all(temporary(c2, k) for _, c2 in ss):
                            continue
                        if bad is None or len(path) < len(bad[2]):
                            bad = (w, what, path, root, deep)
                if bad:
                    w, what, path, root, deep = bad
                    rep.violation("inputs", "%s:%s" % (root[0], root[1]) if path else "%s:%d:%s" % (fn, k, root[0]), w, "%s of argument '%s' of %s modified in place by %s (%s)%s" % (
                        "an element or attribute" if deep else "the object", f.argname(k), r, root[0], root[1],
                        " via " + " > ".join(path) if path else ""))
                else:
                    rep.ok("inputs")
            badg = {}
            for (t, c), (w, what, where, root, path) in A.sum[fn].mut.items():
                b = t
                while b[0] in ("E", "Ea", "T"):
                    b = b[1]
                if b[0] == "g":
                    badg.setdefault((b[1], root[0]), (w, what, path, root))
            for (g, rt), (w, what, path, root) in badg.items():
                rep.violation("shared", "%s" % rt, w, "the shared object in '%s' is modified in place by %s (%s), reached from %s%s" % (g, root[0], root[1], r, " via " + " > ".join(path) if path else ""))
            if not badg:
                rep.ok("shared")
    for f in M.funcs.values():
        for i in f.calls():
            b = M.basename(i.f) if i.f else None
            if b in alias.MUT:
                rep.ok("writes")
            if b in ("r_clone_referenced", "r_clone", "vec_clone_referenced", "Rf_shallow_duplicate"):
                rep.ok("copies")
    # exported C callables get caller-owned objects too
    for f in M.funcs.values():
        for c in f.calls():
            if c.f == "R_RegisterCCallable" and isinstance(c.a[2], tuple) and c.a[2][0] in ("f", "g"):
                fn = c.a[2][1]
                if fn in A.sum:
                    ms = [m for m in A.sum[fn].mut.items() if m[0][0][0] in ("p", "E", "Ea", "T", "F")]
                    if ms:
                        (t, cc), (w, what, where, root, path) = ms[0]
                        rep.violation("inputs", "callable:%s:%s" % (fn, root[0]), w, "C callable %s modifies its argument in place in %s" % (fn, root[0]))
                    else:
                        rep.ok("inputs")
    rep.coverage.update({"functions": len(M.funcs), "routines": n_live, "call_sites": A.sites,
                         "exceptions": {k: v[0] for k, v in {**SAFE_WRITES, **RESTORE_DF}.items()} | FRESH_RESULT})
    rep.assumptions += ["objects returned by R-level methods and callbacks are not tracked (an in-place write to one is not reported)",
                        "R_altrep and external-pointer payloads are not tracked"]


def temporary(c, k):
    """argument k of a .Call is a new object nothing else refers to"""
    if len(c.a) <= k + 1:
        return False
    x = c.a[k + 1][1]
    return x.t == "call" and x.callee() in FRESH_R


if __name__ == "__main__":
    main(PROP, run)
