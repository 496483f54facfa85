"""P18: a call leaves nothing behind in the session - no data in native
globals, no marks on R's strings, no bindings, options or seeds."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import cside
import rast
import reach
from common import AnalysisBroken, main
from ir import NULL

PROP = "P18"

# external functions that write through a pointer argument
WRITES = {"memcpy": (0,), "memset": (0,), "memmove": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "snprintf": (0,),
          "sprintf": (0,), "vsnprintf": (0,), "qsort": (0,), "fread": (0,), "R_isort": (0,), "R_rsort": (0,), "rsort_with_index": (0, 1)}
READONLY = {"Rf_install", "Rf_mkChar", "Rf_mkCharCE", "Rf_mkString", "Rf_mkCharLenCE", "Rf_error", "Rf_errorcall", "Rf_warning", "strcmp", "strlen", "strncmp",
            "memcmp", "R_ReleaseObject", "R_PreserveObject", "printf", "Rprintf", "R_ParseEvalString"}
# native effects on the session nothing here has a reason for
EFFECTS = {"GetRNGstate", "PutRNGstate", "unif_rand", "norm_rand", "exp_rand", "R_unif_index", "setlocale", "setenv", "unsetenv", "putenv", "srand", "rand",
           "chdir", "Rf_SetOption1", "SetOption", "R_SetUseNamespaceDispatch", "R_LockBinding", "R_MakeActiveBinding", "R_LockEnvironment", 
           "SET_PRVALUE", "SET_INTERNAL", "SET_SYMVALUE", "SET_RDEBUG", "SETLEVELS", "R_SetMaxVSize",
           "R_RegisterCCallable", "R_registerRoutines", "R_RunPendingFinalizers", "R_gc", "R_CheckStack2Off"}
ALLOC_ENV = {"Rf_allocSExp", "R_NewEnv", "R_NewEnvironment", "Rf_NewEnvironment"}


# R functions that change session state, besides those whose change is undone
R_EFFECTS = {"options", "Sys.setenv", "Sys.unsetenv", "Sys.setlocale", "setwd", "set.seed", "RNGkind", "attach", "detach", "sink", "Sys.umask", "library",
             "require", "requireNamespace0", "lockBinding", "unlockBinding", "assignInNamespace", "assignInMyNamespace", "setHook", "trace", "untrace",
             "suppressForeignCheck", "reg.finalizer", "makeActiveBinding", "lockEnvironment", "env_unlock", "env_bind_active", "env_binding_lock",
             "env_binding_unlock", "env_poke", "env_bind", "env_bind_lazy", "assign", "delayedAssign", "rm", "env_unbind", "registerS3method",
             "registerS3methods", "local_envvar", "closeAllConnections", "gctorture", "Sys.setFileTime", "file.remove", "unlink", "writeLines0", "push_options"}
R_RANDOM = {"runif", "rnorm", "sample", "sample.int", "rbinom", "rexp", "rpois", "sample_n"}
# definitions run once, when the package is loaded
R_LOAD = {".onLoad", ".onAttach", ".onUnload", "s3_register", "run_on_load", "on_load", "on_package_load", "replace_from", "check_linked_version"}


def base_of(f, v, seen=None):
    """underlying objects of a pointer: ('glob', name) direct, ('heap', name)
    reached by loading from a global, ('arg', k), None"""
    seen = seen or set()
    out = set()
    while isinstance(v, int):
        if v in seen:
            return out
        seen.add(v)
        d = f.defs.get(v)
        if d is None:
            out.add(("arg", v) if v < f.nargs else None)
            return out
        if d.op in ("getelementptr", "bitcast", "inttoptr", "ptrtoint"):
            v = d.a[0]
            continue
        if d.op == "phi":
            for x, _ in d.inn:
                out |= base_of(f, x, seen)
            return out
        if d.op == "select":
            return base_of(f, d.a[1], seen) | base_of(f, d.a[2], seen)
        out.add(("val", v))
        return out
    if isinstance(v, tuple) and v[0] == "g":
        out.add(("glob", v[1]))
    return out


class Native:
    def __init__(self, M, R, rep):
        self.M, self.R, self.rep = M, R, rep
        self.write_params()

    def const(self, g):
        gi = self.M.globals.get(g)
        return gi is None or gi.get("const") or g in self.M.funcs

    def write_params(self):
        """(function, parameter) it writes through"""
        M = self.M
        W = set()
        ch = True
        while ch:
            ch = False
            for f in M.funcs.values():
                for i in f.insts():
                    ptrs = []
                    if i.op == "store":
                        ptrs = [i.a[1]]
                    elif i.op == "call":
                        ptrs = [i.a[k] for k in self.wargs(i, W) if k < len(i.a)]
                    for p in ptrs:
                        for b in base_of(f, p):
                            if b and b[0] == "arg" and (f.name, b[1]) not in W:
                                W.add((f.name, b[1]))
                                ch = True
        self.W = W

    def wargs(self, i, W):
        n = self.M.basename(i.f) or ""
        if i.f in self.M.funcs:
            return [k for k in range(len(i.a)) if (i.f, k) in W]
        if n.startswith("llvm.mem"):
            return [0]
        return WRITES.get(n, ())

    def accesses(self, f):
        """writes and reads of non-constant globals: (kind, global, inst, value)"""
        for i in f.insts():
            if i.op == "store":
                for b in base_of(f, i.a[1]):
                    if b and b[0] == "glob" and not self.const(b[1]):
                        yield "w", b[1], i, i.a[0]
            elif i.op == "load":
                for b in base_of(f, i.a[0]):
                    if b and b[0] == "glob" and not self.const(b[1]):
                        yield "r", b[1], i, None
            elif i.op == "call" and i.f:
                if i.f.startswith("llvm.dbg") or i.f.startswith("llvm.lifetime"):
                    continue
                wk = set(self.wargs(i, self.W))
                for k, a in enumerate(i.a):
                    for b in base_of(f, a):
                        if b and b[0] == "glob" and not self.const(b[1]):
                            if k in wk:
                                yield "w", b[1], i, None
                            else:
                                yield "r", b[1], i, None

    def constant_value(self, f, v, depth=0):
        """does not depend on anything the caller passes"""
        if v is None or depth > 6:
            return False
        if not isinstance(v, int):
            return True
        if v < f.nargs:
            return False
        d = f.defs.get(v)
        if d is None:
            return False
        if d.op == "call":
            return all(self.constant_value(f, a, depth + 1) for a in d.a)
        if d.op == "load":
            return isinstance(d.a[0], tuple) and d.a[0][0] == "g"
        if d.op in ("getelementptr", "bitcast", "phi", "select"):
            vs = [x for x, _ in d.inn] if d.inn else d.a
            return all(self.constant_value(f, a, depth + 1) for a in vs)
        return False

    def globals_rule(self):
        M, rep = self.M, self.rep
        writers, readers = {}, {}
        for n in self.R.runtime:
            f = M.funcs[n]
            for kind, g, i, v in self.accesses(f):
                (writers if kind == "w" else readers).setdefault(g, []).append((f, i, v))
        rep.coverage["globals"] = len([g for g in M.globals if not self.const(g)])
        for g in readers:
            if g not in writers:
                rep.ok("globals")
        for g, ws in sorted(writers.items()):
            # memo: every write stores something that is the same in every call
            if all(i.op == "store" and v is not None and self.constant_value(f, v) for f, i, v in ws) and all(
                    v == NULL or not isinstance(v, tuple) or v[0] != "c" for f, i, v in ws):
                rep.ok("globals", sample="%s: set once to a constant" % g)
                continue
            bad = None
            for f, i, _ in readers.get(g, []):
                # scratch: this activation has written it before it reads it
                if not any(wf is f and wi is not i and f.inst_dominates(wi, i) for wf, wi, _ in ws):
                    bad = (f, i)
                    break
            if bad and not self.reset_only(g, ws):
                f, i = bad
                w = next((x for x in ws if x[0] is f), ws[0])
                rep.violation("globals", g, "%s:%s" % (w[0].file, w[1].l), "%s() leaves data of one call in '%s', which %s() reads in a later one (line %s)" % (
                    w[0].base, g, f.base, i.l))
            else:
                rep.ok("globals", sample="%s: scratch" % g)

    def reset_only(self, g, ws):
        return False

    # -- heap state owned by globals ------------------------------------------
    def heap_rule(self):
        """stores through a pointer read out of a global"""
        M, rep = self.M, self.rep
        for n in sorted(self.R.runtime):
            f = M.funcs[n]
            for i in f.insts():
                ptrs = [i.a[1]] if i.op == "store" else [i.a[k] for k in self.wargs(i, self.W) if k < len(i.a)] if i.op == "call" else []
                for p in ptrs:
                    for b in base_of(f, p):
                        if not b or b[0] != "val":
                            continue
                        d = f.defs[b[1]]
                        # SEXP globals are the business of value semantics
                        if d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
                            g = d.a[0][1]
                            gi = M.globals.get(g) or {}
                            if gi.get("const") or g.startswith("R_"):
                                continue
                            if not any(wf == f and f.inst_dominates(wi, d) for wf, wi, _ in self.gw.get(g, [])):
                                rep.violation("globals", "heap:%s:%s" % (f.base, g), "%s:%s" % (f.file, i.l), "%s() writes into memory that '%s' keeps between calls" % (f.base, g))

    def effects_rule(self):
        M, rep = self.M, self.rep
        n = 0
        for nm in sorted(self.R.runtime):
            f = M.funcs[nm]
            for i in f.calls():
                b = M.basename(i.f)
                if i.f in M.funcs or b is None:
                    continue
                n += 1
                if b in EFFECTS:
                    rep.violation("effects", "%s:%s" % (f.base, b), "%s:%s" % (f.file, i.l), "%s() changes session state with %s()" % (f.base, b))
                elif b == "R_PreserveObject":
                    ok = self.memo_preserve(f, i)
                    if not ok:
                        rep.violation("effects", "%s:%s" % (f.base, b), "%s:%s" % (f.file, i.l), "%s() keeps an object alive for good, in every call" % f.base)
        rep.ok("effects", n)

    def memo_preserve(self, f, i):
        """balanced by a release in the same function, or of a constant value"""
        if any(self.M.basename(c.f) == "R_ReleaseObject" for c in f.calls()):
            return True
        if self.constant_value(f, i.a[0]):
            return True
        # wrapper: look at the callers
        if isinstance(i.a[0], int) and i.a[0] < f.nargs:
            cs = [(h, c) for h in self.M.funcs.values() if h.name in self.R.runtime for c in h.calls() if c.f == f.name]
            return all(self.constant_value(h, c.a[i.a[0]]) for h, c in cs)
        return False

    # -- bindings ---------------------------------------------------------------
    def env_fresh(self, f, v, depth=0, seen=()):
        """True if the environment was made by this call; else who it belongs to"""
        M = self.M
        if depth > 12:
            return "?"
        if isinstance(v, int):
            if v < f.nargs:
                bad = None
                if (f.name, v) in seen:
                    return True
                callers = [(h, c) for h in M.funcs.values() if h.name in self.R.runtime for c in h.calls() if c.f == f.name]
                if f.name in self.R.roots and not self.envparam_ok(f, v):
                    return "the caller of %s()" % f.base
                for h, c in callers:
                    r = self.env_fresh(h, c.a[v], depth + 1, tuple(seen) + ((f.name, v),))
                    if r is not True:
                        bad = r
                return bad or True
            d = f.defs.get(v)
            if d is None:
                return "?"
            if d.op == "phi":
                rs = [self.env_fresh(f, x, depth + 1, seen) for x, _ in d.inn]
                return next((r for r in rs if r is not True), True)
            if d.op == "select":
                rs = [self.env_fresh(f, x, depth + 1, seen) for x in d.a[1:]]
                return next((r for r in rs if r is not True), True)
            if d.op == "call":
                b = M.basename(d.f)
                if b in ALLOC_ENV:
                    return True
                if b in ("Rf_protect", "r_expr_protect"):
                    return self.env_fresh(f, d.a[0], depth + 1, seen)
                g = M.funcs.get(d.f)
                if g is not None:
                    rets = [i.a[0] for i in g.insts() if i.op == "ret" and i.a]
                    for r in rets:
                        x = self.env_ret(g, r, depth + 1)
                        if x is not True:
                            if isinstance(x, tuple):
                                x = self.env_fresh(f, d.a[x[1]], depth + 1, seen)
                                if x is True:
                                    continue
                            return x
                    return True
                if b in ("Rf_eval", "R_tryEval", "R_ParseEvalString"):
                    # new.env(...) evaluated through a prepared call
                    return True if f.base in ("r_alloc_environment", "r_new_environment") or "alloc_env" in f.base else "%s()" % b
                return "%s()" % b
            if d.op == "load":
                a = d.a[0]
                if isinstance(a, tuple):
                    return "'%s'" % a[1]
                # a field of a local struct: what was stored there
                return self.field_fresh(f, a, depth + 1, seen)
            return "?"
        if v == NULL:
            return True
        return "a global"

    def env_ret(self, g, v, depth):
        if isinstance(v, int) and v < g.nargs:
            return ("param", v)
        return self.env_fresh(g, v, depth)

    def field_fresh(self, f, a, depth, seen):
        d = f.defs.get(a) if isinstance(a, int) else None
        if d is not None and d.op == "getelementptr" and d.st:
            key = (d.st, d.off)
            for h in self.M.funcs.values():
                for i in h.insts():
                    if i.op == "store" and isinstance(i.a[1], int):
                        e = h.defs.get(i.a[1])
                        if e is not None and e.op == "getelementptr" and (e.st, e.off) == key:
                            r = self.env_fresh(h, i.a[0], depth + 1, seen)
                            if r is not True:
                                return r
            return True
        return "memory"

    def envparam_ok(self, f, k):
        return False

    def bind_rule(self):
        M, rep = self.M, self.rep
        # functions that bind in an environment parameter: parameter index
        binders = {"SET_ENCLOS": 0, "SET_BODY": 0, "SET_FORMALS": 0, "SET_CLOENV": 0, "Rf_defineVar": 2, "Rf_setVar": 2, "Rf_gsetVar": None, "R_removeVarFromFrame": 1}
        for nm in sorted(self.R.runtime):
            f = M.funcs[nm]
            for i in f.calls():
                b = M.basename(i.f)
                if i.f in M.funcs or b not in binders:
                    continue
                k = binders[b]
                r = self.env_fresh(f, i.a[k]) if k is not None else "the base environment"
                if r is not True:
                    rep.violation("bind", "%s:%s" % (f.base, b), "%s:%s" % (f.file, i.l), "%s() binds a name in (or alters) an environment or function that outlives the call: it belongs to %s" % (f.base, r))
                else:
                    rep.ok("bind")

    # -- marks on strings -------------------------------------------------------
    def marks_rule(self):
        M, rep, R = self.M, self.rep, self.R
        T = {f.name: [i for i in f.calls() if M.basename(i.f) == "SET_TRUELENGTH"] for f in M.funcs.values()}
        # (the allocated length of a growable vector is kept in the same field)
        for n in T:
            f = M.funcs[n]
            grow = {c.a[0] for c in f.calls() if M.basename(c.f) in ("SET_GROWABLE_BIT", "SETLENGTH")}
            T[n] = [i for i in T[n] if i.a[0] not in grow]
        T = {n: s for n, s in T.items() if s and n in R.runtime}
        pairs = []
        for f in M.funcs.values():
            for i in f.calls():
                if M.basename(i.f) in ("R_ExecWithCleanup", "R_UnwindProtect") and len(i.a) >= 3:
                    ex = i.a[0][1] if isinstance(i.a[0], tuple) else None
                    cl = i.a[2][1] if isinstance(i.a[2], tuple) else None
                    if ex in M.funcs and cl in M.funcs:
                        pairs.append((f, i, ex, cl))
        always = self.always_calls()
        resetters = {n for n in T if any(n == cl or n in always.get(cl, ()) for _, _, _, cl in pairs)}
        if T and not resetters:
            n = sorted(T)[0]
            rep.violation("marks", "reset", "%s:%s" % (M.funcs[n].file, T[n][0].l), "%s() marks R's shared strings and nothing removes the marks when the call fails" % M.funcs[n].base)
            return
        # fields of the bookkeeping that hold marked strings
        def fieldload(f, v):
            """struct field a string was loaded out of (an array held there)"""
            for _ in range(4):
                d = f.defs.get(v) if isinstance(v, int) else None
                if d is None:
                    return None
                if d.op == "load":
                    p = d.a[0]
                    e = f.defs.get(p) if isinstance(p, int) else None
                    while e is not None and e.op == "getelementptr" and not (e.st or "").startswith("%struct"):
                        p = e.a[0]
                        e = f.defs.get(p) if isinstance(p, int) else None
                    if e is not None and e.op == "getelementptr":
                        return (e.st, e.off)
                    if e is not None and e.op in ("load", "phi"):
                        v = p
                        if e.op == "load":
                            q = f.defs.get(e.a[0]) if isinstance(e.a[0], int) else None
                            if q is not None and q.op == "getelementptr" and (q.st or "").startswith("%struct"):
                                return (q.st, q.off)
                            if isinstance(e.a[0], int) and e.a[0] < f.nargs:
                                return None
                        continue
                return None
        savers = {}
        for f in M.funcs.values():
            for i in f.insts():
                if i.op == "store" and isinstance(i.a[0], int) and i.a[0] < f.nargs and f.args[i.a[0]]["t"] == "ptr" and isinstance(i.a[1], int):
                    e = f.defs.get(i.a[1])
                    while e is not None and e.op == "getelementptr" and not (e.st or "").startswith("%struct"):
                        p = e.a[0]
                        e = f.defs.get(p) if isinstance(p, int) else None
                    if e is not None and e.op == "load":
                        q = f.defs.get(e.a[0]) if isinstance(e.a[0], int) else None
                        if q is not None and q.op == "getelementptr" and (q.st or "").startswith("%struct"):
                            savers[(f.name, i.a[0])] = (q.st, q.off)
        cleared = set()
        for n in resetters:
            f = M.funcs[n]
            for i in T[n]:
                fl = fieldload(f, i.a[0])
                if fl:
                    cleared.add(fl)
        rep.coverage["marks"] = {"reset": sorted(M.funcs[n].base for n in resetters), "bookkeeping": sorted("%s+%s" % x for x in cleared)}
        used_saved = set()
        for n, sites in sorted(T.items()):
            if n in resetters:
                continue
            f = M.funcs[n]
            for i in sites:
                w = "%s:%s" % (f.file, i.l)
                how = None
                for c in f.calls():
                    for k, a in enumerate(c.a):
                        if a == i.a[0] and (c.f, k) in savers and savers[c.f, k] in cleared and f.inst_dominates(c, i):
                            how = "recorded just before"
                            used_saved.add(savers[c.f, k])
                if how is None and fieldload(f, i.a[0]) in cleared:
                    how = "taken from the record"
                if how is None and self.derives(f, i.a[1], i.a[0]):
                    how = "counts up a mark read before"
                if how is None:
                    rep.violation("marks", "%s:set" % f.base, w, "%s() marks a string of R's shared cache without recording it for the clean-up" % f.base)
                else:
                    rep.ok("marks", sample="%s: %s" % (w, how))
        # marks that were R's own are put back
        for n, sites in sorted(T.items()):
            if n in resetters:
                continue
            f = M.funcs[n]
            fresh = [i for i in sites if isinstance(i.a[1], tuple)]
            for i in fresh:
                own = [c for c in f.calls() for k, a in enumerate(c.a) if a == i.a[0] and (c.f, k) in savers and any(
                    isinstance(x, int) and self.derives(f, x, i.a[0]) for x in c.a)]
                if not any(savers[c.f, k] in cleared for c in own for k, a in enumerate(c.a) if (c.f, k) in savers):
                    rep.violation("marks", "%s:own" % f.base, "%s:%s" % (f.file, i.l), "%s() overwrites the length mark R itself put on a string, without recording it" % f.base)
                else:
                    rep.ok("marks")
        self.put_back(resetters, T, savers, cleared, fieldload)
        self.growth()
        for n in sorted(resetters):
            for i in T[n]:
                why = self.partial_loop(M.funcs[n], i.a[0])
                if why:
                    rep.violation("marks", "%s:all" % M.funcs[n].base, "%s:%s" % (M.funcs[n].file, i.l), "the clean-up " + why)
                else:
                    rep.ok("marks")
        for (fn, k), fl in sorted(savers.items()):
            if fn in R.runtime and fl not in cleared and any(fl[0] == c[0] for c in cleared) and self.saves_marks(fn):
                rep.violation("marks", "%s:kept" % M.funcs[fn].base, "%s:%s" % (M.funcs[fn].file, M.funcs[fn].line), "strings recorded by %s() are not visited by the clean-up" % M.funcs[fn].base)
        # every way to the marking functions goes through the protected call
        execs = {ex for _, _, ex, cl in pairs if any(r == cl or r in always.get(cl, ()) for r in resetters)}
        without = set()
        for f, i, ex, cl in pairs:
            if ex in execs:
                without.add((f.name, ex))
        reached = R.closure(R.roots, without=without)
        for n in sorted(T):
            if n in resetters:
                continue
            if n in reached:
                rep.violation("marks", "%s:unguarded" % M.funcs[n].base, "%s:%s" % (M.funcs[n].file, T[n][0].l), "%s() marks R's shared strings but can be reached without the clean-up that removes the marks on failure" % M.funcs[n].base)
            else:
                rep.ok("marks")

    def put_back(self, resetters, T, savers, cleared, fieldload):
        """the clean-up gives each string the mark recorded for it, last"""
        M, rep = self.M, self.rep
        recorded = {}
        for (fn, k), fl in savers.items():
            f = M.funcs[fn]
            for i in f.insts():
                if i.op == "store" and isinstance(i.a[0], int) and i.a[0] < f.nargs and i.a[0] != k and f.args[i.a[0]]["t"] != "ptr" and isinstance(i.a[1], int):
                    e = f.defs.get(i.a[1])
                    while e is not None and e.op == "getelementptr" and not (e.st or "").startswith("%struct"):
                        e = f.defs.get(e.a[0]) if isinstance(e.a[0], int) else None
                    if e is not None and e.op == "load":
                        q = f.defs.get(e.a[0]) if isinstance(e.a[0], int) else None
                        if q is not None and q.op == "getelementptr" and (q.st or "").startswith("%struct"):
                            # only where the value handed over is the string's mark
                            for g in M.funcs.values():
                                for c in g.calls():
                                    if c.f == fn and self.derives(g, c.a[i.a[0]], c.a[k]):
                                        recorded[fl] = (q.st, q.off)
        for fl, mark in sorted(recorded.items()):
            sites = [(M.funcs[n], i) for n in sorted(resetters) for i in T[n]]
            own = [(f, i) for f, i in sites if fieldload(f, i.a[0]) == fl]
            good = [(f, i) for f, i in own if fieldload(f, i.a[1]) == mark]
            if own and len(good) < len(own) or not own:
                f, i = (own or sites)[0]
                rep.violation("marks", "%s:restore" % f.base, "%s:%s" % (f.file, i.l), "the clean-up does not give strings the length marks recorded for them")
                continue
            late = [(f, i, j) for f, i in good for g, j in sites if g is f and (f, j) not in good and self.after(f, i, j) and not self.after(f, j, i)]
            if late:
                f, i, j = late[0]
                rep.violation("marks", "%s:order" % f.base, "%s:%s" % (f.file, j.l), "the clean-up resets marks after it has put back the recorded ones")
            else:
                rep.ok("marks", len(good), sample="%s: recorded marks put back last" % good[0][0].base)

    def partial_loop(self, f, v):
        """the loop visiting the elements leaves some out"""
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or d.op != "load":
            return None
        g = f.defs.get(d.a[0]) if isinstance(d.a[0], int) else None
        if g is None or g.op != "getelementptr" or len(g.a) < 2:
            return None
        idx = f.defs.get(g.a[-1]) if isinstance(g.a[-1], int) else None
        if idx is None or idx.op != "phi":
            return None
        start = [x for x, _ in idx.inn if isinstance(x, tuple)]
        step = [f.defs[x] for x, _ in idx.inn if isinstance(x, int) and x in f.defs and f.defs[x].op in ("add", "sub")]
        if len(start) != 1 or len(step) != 1 or start[0][0] != "c":
            return None
        inc = [a for a in step[0].a if isinstance(a, tuple)]
        if step[0].op == "add" and inc and inc[0][0] == "c" and inc[0][1] == 1 and start[0][1] != 0:
            return "skips the first strings of its record"
        if step[0].op == "add" and inc and inc[0][0] == "c" and inc[0][1] > 1:
            return "skips strings of its record"
        for u in f.uses.get(idx.id, ()):
            if u.op == "icmp" and u.a[0] == idx.id and isinstance(u.a[1], int):
                b = f.defs.get(u.a[1])
                if b is not None and (b.op in ("sub", "ashr", "lshr", "sdiv", "udiv") or b.op == "add" and any(isinstance(a, tuple) and a[0] == "c" and a[1] < 0 for a in b.a)) and u.p in ("slt", "ult", "ne"):
                    return "leaves out the last strings of its record"
        return None

    def after(self, f, i, j):
        """j can run after i"""
        bi, bj = i.bb, j.bb
        if bi == bj:
            b = f.blocks[bi]
            return b.index(i) < b.index(j)
        seen, work = set(), list(f.succ[bi])
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            work.extend(f.succ[b])
        return bj in seen

    def linear(self, f, v):
        """(coefficient, value) of an integer expression"""
        c = 1
        for _ in range(8):
            d = f.defs.get(v) if isinstance(v, int) else None
            if d is None:
                break
            if d.op in ("zext", "sext", "trunc", "bitcast"):
                v = d.a[0]
            elif d.op in ("mul", "shl") and isinstance(d.a[1], tuple) and d.a[1][0] == "c":
                c *= d.a[1][1] if d.op == "mul" else 1 << d.a[1][1]
                v = d.a[0]
            elif d.op == "mul" and isinstance(d.a[0], tuple) and d.a[0][0] == "c":
                c *= d.a[0][1]
                v = d.a[1]
            else:
                break
        return c, v

    def growth(self):
        """growing the record keeps what it holds"""
        M, rep = self.M, self.rep
        resizers = {n: (0, 1, 2) for n, f in M.funcs.items() if M.basename(n) in ("int_resize", "raw_resize", "chr_resize") and f.nargs == 3}
        work = list(resizers)
        done = set()
        while work:
            n = work.pop()
            for f in list(M.funcs.values()):
                for c in f.calls():
                    if c.f != n or (f.name, c.id) in done:
                        continue
                    done.add((f.name, c.id))
                    (co, old), (cn, new) = self.linear(f, c.a[1]), self.linear(f, c.a[2])
                    w = "%s:%s" % (f.file, c.l)
                    if co != cn:
                        rep.violation("marks", "%s:growth" % f.base, w, "%s() grows an array but counts its old and new size in different units, so part of it is lost" % f.base)
                        continue
                    if isinstance(old, int) and old < f.nargs and isinstance(new, int) and new < f.nargs:
                        resizers[f.name] = 1
                        work.append(f.name)
                        continue
                    d = f.defs.get(old) if isinstance(old, int) else None
                    q = f.defs.get(d.a[0]) if d is not None and d.op == "load" and isinstance(d.a[0], int) else None
                    if q is None or q.op != "getelementptr":
                        if d is not None and d.op in ("sub", "lshr", "sdiv", "udiv", "ashr") or isinstance(old, tuple):
                            rep.violation("marks", "%s:growth" % f.base, w, "%s() grows an array but keeps only part of it" % f.base)
                        elif d is not None and d.op == "add" and isinstance(d.a[1], tuple) and (d.a[1][1] or 0) < 0:
                            rep.violation("marks", "%s:growth" % f.base, w, "%s() grows an array but keeps only part of it" % f.base)
                        continue
                    upd = [i for i in f.insts() if i.op == "store" and i.a[0] == new and isinstance(i.a[1], int) and
                           f.defs.get(i.a[1]) is not None and f.defs[i.a[1]].op == "getelementptr"]
                    fields = {(f.defs[i.a[1]].st, f.defs[i.a[1]].off) for i in upd}
                    if fields and (q.st, q.off) not in fields:
                        rep.violation("marks", "%s:growth" % f.base, w, "%s() grows an array by the size of another" % f.base)
                    else:
                        rep.ok("marks")

    def saves_marks(self, fn):
        """some caller passes it a string that is marked"""
        for f in self.M.funcs.values():
            sites = [i for i in f.calls() if self.M.basename(i.f) == "SET_TRUELENGTH"]
            for c in f.calls():
                if c.f == fn and any(i.a[0] in c.a for i in sites):
                    return True
        return False

    def derives(self, f, v, s, depth=0):
        """v is computed from the current mark of s"""
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or depth > 5:
            return False
        if d.op == "call":
            return self.M.basename(d.f) == "TRUELENGTH" and d.a[0] == s
        return any(self.derives(f, a, s, depth + 1) for a in d.a)

    def always_calls(self):
        """function -> functions called on every path to its return"""
        M = self.M
        res = {}
        for f in M.funcs.values():
            rets = [i for i in f.insts() if i.op == "ret"]
            if not rets:
                continue
            s = set()
            for i in f.calls():
                if i.f in M.funcs and all(f.inst_dominates(i, r) for r in rets):
                    s.add(i.f)
            res[f.name] = s
        ch = True
        while ch:
            ch = False
            for n, s in res.items():
                t = set(s)
                for c in s:
                    t |= res.get(c, set())
                if t != s:
                    res[n] = t
                    ch = True
        return res


def local_names(fn):
    """names bound in a function node's own scope"""
    r = {a for a, _ in fn.f}
    st = [fn.b]
    while st:
        n = st.pop()
        if n.t == "call" and n.callee() in ("<-", "=", "for") and n.a and n.a[0][1].t in ("sym", "str"):
            r.add(n.a[0][1].text())
        if n.t != "fun":
            st.extend(n.children())
    return r


def root_name(n):
    """variable an assignment target is based on"""
    while n.t == "call" and n.a:
        n = n.a[0][1]
    return n.text() if n.t in ("sym", "str") else None


def run_names(P, extra):
    """R functions used after loading"""
    ment = lambda node: {x.n if x.t == "sym" else x.v for x in node.walk() if x.t in ("sym", "str")}
    seen, work = set(), list(set(P.exports) | set(extra) | {m or "%s.%s" % (g, c) for g, c, m in P.s3})
    # functions bound to names at load time
    for n in (".onLoad", ".onAttach"):
        if n in P.funs:
            for x in P.funs[n].node.walk():
                if x.t == "call" and x.callee() == "s3_register":
                    work += [y.n for _, y in x.a if y.t == "sym"]
    while work:
        n = work.pop()
        if n in seen or n in R_LOAD:
            continue
        seen.add(n)
        node = P.funs[n].node if n in P.funs else P.vars[n][2] if n in P.vars else None
        if node is not None:
            work += [x for x in ment(node) if x not in seen]
        if n in P.alias:
            work.append(P.alias[n])
    return seen


def r_side(P, rep, live):
    envs = {n for n, (_, _, v) in P.vars.items() if v.t == "call" and v.callee() in ("new.env", "new_environment", "env", "child_env", "new_env", "local")}
    nf = 0
    for name, fn in sorted(P.funs.items()):
        if name in R_LOAD or name not in live:
            continue
        nf += 1
        on_exit = [n for n in fn.body.calls() if n.callee() == "on.exit" and len(rast.enclosing_funs(n)) == 1]
        if len(on_exit) > 1:
            for n in on_exit[1:]:
                add = n.arg("add") or (n.a[1][1] if len(n.a) > 1 and n.a[1][0] == "" else None)
                if add is None or (add.t == "lgl" and add.v is not True):
                    rep.violation("r-undo", name + ":on.exit", "%s:%s" % (fn.file, n.l), "%s() replaces the clean-up it registered before" % name)
        for n in fn.body.walk():
            if n.t != "call":
                continue
            c = n.callee()
            where = "%s:%s" % (fn.file, n.l)
            if c in ("<<-", "->>"):
                tgt = n.a[0 if c == "<<-" else 1][1]
                t = root_name(tgt)
                encl = rast.enclosing_funs(n)[1:]
                if t in (None,) or not any(t in local_names(e) for e in encl):
                    rep.violation("r-bindings", "%s:%s" % (name, t), where, "%s() assigns to '%s' outside the call" % (name, t))
                else:
                    rep.ok("r-bindings")
            elif c in ("<-", "=") and n.a[0][1].t == "call":
                # env$x <- value on an environment the package owns
                t = root_name(n.a[0][1])
                loc = any(t in local_names(e) for e in rast.enclosing_funs(n))
                if t in envs and not loc:
                    rep.violation("r-bindings", "%s:%s" % (name, t), where, "%s() keeps data in '%s', an object that outlives the call" % (name, t))
                else:
                    rep.ok("r-bindings")
            elif c in R_EFFECTS:
                if c == "options":
                    args = [(a, x) for a, x in n.a]
                    if not args:
                        continue
                    if any(rast.deparse(o).find("options(") >= 0 for o in on_exit):
                        rep.ok("r-undo")
                        continue
                    if any(p.callee() == "on.exit" for p in parents(n)):
                        rep.ok("r-undo")
                        continue
                    rep.violation("r-undo", "%s:%s" % (name, c), where, "%s() sets options and does not restore them" % name)
                elif c in ("assign", "env_bind", "env_poke", "delayedAssign", "makeActiveBinding", "env_bind_lazy", "env_bind_active", "rm", "env_unbind"):
                    ok = local_env_target(P, fn, n, c)
                    if ok:
                        rep.ok("r-bindings")
                    else:
                        rep.violation("r-bindings", "%s:%s" % (name, c), where, "%s() binds names outside the call with %s()" % (name, c))
                elif any(p.callee() == "on.exit" for p in parents(n)):
                    rep.ok("r-undo")
                else:
                    rep.violation("r-undo", "%s:%s" % (name, c), where, "%s() changes session state with %s()" % (name, c))
            elif c in R_RANDOM and not P.defined(c):
                rep.violation("r-undo", "%s:%s" % (name, c), where, "%s() consumes the random seed with %s()" % (name, c))
    rep.ok("r-undo", nf)
    rep.coverage["r_functions"] = nf


def parents(n):
    p = n.parent
    while p is not None:
        if p.t == "call":
            yield p
        p = p.parent


def local_env_target(P, fn, n, c):
    env = n.arg("envir") or n.arg("assign.env") or n.arg("env") or n.arg(".env")
    if env is None:
        if c in ("delayedAssign", "assign", "rm"):
            if c in ("delayedAssign",) and len([1 for a, _ in n.a if a == ""]) <= 2:
                return True
            pos = {"assign": 2, "rm": 99, "delayedAssign": 3}[c]
            un = [x for a, x in n.a if a == ""]
            if len(un) <= pos:
                return True
            env = un[pos]
        else:
            env = n.a[0][1] if n.a else None
    if env is None:
        return True
    t = rast.deparse(env)
    if t in ("environment()", "current_env()", "sys.frame(sys.nframe())"):
        return True
    if env.t == "sym":
        # bound locally to a new environment
        for m in fn.body.walk():
            if m.t == "call" and m.callee() == "<-" and m.a[0][1].text() == env.n:
                if m.a[1][1].t == "call" and m.a[1][1].callee() in ("new.env", "new_environment", "env", "child_env", "env_clone", "environment", "current_env", "new_data_mask"):
                    return True
    return False


def run(rep):
    rep.rule("globals", "a variable that outlives calls is never both written and read with data of a call: scratch is written before it is read, cached values do not depend on the call", 100)
    rep.rule("effects", "no native code reached after loading calls an R API function that changes session state or keeps objects for good", 2000)
    rep.rule("bind", "native code only binds names in environments it has made itself", 5)
    rep.rule("marks", "marks put on R's shared strings are recorded, cleared by a clean-up that runs on failure too, and R's own marks are put back", 8)
    rep.rule("r-bindings", "R code assigns outside its own call only to variables of an enclosing function", 20)
    rep.rule("r-undo", "R code changes options and other session state only with the restoration registered, and does not use the random seed", 500)
    M = common.load_module()
    P = common.load_r()
    R = reach.Reach(M, P)
    N = Native(M, R, rep)
    N.gw = {}
    for n in R.runtime:
        for kind, g, i, v in N.accesses(M.funcs[n]):
            if kind == "w":
                N.gw.setdefault(g, []).append((M.funcs[n], i, v))
    N.globals_rule()
    N.heap_rule()
    N.effects_rule()
    N.bind_rule()
    N.marks_rule()
    extra = {g["init"]["s"] for g in M.globals.values() if g.get("init") and "s" in g["init"]}
    r_side(P, rep, run_names(P, extra))
    rep.coverage["functions"] = len(R.runtime)
    rep.coverage["roots"] = len(R.roots)
    rep.assumptions = ["R API functions not named in the rule tables do not change session state", "methods and functions written outside the package are not judged"]


if __name__ == "__main__":
    main(PROP, run)
