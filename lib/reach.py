"""Reachability over the whole-program call graph, from the entry points R has."""
import cside
import rast
from common import AnalysisBroken

# where the pointer handed to an R API function is only called during load
ALTREP = "R_set_"


def fnrefs(i):
    return [a[1] for a in i.a if isinstance(a, tuple) and a and a[0] in ("f", "g")]


def tablefns(v, M, out):
    """functions mentioned in a constant initialiser"""
    if isinstance(v, dict):
        if "g" in v and v["g"] in M.funcs:
            out.add(v["g"])
        if "f" in v and v["f"] in M.funcs:
            out.add(v["f"])
        for x in v.values():
            if isinstance(x, (dict, list)):
                tablefns(x, M, out)
    elif isinstance(v, list):
        for x in v:
            tablefns(x, M, out)


class Reach:
    def __init__(self, M, P):
        self.M = M
        self.edges = {}
        for f in M.funcs.values():
            e = set()
            for i in f.insts():
                if i.op == "call" and i.f in M.funcs:
                    e.add(i.f)
                for a in i.a:
                    if isinstance(a, tuple) and a and a[0] == "f" and a[1] in M.funcs:
                        e.add(a[1])
                    elif isinstance(a, tuple) and a and a[0] == "g":
                        if a[1] in M.funcs:
                            e.add(a[1])
                        else:
                            g = M.globals.get(a[1])
                            if g and g.get("const") and g.get("init"):
                                tablefns(g["init"], M, e)
                for v, _ in (i.inn or ()):
                    if isinstance(v, tuple) and v[0] in ("f", "g") and v[1] in M.funcs:
                        e.add(v[1])
            self.edges[f.name] = e
        T = cside.tables(M)
        routines = {}
        for k in ("call", "ext"):
            for nm, v in T[k].items():
                if nm != "#dup" and v[0] in M.funcs:
                    routines[nm] = v[0]
        self.routines = routines
        # routines used by load hooks and by nothing else
        load, run = set(), set()
        onload = {".onLoad", ".onUnload", ".onAttach"}
        for n, fn in list(P.funs.items()):
            for x in fn.node.walk():
                if x.t == "sym" and x.n in routines:
                    now = n in onload and len(rast.enclosing_funs(x)) == 1
                    (load if now else run).add(x.n)
        for n, (_, _, node) in P.vars.items():
            run.update({x.n for x in node.walk() if x.t == "sym"} & set(routines))
        self.loadonly = load - run
        inits = {f.name for f in M.funcs.values() if f.base.startswith("R_init_")}
        if not inits or not self.loadonly:
            raise AnalysisBroken("load-time entry points not found")
        self.init = self.closure(inits | {routines[r] for r in self.loadonly}, calls_only=True)
        roots = {fn for r, fn in routines.items() if r not in self.loadonly}
        # functions handed out or installed as callbacks while loading
        for n in self.init:
            for i in M.funcs[n].calls():
                roots.update(x for x in fnrefs(i) if x in M.funcs)
        for f in M.funcs.values():
            if f.name in self.init:
                for i in f.insts():
                    if i.op == "store" and isinstance(i.a[0], tuple) and i.a[0][0] in ("f", "g") and i.a[0][1] in M.funcs:
                        roots.add(i.a[0][1])
        self.roots = roots
        self.runtime = self.closure(roots)

    def closure(self, roots, calls_only=False, without=()):
        seen, work = set(), [r for r in roots]
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            if calls_only:
                nxt = {i.f for i in self.M.funcs[n].calls() if i.f in self.M.funcs}
            else:
                nxt = self.edges[n]
            work.extend(x for x in nxt if x not in seen and (n, x) not in without)
        return seen
