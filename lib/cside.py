"""Facts about the C side shared by several checks: registration tables,
symbol and function globals, string constants, value tracing."""
from common import AnalysisBroken
from ir import NULL

INSTALL = {"Rf_install", "r_sym"}


def cstring(M, v):
    if isinstance(v, tuple) and v[0] == "g":
        g = M.globals.get(v[1])
        if g and g.get("init") and "s" in (g["init"] or {}):
            s = g["init"]["s"]
            return s[v[2]:] if v[2] else s
        if g and g.get("init") == {"c": 0, "agg": True}:
            return ""
    return None


def tables(M):
    res = {"call": {}, "ext": {}}
    regs = [c for f in M.funcs.values() for c in f.calls() if c.f == "R_registerRoutines"]
    if not regs:
        raise AnalysisBroken("R_registerRoutines is not called")
    for c in regs:
        for k, slot in (("call", 2), ("ext", 4)):
            v = c.a[slot]
            if not (isinstance(v, tuple) and v[0] == "g"):
                continue
            ini = M.globals[v[1]].get("init")
            if not ini or "a" not in ini:
                raise AnalysisBroken("registration table %s has no constant initialiser" % v[1])
            for row in ini["a"]:
                if "a" not in row:
                    continue
                cells = row["a"]
                nm = cstring(M, ("g", cells[0]["g"], cells[0]["o"])) if "g" in cells[0] else None
                if nm is None:
                    continue
                fn = cells[1].get("g")
                if nm in res[k]:
                    res[k].setdefault("#dup", []).append(nm)
                res[k][nm] = (fn, cells[2].get("c"))
    return res


def trace(f, v, depth=0):
    """Follow trivially value-preserving instructions."""
    while isinstance(v, int) and depth < 8:
        d = f.defs.get(v)
        if d is None:
            return v
        if d.op in ("bitcast",):
            v = d.a[0]
            depth += 1
            continue
        if d.op == "call" and f.mod.basename(d.f) in ("Rf_protect", "PROTECT_N", "KEEP_N") and d.a:
            v = d.a[0]
            depth += 1
            continue
        return v
    return v


def const_globals(M):
    """(global, offset) -> facts about the value the initialisers store:
    ('sym', name) | ('fn', name, envdesc) | other."""
    res = {}
    other = set()
    pend = []
    for f in M.funcs.values():
        for i in f.insts():
            if i.op != "store":
                continue
            dst = i.a[1]
            if not (isinstance(dst, tuple) and dst[0] == "g"):
                continue
            key = (dst[1], dst[2])
            v = trace(f, i.a[0])
            if v == NULL or (isinstance(v, tuple) and v[0] in ("c", "u")):
                continue
            d = f.defs.get(v) if isinstance(v, int) else None
            if d is not None and d.op == "call" and M.basename(d.f) in INSTALL:
                s = cstring(M, d.a[0])
                if s is not None:
                    res.setdefault(key, set()).add(("sym", s))
                    continue
            if d is not None and d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][1] in R_SYMBOLS:
                res.setdefault(key, set()).add(("sym", R_SYMBOLS[d.a[0][1]]))
                continue
            if d is not None and d.op == "call" and M.basename(d.f) in ("r_env_get", "Rf_findVar", "r_env_find", "r_env_find_anywhere", "Rf_findVarInFrame3", "Rf_findFun"):
                pend.append((key, f, d))
                continue
            if d is not None and d.op == "call" and M.basename(d.f) in ("r_parse", "r_parse_eval"):
                s = cstring(M, d.a[0])
                if s is not None:
                    res.setdefault(key, set()).add(("parse", s))
                    continue
            other.add(key)
    syms = {k: next(iter(v)) for k, v in res.items() if len(v) == 1}
    for key, f, d in pend:
        a = list(d.a)
        nm = None
        env = None
        for v in a:
            s = symname(M, f, v, syms)
            if s is not None:
                nm = s
            else:
                env = env or v
        if nm:
            res.setdefault(key, set()).add(("fn", nm, envname(M, f, env)))
        else:
            other.add(key)
    return {k: next(iter(v)) for k, v in res.items() if len(v) == 1 and k not in other}


def envname(M, f, v):
    v = trace(f, v)
    if isinstance(v, int):
        d = f.defs.get(v)
        if d is None:
            if v < f.nargs:
                return "arg:" + (f.pn.get(v + 1) or f.argname(v))
            return None
        if d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
            g = d.a[0]
            return "glob:%s" % (g[1] if not M.gfield(g[1], g[2]) else g[1] + "." + M.gfield(g[1], g[2]))
    return None


def symname(M, f, v, cg):
    """Name of the symbol a value certainly is, if any."""
    v = trace(f, v)
    if isinstance(v, int):
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op == "call" and M.basename(d.f) in INSTALL:
            return cstring(M, d.a[0])
        if d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
            fact = cg.get((d.a[0][1], d.a[0][2]))
            if fact and fact[0] == "sym":
                return fact[1]
            # R's own symbol globals
            rs = R_SYMBOLS.get(d.a[0][1])
            if rs:
                return rs
    return None


R_SYMBOLS = {
    "R_NamesSymbol": "names", "R_ClassSymbol": "class", "R_RowNamesSymbol": "row.names", "R_DimSymbol": "dim",
    "R_DimNamesSymbol": "dimnames", "R_LevelsSymbol": "levels", "R_DotsSymbol": "...", "R_TspSymbol": "tsp",
    "R_DollarSymbol": "$", "R_BracketSymbol": "[", "R_Bracket2Symbol": "[[", "R_BraceSymbol": "{",
    "R_QuoteSymbol": "quote", "R_SrcrefSymbol": "srcref",
}
