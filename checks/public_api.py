"""P21: what the package offers to other packages' native code matches its header."""
import json
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import rast
from common import AnalysisBroken, main

PROP = "P21"

# Callables other packages look up by name without a header, with their
# interface (LLVM types): return, parameters. Removing one, or changing its
# interface, breaks packages compiled against it.
PINNED = {
    "exp_vec_cast": ("ptr", ["ptr", "ptr"]), "exp_vec_chop": ("ptr", ["ptr", "ptr"]), "exp_vec_slice_impl": ("ptr", ["ptr", "ptr"]),
    "exp_vec_names": ("ptr", ["ptr"]), "exp_vec_set_names": ("ptr", ["ptr", "ptr"]),
    "exp_short_compact_seq": ("ptr", ["i32", "i32", "i1"]), "exp_short_init_compact_seq": ("void", ["ptr", "i32", "i32", "i1"]),
    "obj_is_vector": ("i1", ["ptr"]), "short_vec_size": ("i32", ["ptr"]), "short_vec_recycle": ("ptr", ["ptr", "i32"]), "vec_is_vector": ("i1", ["ptr"]),
}


def ast(path, incs):
    cmd = ["clang-18", "-std=gnu17", "-fsyntax-only", "-w"] + ["-I" + i for i in incs] + ["-Xclang", "-ast-dump=json", path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot parse %s: %s" % (path, r.stderr[-300:]))
    return json.loads(r.stdout)


def ll(t):
    """LLVM type of a C type"""
    t = re.sub(r"\b(const|extern|register)\b", "", t).strip()
    if t.endswith("*") or t in ("SEXP", "r_obj *", "struct SEXPREC *"):
        return "ptr"
    return {"bool": "i1", "_Bool": "i1", "int": "i32", "R_len_t": "i32", "R_xlen_t": "i64", "r_ssize": "i64", "void": "void", "double": "double",
            "ptrdiff_t": "i64", "size_t": "i64", "long": "i64"}.get(t, t)


def sig(qt):
    """(return, parameters) of 'R (*)(A, B)'"""
    m = re.match(r"^(.*?)\(\*\)\((.*)\)$", qt)
    if not m:
        return None
    ps = [p.strip() for p in m.group(2).split(",")] if m.group(2).strip() not in ("", "void") else []
    return ll(m.group(1).strip()), [ll(p) for p in ps]


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed([y for y in x.get("inner", []) if y]))


def irsig(f):
    norm = lambda t: "i1" if t in ("i1", "i8") else t
    return norm(f.ret), [norm(a["t"]) for a in f.args]


def run(rep):
    M = common.load_module()
    P = common.load_r()
    rinc = subprocess.run(["R", "RHOME"], stdout=subprocess.PIPE, text=True).stdout.strip()
    rinc = subprocess.run(["Rscript", "--vanilla", "-e", "cat(R.home('include'))"], stdout=subprocess.PIPE, text=True).stdout.strip() or rinc + "/include"
    rep.rule("filled", "every function pointer of the public header is looked up when the API is initialised, under its own name", 4)
    rep.rule("interface", "a pointer of the public header, the cast at its lookup and the registered function have the same interface", 4)
    rep.rule("callables", "callables looked up without a header keep their names and interfaces", 11)
    rep.rule("registered", "every C callable is registered for this package with a defined function", 11)
    rep.rule("imported", "every native function taken from rlang is looked up before it can be called, from the package that provides it", 5)
    rep.rule("parameters", "an interface function hands each of its arguments on", 10)
    rep.rule("version", "the version compiled into the library is the package's version", 1)

    # what the library registers
    regs = {}
    for f in M.funcs.values():
        for c in f.calls():
            if c.f == "R_RegisterCCallable":
                yield_reg(M, regs, rep, f, c)
    if len(regs) < 8:
        raise AnalysisBroken("only %d registered C callables found" % len(regs))
    for name, (ret, ps) in PINNED.items():
        if name not in regs:
            rep.violation("callables", name, "src/init.c", "C callable '%s', which other packages look up, is not registered" % name)
            continue
        fn = regs[name]
        got = irsig(M.funcs[fn])
        if got != (ret, ps):
            rep.violation("callables", name, M.funcs[fn].file, "C callable '%s' has interface %s(%s), documented as %s(%s)" % (name, got[0], ", ".join(got[1]), ret, ", ".join(ps)))
        else:
            rep.ok("callables", sample="%s -> %s" % (name, fn))

    # the header and its initialiser
    incd = os.path.join(common.REPO, "inst", "include")
    t = ast(os.path.join(incd, "vctrs.c"), [rinc, incd])
    ptrs, lookups = {}, {}
    for n in t["inner"]:
        if n.get("kind") == "VarDecl" and "(*)" in n["type"]["qualType"]:
            ptrs.setdefault(n["name"], []).append(n["type"]["qualType"])
        if n.get("kind") == "FunctionDecl" and n.get("name") == "vctrs_init_api":
            for x in walk(n):
                if x.get("kind") == "BinaryOperator" and x.get("opcode") == "=":
                    l, r = x["inner"]
                    ref = [y for y in walk(l) if y.get("kind") == "DeclRefExpr"]
                    strs = [y["value"].strip('"') for y in walk(r) if y.get("kind") == "StringLiteral"]
                    casts = [y for y in walk(r) if y.get("kind") == "CStyleCastExpr"]
                    if ref:
                        lookups[ref[0]["referencedDecl"]["name"]] = (strs, casts[0]["type"]["qualType"] if casts else None)
    if len(ptrs) < 3:
        raise AnalysisBroken("public header: only %d function pointers found" % len(ptrs))
    for p, types in ptrs.items():
        if p not in lookups:
            rep.violation("filled", p, "inst/include/vctrs.c", "function pointer %s of the public header is never looked up" % p)
            continue
        strs, cast = lookups[p]
        if strs[:1] != ["vctrs"] or len(strs) < 2 or strs[1] != p:
            rep.violation("filled", p, "inst/include/vctrs.c", "function pointer %s is filled with %s" % (p, "::".join(strs)))
            continue
        rep.ok("filled")
        if p not in regs:
            rep.violation("interface", p, "inst/include/vctrs.c", "%s is looked up but never registered" % p)
            continue
        f = M.funcs[regs[p]]
        sigs = {str(sig(x)) for x in types} | ({str(sig(cast))} if cast else set())
        if len(sigs) > 1 or sig(types[0]) != irsig(f):
            rep.violation("interface", p, "inst/include/vctrs.h", "pointer %s is declared as %s, the registered %s() is %s" % (p, types[0], regs[p], irsig(f)))
        else:
            rep.ok("interface")

    # a callable forwards what it is given
    for name, fn in regs.items():
        f = M.funcs[fn]
        used = {k for k in range(f.nargs) if reaches(f, k)}
        if i_self(f):
            continue
        for i in f.insts():
            for x, _ in (i.inn or ()) if i.op == "phi" else ():
                used.add(x)
        miss = [f.argname(k) for k in range(f.nargs) if k not in used]
        if miss:
            rep.violation("parameters", name, "%s:%d" % (f.file, f.line), "C callable '%s' ignores its argument %s" % (name, ", ".join(miss)))
        else:
            rep.ok("parameters")

    # functions of rlang used through pointers
    filled = set()
    for f in M.funcs.values():
        for i in f.insts():
            if i.op == "store" and isinstance(i.a[1], tuple) and i.a[1][0] == "g" and isinstance(i.a[0], int):
                d = f.defs.get(i.a[0])
                if d is not None and d.op == "call" and d.f in ("R_GetCCallable", "r_peek_c_callable") :
                    filled.add(i.a[1][1])
    for f in M.funcs.values():
        for i in f.insts():
            if i.op == "call" and not i.f and isinstance(i.fp, int):
                d = f.defs.get(i.fp)
                if d is not None and d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
                    g = d.a[0][1]
                    stores = any(j.op == "store" and j.a[1] == d.a[0] for h in M.funcs.values() for j in h.insts()) if g not in filled else True
                    if not stores:
                        rep.violation("imported", g, "%s:%s" % (f.file, i.l), "%s is called through but never set" % g)
                    else:
                        rep.ok("imported")

    ver = None
    for line in open(os.path.join(common.REPO, "DESCRIPTION")):
        if line.startswith("Version:"):
            ver = line.split(":", 1)[1].strip()
    src = open(os.path.join(common.REPO, "src", "version.c")).read()
    m = re.search(r'vctrs_version\s*=\s*"([^"]*)"', src)
    if not m or not ver:
        raise AnalysisBroken("version not found")
    if m.group(1) != ver:
        rep.violation("version", "version", "src/version.c", "compiled version %s, package version %s" % (m.group(1), ver))
    else:
        rep.ok("version")
    rep.coverage.update({"callables": len(regs), "header_pointers": len(ptrs)})


def reaches(f, v, depth=0):
    """something other than a conversion uses the value"""
    for u in f.uses.get(v, ()):
        if u.op in ("zext", "sext", "trunc", "bitcast") and depth < 6:
            if reaches(f, u.id, depth + 1):
                return True
        else:
            return True
    return False


def i_self(f):
    return f.nargs == 0


def yield_reg(M, regs, rep, f, c):
    import cside
    pkg, name = cside.cstring(M, c.a[0]), cside.cstring(M, c.a[1])
    fn = c.a[2][1] if isinstance(c.a[2], tuple) and c.a[2][0] in ("f", "g") else None
    if fn not in M.funcs or pkg != "vctrs":
        rep.violation("registered", str(name), "%s:%s" % (f.file, c.l), "C callable '%s' is registered for package '%s' with %s" % (name, pkg, fn))
        return
    rep.ok("registered")
    regs[name] = fn


if __name__ == "__main__":
    main(PROP, run)
