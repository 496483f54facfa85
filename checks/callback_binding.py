"""P06: every R function that C code calls exists where it
is looked up and accepts the arguments C names; every piece of R code C parses
refers to existing functions."""
import json
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import cside
from common import AnalysisBroken, main
from ir import NULL
from roles import Roles, misplaced

PROP = "P06"
MASK = re.compile(r"^vctrs_(eval_mask|dispatch)(\d)$")
CALLS = {"Rf_lang1": 1, "Rf_lang2": 2, "Rf_lang3": 3, "Rf_lang4": 4, "Rf_lang5": 5, "Rf_lang6": 6,
         "r_call": 1, "r_call2": 2, "r_call3": 3, "r_call4": 4, "r_call5": 5}
LOOKUP = {"r_env_get", "r_env_find", "Rf_findVar", "Rf_findVarInFrame3", "Rf_findVarInFrame", "Rf_findFun", "r_env_find_anywhere"}


class Ctx:
    pass


def callers(M):
    res = {}
    for f in M.funcs.values():
        for c in f.calls():
            if c.f in M.funcs:
                res.setdefault(c.f, []).append((f, c))
    return res


def resolve(X, f, v, depth=0, seen=None):
    """Set of facts a function/symbol operand may be: ('sym',n), ('fn',n,env), ('?',)"""
    M = X.M
    seen = seen or set()
    if (f.name, v) in seen or depth > 5:
        return {("?",)}
    seen = seen | {(f.name, v)}
    v = cside.trace(f, v)
    s = cside.symname(M, f, v, X.cg)
    if s is not None:
        return {("sym", s)}
    if isinstance(v, tuple):
        if v == NULL:
            return set()
        return {("?",)}
    d = f.defs.get(v)
    if d is None:
        out = set()
        sites = X.callers.get(f.name, [])
        if not sites or not f.local and f.name in X.addr:
            out.add(("?",))
        for g, c in sites:
            if v < len(c.a):
                out |= resolve(X, g, c.a[v], depth + 1, seen)
        return out
    if d.op == "load" and isinstance(d.a[0], tuple) and d.a[0][0] == "g":
        fact = X.cg.get((d.a[0][1], d.a[0][2]))
        if fact and fact[0] in ("fn", "sym", "parse"):
            return {fact}
        if d.a[0][1] == "R_NilValue":
            return set()
        return {("?", d.a[0][1])}
    if d.op == "phi":
        out = set()
        for x, _ in d.inn:
            out |= resolve(X, f, x, depth + 1, seen)
        return out
    if d.op == "select":
        return resolve(X, f, d.a[1], depth + 1, seen) | resolve(X, f, d.a[2], depth + 1, seen)
    if d.op == "call" and M.basename(d.f) in ("r_parse",):
        s = cside.cstring(M, d.a[0])
        if s:
            return {("parse", s)}
    if d.op == "call" and M.basename(d.f) in LOOKUP:
        nm = env = None
        for a in d.a:
            s = cside.symname(M, f, a, X.cg)
            if s is not None:
                nm = s
            else:
                env = env or cside.envname(M, f, a)
        if nm:
            return {("fn", nm, env)}
    return {("?",)}


def pmatch(formals, nm):
    """The formal R's argument matching picks for a tag (partial matching before `...`)."""
    if nm is None or nm in formals:
        return nm
    pre = formals[:formals.index("...")] if "..." in formals else formals
    c = [f for f in pre if f.startswith(nm)]
    return c[0] if len(c) == 1 else nm


def accepts(P, name, pkg_ok):
    """(exists, formals or None, required)"""
    fn = P.fun(name)
    if fn is not None:
        return True, fn.formals, [a for a in fn.formals if fn.defaults.get(a) is None and a != "..."], fn
    if name in P.vars:
        return True, None, [], None
    p = P.imported(name)
    if p:
        isfun, fm = P.base[p][name]
        return True, fm, [], None
    return False, None, [], None


def uses_without_guard(fn, formal):
    """formal is used in the body and the body never asks missing(formal)"""
    used = False
    for n in fn.body.walk():
        if n.t == "call" and n.callee() in ("missing", "is_missing", "maybe_missing") and any(x.t == "sym" and x.n == formal for _, x in n.a):
            return False
        if n.t == "sym" and n.n == formal:
            used = True
    return used


def run(rep):
    M = common.load_module()
    P = common.load_r()
    X = Ctx()
    X.M = M
    X.cg = cside.const_globals(M)
    X.callers = callers(M)
    X.addr = set()
    for f in M.funcs.values():
        for i in f.insts():
            for a in (i.a if i.op != "call" else i.a):
                if isinstance(a, tuple) and a[0] == "g" and a[1] in M.funcs:
                    X.addr.add(a[1])
    rep.rule("exists", "a function C calls by name is defined in the namespace it is looked up in", 35)
    rep.rule("arguments", "the argument names C supplies are formals of that function", 35)
    rep.rule("complete", "formals without default that the function uses are all supplied", 28)
    rep.rule("parsed", "R code C parses refers to existing functions and passes formals they have", 28)
    rep.rule("fetched", "an object C fetches from a namespace at load time is defined there", 15)
    rep.rule("order", "an argument is not bound to another argument's name while that one is bound to this one's", 20)
    rep.rule("generic", "an S3 generic whose methods C looks up by name exists", 5)

    X.roles = Roles(M)

    def check_target(fact, names, npos, where, who, vals=None, f=None):
        """names: supplied tags (None for positional)"""
        if fact[0] == "sym":
            name, env = fact[1], None
        elif fact[0] == "fn":
            name, env = fact[1], fact[2]
        else:
            return
        base_only = env is not None and "R_Base" in str(env)
        if base_only:
            ok = name in P.base["base"]
            formals, fn, req = (P.base["base"][name][1] if ok else None), None, []
        else:
            ok, formals, req, fn = accepts(P, name, None)
        key = "%s->%s" % (who, name)
        if not ok:
            rep.violation("exists", key, where, "%s calls R function `%s`, which does not exist in %s" % (who, name, "base" if base_only else "the vctrs namespace or its imports"))
            return
        rep.ok("exists", sample="%s calls %s" % (who, name))
        if formals is None:
            return
        bad = []
        names = [pmatch(formals, nm) for nm in names]
        for nm in names:
            if nm is not None and nm not in formals and "..." not in formals:
                bad.append(nm)
        if npos + len([n for n in names if n is not None]) > len(formals) and "..." not in formals:
            bad.append("%d arguments for %d formals" % (npos + len(names), len(formals)))
        if bad:
            rep.violation("arguments", key + ":" + ",".join(map(str, bad)), where, "%s calls `%s` with %s, formals are (%s)" % (who, name, ", ".join(map(str, bad)), ", ".join(formals)))
            return
        rep.ok("arguments", sample="%s(%s)" % (name, ", ".join(n or "<pos>" for n in names) or "%d positional" % npos))
        if fn is not None:
            left = [a for a in formals if a not in names]
            got = set(n for n in names if n) | set(left[:npos])
            # a call without arguments is an error context, displayed and never evaluated
            missing = [a for a in req if a not in got and uses_without_guard(fn, a)] if (names or npos) else []
            if vals is not None and f is not None:
                free = iter([a for a in formals if a not in names])
                bound = []
                for nm, v in vals:
                    fm = pmatch(formals, nm) if nm is not None else next(free, None)
                    if fm == "..." or fm is None:
                        break
                    bound.append((fm, X.roles.role(f, v)))
                bad = misplaced(formals, bound)
                if bad:
                    rep.violation("order", key + ":roles", where, "%s calls `%s`: %s" % (who, name, "; ".join(bad)))
                else:
                    rep.ok("order")
            if missing:
                rep.violation("complete", key + ":" + ",".join(missing), where, "%s calls `%s` without `%s`, which has no default and is used" % (who, name, ", ".join(missing)))
            else:
                rep.ok("complete")

    parse_jobs = []
    subst = {}
    for f in M.funcs.values():
        if f.name != f.base and f.base in M.funcs and False:
            continue
        for c in f.calls():
            b = M.basename(c.f) if c.f else None
            if b is None:
                continue
            where = "%s:%s" % (f.file, c.l)
            m = MASK.match(b)
            if m and not MASK.match(f.base):
                k = 2 if m.group(1) == "dispatch" else 1
                names = []
                unknown = False
                for j in range(k, len(c.a), 2):
                    r = resolve(X, f, c.a[j])
                    ss = {x[1] for x in r if x[0] == "sym"}
                    if len(ss) != 1 or len(r) != 1:
                        unknown = True
                        names.append(None)
                    else:
                        names.append(ss.pop())
                vals = [f.valname(c.a[j + 1]) if j + 1 < len(c.a) else None for j in range(k, len(c.a), 2)]
                sw = [(i, j) for i in range(len(names)) for j in range(i) if names[i] and names[j] and names[i] != names[j] and names[i] == vals[j] and names[j] == vals[i]]
                if sw:
                    i, j = sw[0]
                    rep.violation("order", "%s:%s:%s" % (f.base, names[i], names[j]), where, "%s binds `%s` to argument `%s` and `%s` to argument `%s`" % (f.base, vals[i], names[i], vals[j], names[j]))
                else:
                    rep.ok("order")
                targets = resolve(X, f, c.a[k - 1])
                known = [t for t in targets if t[0] in ("sym", "fn")]
                if k == 2:
                    gens = [t for t in resolve(X, f, c.a[0]) if t[0] == "sym"]
                    if not known or len(known) < len(targets):
                        # a method found by dispatch: its generic fixes the formals
                        for t in gens:
                            if P.fun(t[1]) is None:
                                continue  # bound under that name in the mask
                            check_target(t, [n for n in names if n], 0, where, f.base, [(names[q], c.a[k + 2 * q + 1]) for q in range(len(names)) if names[q] and k + 2 * q + 1 < len(c.a)], f)
                for t in known:
                    check_target(t, [n for n in names if n], len([n for n in names if not n]), where, f.base, [(names[q], c.a[k + 2 * q + 1]) for q in range(len(names)) if k + 2 * q + 1 < len(c.a)], f)
            elif b in CALLS and f.base not in CALLS:
                bound = {cside.symname(M, f, a, X.cg) for c2 in f.calls() if M.basename(c2.f) in ("Rf_defineVar", "r_env_bind", "r_env_poke") for a in c2.a}
                for t in resolve(X, f, c.a[0]):
                    if t[0] == "sym" and t[1] in bound:
                        continue
                    check_target(t, [], len(c.a) - 1, where, f.base, [(None, a) for a in c.a[1:]], f) if t[0] in ("sym", "fn") else None
            elif b == "r_call_n" and len(c.a) == 3 and f.base != b:
                arr = []
                for a in c.a[1:]:
                    bs, off = X.roles.S.base(f, a)
                    sm = X.roles.S.storemap(f)
                    vs = []
                    k = off
                    while isinstance(bs, int) and len(sm.get((bs, k), ())) == 1:
                        v = sm[bs, k][0].a[0]
                        if v == ("null",):
                            break
                        vs.append(v)
                        k += 8
                    arr.append(vs)
                names = []
                for v in arr[0]:
                    r = resolve(X, f, v)
                    ss = {x[1] for x in r if x[0] == "sym"}
                    names.append(ss.pop() if len(ss) == 1 and len(r) == 1 else None)
                if not names:
                    continue
                if len(arr[0]) != len(arr[1]):
                    rep.violation("arguments", "%s:%s" % (f.base, "array"), where, "%s passes %d values under %d names" % (f.base, len(arr[1]), len(arr[0])))
                    continue
                for t in resolve(X, f, c.a[0]):
                    if t[0] in ("sym", "fn"):
                        check_target(t, [n for n in names if n], len([n for n in names if not n]), where, f.base, list(zip(names, arr[1])), f)
            elif b in ("r_parse", "r_parse_eval"):
                s = cside.cstring(M, c.a[0])
                if s is not None:
                    parse_jobs.append((s, f, where))
                    # r_eval_with_xy(call, x, y, env) and the like bind single-letter variables
                    held = {c.id} | {u.id for u in f.uses.get(c.id, ()) if u.op == "call" and M.basename(u.f) == "Rf_protect"}
                    for u in f.calls():
                        w = re.fullmatch(r"r_eval_with_(\w+)", M.basename(u.f) or "")
                        if w and u.a[0] in held:
                            subst[s] = dict(zip(w.group(1), u.a[1:]))
            elif b in LOOKUP and f.base not in LOOKUP:
                nm = env = None
                for a in c.a:
                    s = cside.symname(M, f, a, X.cg)
                    if s is not None:
                        nm = s
                    else:
                        env = env or cside.envname(M, f, a)
                if nm is None or env is None:
                    continue
                isbase = "R_Base" in env
                isns = env in ("arg:ns", "glob:vctrs_ns_env")
                if isbase:
                    if nm in P.base["base"] or nm.startswith(".__S3"):
                        rep.ok("fetched")
                    else:
                        rep.violation("fetched", "%s:%s" % (f.base, nm), where, "%s fetches `%s` from base, where it is not defined" % (f.base, nm))
                elif isns:
                    if P.defined(nm) or nm.startswith(".__S3"):
                        rep.ok("fetched", sample=nm)
                    else:
                        rep.violation("fetched", "%s:%s" % (f.base, nm), where, "%s fetches `%s` from the vctrs namespace, where it is not defined" % (f.base, nm))
            elif b in ("s3_find_method", "s3_find_method_xy", "s3_find_method2", "s3_get_method"):
                s = cside.cstring(M, c.a[0])
                if s is not None:
                    if P.fun(s) is not None or P.imported(s) or any(g == s for g, _, _ in P.s3):
                        rep.ok("generic", sample=s)
                    else:
                        rep.violation("generic", "%s:%s" % (f.base, s), where, "%s looks up methods of `%s`, which is not a generic of the package" % (f.base, s))

    # parsed snippets
    code = "\n".join(json.dumps(s) for s in sorted({s for s, _, _ in parse_jobs}))
    r = subprocess.run(["Rscript", "--vanilla", "-e", r'''
x <- readLines(file("stdin"))
for (l in x) {
  s <- eval(parse(text = l))
  e <- tryCatch(parse(text = s), error = function(e) NULL)
  if (is.null(e)) { cat(l, "\tSYNTAX\n", sep = ""); next }
  walk <- function(n) if (is.call(n)) {
    h <- n[[1]]
    nm <- names(n); if (is.null(nm)) nm <- rep("", length(n))
    if (is.symbol(h)) cat(l, "\t\t", as.character(h), "\t", paste(nm[-1], collapse = ","), "\t", length(n) - 1, "\t", paste(vapply(as.list(n)[-1], function(a) if (is.symbol(a)) as.character(a) else "", ""), collapse = ","), "\n", sep = "")
    else if (is.call(h) && as.character(h[[1]]) %in% c("::", ":::")) cat(l, "\t", as.character(h[[2]]), "\t", as.character(h[[3]]), "\t", paste(nm[-1], collapse = ","), "\t", length(n) - 1, "\n", sep = "")
    if (!(is.symbol(h) && as.character(h) %in% c("::", ":::", "function", ".Internal"))) for (i in seq_along(n)) if (!identical(n[[i]], quote(expr = ))) walk(n[[i]])
  }
  for (q in as.list(e)) walk(q)
}'''], input=code + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot parse R snippets: " + r.stderr)
    refs = {}
    for line in r.stdout.splitlines():
        p = line.split("\t")
        refs.setdefault(json.loads(p[0]), []).append(p[1:])
    done = set()
    for s, f, where in parse_jobs:
        if s in done:
            continue
        done.add(s)
        # snippets that only serve as the displayed context of errors are not evaluated
        lazy_only = False
        for i in f.insts():
            pass
        for ref in refs.get(s, []):
            if ref[0] == "SYNTAX":
                rep.violation("parsed", s, where, "%s parses %r, which is not valid R" % (f.base, s))
                continue
            pkg, fn, names, n = ref[0], ref[1], [x for x in ref[2].split(",")] if ref[2] else [], int(ref[3])
            tags = [x for x in names if x]
            if pkg and pkg in P.base:
                if fn not in P.base[pkg]:
                    rep.violation("parsed", s + ":" + fn, where, "%s evaluates %r: %s::%s does not exist" % (f.base, s, pkg, fn))
                    continue
                formals = P.base[pkg][fn][1]
            elif pkg:
                rep.ok("parsed")
                continue
            else:
                ok, formals, req, rf = accepts(P, fn, None)
                if not ok:
                    # display-only calls of error contexts end in "()" and are never evaluated
                    if re.fullmatch(r"[\w.]+\(\)", s):
                        rep.ok("parsed")
                        continue
                    rep.violation("parsed", s + ":" + fn, where, "%s evaluates %r: no function `%s`" % (f.base, s, fn))
                    continue
                if rf is not None and not re.fullmatch(r"[\w.]+\(\)", s):
                    pos = n - len(tags)
                    if "..." not in formals and (n > len(formals) or any(pmatch(formals, t) not in formals for t in tags)):
                        rep.violation("parsed", s + ":" + fn, where, "%s evaluates %r but `%s` has formals (%s)" % (f.base, s, fn, ", ".join(formals)))
                        continue
                    given = ref[4].split(",") if len(ref) > 4 and ref[4] else []
                    if s in subst and len(given) == n and "..." not in formals:
                        nms = (names + [""] * n)[:n]
                        free = iter([a for a in formals if a not in nms])
                        bound = []
                        for nm, var in zip(nms, given):
                            fm = pmatch(formals, nm) if nm else next(free, None)
                            if var in subst[s]:
                                bound.append((fm, X.roles.role(f, subst[s][var])))
                        bad = misplaced(formals, bound)
                        if bad:
                            rep.violation("order", s + ":roles", where, "%s evaluates %r: %s" % (f.base, s, "; ".join(bad)))
                            continue
                        rep.ok("order")
            if formals is not None and tags and "..." not in formals and any(t not in formals and not any(x.startswith(t) for x in formals) for t in tags):
                rep.violation("parsed", s + ":" + fn + ":tags", where, "%s evaluates %r but `%s` has formals (%s)" % (f.base, s, fn, ", ".join(formals)))
                continue
            rep.ok("parsed", sample=s)


if __name__ == "__main__":
    main(PROP, run)
