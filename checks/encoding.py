"""P17: strings are told apart by content, not by the encoding they are stored
in - every string compared, hashed, marked or sorted by address has gone
through the translation."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import loops
from common import AnalysisBroken, main
from operands import Operands, USER
from strsink import StringSinks

PROP = "P17"
NORM = "vec_normalize_encoding"
# comparing by content: what a mismatch of addresses may fall back on
CONTENT = {"Rf_translateCharUTF8", "Rf_translateChar", "Rf_NonNullStringMatch", "Rf_StringBlank", "Seql", "R_compute_identical"}
# operations running code of classes, whose results need translation anew
USEROPS = {"proxy", "cast"}
# attributes whose strings are plain ASCII: names of time zones
ASCII_ATTR = {("sym", "tzone")}
# other kernels of the vectors made for kernels
KERNEL_OTHER = {"poly_p_is_missing", "poly_p_is_incomplete"}


class Check:
    def __init__(self, M, P, rep):
        self.M, self.rep = M, rep
        self.O = Operands(M, P)
        self.SS = StringSinks(M, self.O.S)
        self.content = self.reaching(CONTENT)
        self.norm = self.reaching({NORM})

    def reaching(self, names):
        """functions whose code leads to one of the named functions"""
        M = self.M
        r = {f.name for f in M.funcs.values() if f.base in names} | set(names)
        ch = True
        while ch:
            ch = False
            for f in M.funcs.values():
                if f.name not in r and any(i.f in r for i in f.calls()):
                    r.add(f.name)
                    ch = True
        return r

    def family(self, f, v):
        """values of f that are v itself, protected or read out"""
        M = self.M
        out, st = set(), [v]
        while st:
            v = st.pop()
            if not isinstance(v, int) or v in out:
                continue
            out.add(v)
            d = f.defs.get(v) if v >= f.nargs else None
            if d is not None and d.op == "call" and M.basename(d.f) in ("Rf_protect", "PROTECT_N", "STRING_ELT", "r_chr_get", "STRING_PTR", "STRING_PTR_RO"):
                st.append(d.a[0])
            if d is not None and d.op == "load":
                st += list(self.SS.base(f, d.a[0]))
            if d is not None and d.op in ("phi",):
                st += [x for x, _ in d.inn]
            for u in f.uses.get(v, ()):
                if u.op == "call" and (u.f in self.SS.wrappers or M.basename(u.f) in ("Rf_protect", "STRING_ELT", "r_chr_get", "R_CHAR")):
                    st.append(u.id)
                elif u.op in ("getelementptr", "load", "phi"):
                    st.append(u.id)
        return out

    def falls_back(self, f, v):
        """is v also compared by content here, so that the comparison of
        addresses is only a shortcut?"""
        fam = self.family(f, v)
        for x in fam:
            for u in f.uses.get(x, ()):
                if u.op == "call" and u.f and (u.f in CONTENT or (u.f in self.content and u.f in self.M.funcs and self.direct(u.f))):
                    return True
                if u.op == "call" and u.f in self.norm and u.f in self.M.funcs and self.M.basename(u.f) in ("vec_match", "vec_match_params", "vec_equal", "vec_in"):
                    return True
        return False

    def direct(self, n):
        """a helper that itself translates or compares characters"""
        return any(i.f in CONTENT for i in self.M.funcs[n].calls())

    def missing_only(self, f, v):
        """the kernels f picks for its vectors only ask whether a value is
        missing"""
        M = self.M
        picks = {M.basename(i.f) for i in f.calls() if (M.basename(i.f) or "").startswith("poly_p_")}
        return bool(picks) and picks <= KERNEL_OTHER

    def other_operand(self, f, v):
        """parameters a string parameter is compared with"""
        out = set()
        fam = self.family(f, v)
        for i in f.insts():
            if i.op == "icmp" and len(i.a) == 2:
                a, b = i.a
                for x, y in ((a, b), (b, a)):
                    if x in fam and isinstance(y, int) and y < f.nargs:
                        out.add(y)
        return out

    def constant_arg(self, h, v):
        d = h.defs.get(v) if isinstance(v, int) and v >= h.nargs else None
        if isinstance(v, tuple):
            return True
        return d is not None and d.op == "load" and isinstance(d.a[0], tuple)

    def run(self):
        M, rep, SS = self.M, self.rep, self.SS
        for (n, v), (why, inst) in sorted(SS.sinks.items(), key=str):
            f = M.funcs[n]
            name = f.valname(v)
            rep.ok("sinks", sample="%s: %s %s" % (inst.loc(), name, why))
            if self.falls_back(f, v):
                rep.ok("shortcut", sample="%s: %s" % (inst.loc(), name))
                continue
            others = self.other_operand(f, v) if why == "compared" else set()
            if others and all(self.constant_arg(h, args[k]) for k in others for h, _, args in self.O.C.callers.get(n, ()) if k < len(args)) and self.O.C.callers.get(n):
                rep.ok("constant", sample="%s: %s" % (inst.loc(), name))
                continue
            self.origins(f, v, why, inst, name)

    def origins(self, f, v, why, inst, name):
        rep = self.rep
        bad = {}

        def judge(ops, path):
            names = [o for o, _ in ops]
            for o, det in ops:
                if o == "attr" and det in ASCII_ATTR:
                    rep.ok("ascii", sample=det[1])
                    return True
                if o in ("encode", "rank"):
                    rep.ok("origins")
                    return True
                if o in USEROPS and not any(self.missing_only(g, None) for g in path):
                    bad.setdefault((path[-1].name, o), (path, "comes out of a class's %s method untranslated" % ("proxy" if o == "proxy" else "cast")))
                    return True
            if len(path) > 1 and path[-2] is not path[-1] and self.missing_only(path[-2], None):
                rep.ok("missing")
                return True
            return False

        for kind, src, ops, path in self.O.walk(f, v, judge):
            if path[-1].name not in self.O.live:
                rep.ok("dead")
            elif any(self.missing_only(g, None) for g in path):
                rep.ok("missing")
            elif kind == "root":
                bad.setdefault((path[-1].name, src[0]), (path, "is argument `%s` of routine %s, not translated" % (src[2].args[src[1]]["n"], src[0])))
            elif kind == "fresh" and src[1] in USER:
                bad.setdefault((path[-1].name, "eval"), (path, "comes from R code called back, not translated"))
            elif kind == "dead":
                rep.ok("dead")
            else:
                rep.ok("origins")
        for (fn, what), (path, msg) in sorted(bad.items()):
            g = path[-1]
            if g.name not in self.O.live:
                rep.ok("dead")
                continue
            rep.violation("origins", "%s:%s:%s:%s" % (f.base, name, g.base, what), "%s:%s" % (g.file, g.line),
                          "strings %s by address in %s() (%s) via %s: the value %s" % (why, f.base, inst.loc(), " < ".join(x.base for x in path[:8]), msg))


def translator(M, rep):
    """vec_normalize_encoding() itself: which strings it leaves alone, and what
    it looks into"""
    top = [f for f in M.funcs.values() if f.base == NORM]
    if len(top) != 1:
        raise AnalysisBroken("%s() not found" % NORM)
    seen, work = set(), [top[0].name]
    while work:
        n = work.pop()
        if n in seen or n not in M.funcs:
            continue
        seen.add(n)
        work += [i.f for i in M.funcs[n].calls() if i.f in M.funcs]
    calls = {}
    for n in seen:
        for i in M.funcs[n].calls():
            calls.setdefault(M.basename(i.f), []).append((M.funcs[n], i))
    f0 = top[0]

    def need(what, cond, where=None):
        if cond:
            rep.ok("translator", sample=what)
        else:
            rep.violation("translator", what, "%s:%s" % (f0.file, f0.line), "the translation of strings no longer %s" % what)
    need("re-encodes with a declared encoding", any(isinstance(d, object) and d is not None and d.op == "call" and M.basename(d.f) == "Rf_translateCharUTF8" and i.a[1] == ("c", 1)
                                                   for f, i in calls.get("Rf_mkCharCE", ()) for d in [f.defs.get(i.a[0])]))
    cyc = {n for n in seen if reaches(M, n, n)}
    dispatch = [f for f in (M.funcs[n] for n in cyc) if any(M.basename(i.f) in ("TYPEOF", "r_typeof") for i in f.calls())]
    types = set()
    for f in dispatch:
        for i in f.insts():
            if i.op == "switch":
                types |= {c for c, _ in i.cases}
            if i.op == "icmp":
                types |= {a[1] for a in i.a if isinstance(a, tuple) and a[0] == "c"}
    need("looks at the type of the object (character, list)", {16, 19} <= types)
    def recurses(getters):
        for f, i in [x for g in getters for x in calls.get(g, ())]:
            # something read with the getter is handed back to the recursion
            for j in f.calls():
                if j.f in cyc and j.a and f.name in cyc:
                    if isinstance(j.a[0], int) and (any(f.defs.get(y) is i or y == i.id for y in back(f, j.a[0]))):
                        return True
        return False
    need("goes into the elements of lists", recurses(("VECTOR_PTR_RO", "DATAPTR_RO", "VECTOR_ELT", "r_list_cbegin", "r_list_get", "VECTOR_PTR")))
    need("goes into attributes", any(f.name in cyc for g in ("ATTRIB", "r_attrib") for f, _ in calls.get(g, ())) and recurses(("CAR", "r_node_car")))
    need("puts the translated strings into the result", bool(calls.get("SET_STRING_ELT") or calls.get("r_chr_poke")))
    # which encodings are left alone
    n = 0
    for n_ in seen:
        f = M.funcs[n_]
        for i in f.insts():
            if i.op == "and" and any(isinstance(a, int) and from_levels(M, f, a) for a in i.a):
                n += 1
                c = [a[1] for a in i.a if isinstance(a, tuple) and a[0] == "c"]
                if c and c[0] & ~72 == 0:
                    rep.ok("untouched", sample="%s: mask %d" % (i.loc(), c[0]))
                else:
                    rep.violation("untouched", "%s:%s" % (f.base, c), i.loc(), "strings are left alone depending on flags other than ASCII and UTF-8 (mask %s)" % c)
            elif i.op == "call" and M.basename(i.f) == "Rf_getCharCE":
                rep.ok("untouched")
    if n == 0 and not calls.get("Rf_getCharCE"):
        rep.violation("untouched", "none", "%s:%s" % (f0.file, f0.line), "whether a string is left alone does not depend on its encoding")
    coverage(M, rep, seen, cyc)
    # what the recursion made is put in place
    for n_ in cyc:
        f = M.funcs[n_]
        for i in f.calls():
            if i.f in cyc and i.id is not None:
                if not placed(M, f, i.id):
                    rep.violation("translator", "%s:%s:dropped" % (f.base, M.basename(i.f)), i.loc(), "what %s() translated is not put in place in %s()" % (M.basename(i.f), f.base))
                else:
                    rep.ok("translator")


def coverage(M, rep, seen, cyc):
    """the loops of the translator visit every element, and nothing gets past
    them: every way out of the translator goes through the attributes, every
    way out of a loop's function through the loop"""
    POKE = {"SET_STRING_ELT", "r_chr_poke"}
    GET = {"CAR", "r_node_car"}
    translating = {n for n in seen if any(M.basename(i.f) == "Rf_mkCharCE" for i in M.funcs[n].calls())}

    def work_call(i):
        return i.f in cyc or i.f in translating or M.basename(i.f) in POKE
    finders = set()
    base = set()
    for n in sorted(seen):
        f = M.funcs[n]
        L, S, entry = loops.loops(f)
        if not L:
            continue
        where = "%s:%s" % (f.file, f.line)
        for h, body, exits in L:
            ins = list(loops.insts(f, body))
            calls = [i for i in ins if i.op == "call"]
            does = [i for i in calls if work_call(i)]
            inner = [b2 for h2, b2, _ in L if h2 != h and h2 in body]
            does = [i for i in does if not any(i.bb in {x[0] for x in b2} for b2 in inner)]
            phis = {i.id: i for i in f.blocks[h[0]] if i.op == "phi"}
            if not does:
                # a search for the first string that needs work
                if any(from_levels_in(M, f, seen, i) for i in calls) and f.ret in ("i64", "i32"):
                    finders.add(n)
                    for k, p in phis.items():
                        for x, b in p.inn:
                            if isinstance(x, tuple) and x[0] == "c" and x[1] != 0 and b not in {y[0] for y in body} and steps(f, p) == 1:
                                rep.violation("visits", "%s:start" % f.base, where, "the search for strings to translate in %s() skips the first ones" % f.base)
                continue
            if any(i.f in cyc for i in does) and any(M.basename(i.f) in GET for i in calls):
                base.add(n)
            # 1. the loop is left only when its elements are exhausted
            ok = True
            for a, b in exits:
                t = f.blocks[a[0]][-1]
                d = f.defs.get(t.a[0]) if t.a and isinstance(t.a[0], int) else None
                if d is None or d.op != "icmp" or not counts(f, d, phis, body):
                    rep.violation("visits", "%s:left" % f.base, "%s:%s" % (f.file, t.l or f.line), "%s() stops translating before the last element" % f.base)
                    ok = False
                elif short(f, d, phis):
                    rep.violation("visits", "%s:end" % f.base, "%s:%s" % (f.file, t.l or f.line), "%s() leaves out the last elements" % f.base)
                    ok = False
            # 2. it begins with the first, or the first that needs work
            for k, p in phis.items():
                for x, b in p.inn:
                    if b in {y[0] for y in body}:
                        continue
                    d = f.defs.get(x) if isinstance(x, int) and x >= f.nargs else None
                    controls = any(u.op == "icmp" and any(e[0][0] == u.bb for e in exits) for u in f.uses.get(k, ()))
                    if controls and (isinstance(x, tuple) and x[0] == "c" and x[1] != 0 and steps(f, p) == 1
                                     or d is not None and d.op == "add" and steps(f, p) == 1
                                     or d is not None and d.op == "call" and M.basename(d.f) in ("CDR", "r_node_cdr", "CDDR", "CADR", "r_node_cddr")):
                        rep.violation("visits", "%s:start" % f.base, where, "%s() does not start with the first element" % f.base)
                        ok = False
                st = steps(f, p)
                if st not in (None, 0, 1, -1) and any(u.op == "icmp" and any(e[0][0] == u.bb for e in exits) for u in f.uses.get(k, ())):
                    rep.violation("visits", "%s:step" % f.base, where, "%s() skips elements" % f.base)
                    ok = False
            # 3. each turn of a loop over lists or attributes recurses
            rec = {i.bb for i in does if i.f in cyc}
            if rec:
                around = False
                for s in S[h]:
                    if s not in body:
                        continue
                    r = loops.reach(S, s, stop={x for x in S if x[0] in rec or x not in body})
                    if any(h in S[x] for x in r):
                        around = True
                if around and h[0] not in rec:
                    rep.violation("visits", "%s:each" % f.base, where, "%s() leaves some elements untranslated" % f.base)
                    ok = False
            # 4. what comes before the loop does not skip it
            r = loops.reach(S, entry, stop={h})
            cut = set()
            for x in r:
                t = f.blocks[x[0]][-1]
                d = f.defs.get(t.a[0]) if t.op == "br" and t.a and isinstance(t.a[0], int) else None
                if d is not None and d.op == "icmp" and nothing_to_do(M, f, d, finders, seen):
                    cut |= {(x, s) for s in S[x] if not any(h == y for y in loops.reach(S, s))}
            r = loops.reach(S, entry, stop={h}, cut=cut)
            if any(f.blocks[x[0]][-1].op == "ret" for x in r):
                rep.violation("visits", "%s:past" % f.base, where, "%s() can return without looking at the elements" % f.base)
                ok = False
            if ok:
                rep.ok("visits", sample="%s: loop over every element" % f.base)
    # every way out of the function that dispatches on the type goes through the attributes
    memo = {}

    def covers(n):
        if n in base:
            return True
        if n in memo:
            return memo[n]
        memo[n] = False
        f = M.funcs[n]
        entry, S = loops.graph(f)
        cut = set()
        for x in S:
            t = f.blocks[x[0]][-1]
            d = f.defs.get(t.a[0]) if t.op == "br" and t.a and isinstance(t.a[0], int) else None
            if d is not None and d.op == "icmp" and any(isinstance(a, int) and f.defs.get(a) is not None and f.defs[a].op == "load" and f.defs[a].a[0] == ("g", "R_NilValue", 0) for a in d.a):
                nil = t.s[0] if d.p == "eq" else t.s[1]
                cut |= {(x, s) for s in S[x] if s[0] == nil}
        hit = {i.bb for i in f.calls() if i.f in seen and i.f != n and covers(i.f)}
        r = loops.reach(S, entry, stop={x for x in S if x[0] in hit}, cut=cut)
        memo[n] = bool(hit) and not any(f.blocks[x[0]][-1].op == "ret" for x in r)
        return memo[n]
    disp = [n for n in cyc if any(M.basename(i.f) in ("TYPEOF", "r_typeof") for i in M.funcs[n].calls()) and not covers(n)]
    entryfn = [f for f in M.funcs.values() if f.base == NORM][0]
    if not base or not covers(entryfn.name):
        f = M.funcs[disp[0]] if disp else entryfn
        rep.violation("visits", "attributes", "%s:%s" % (f.file, f.line), "%s() can return without having looked at the attributes" % f.base)
    else:
        rep.ok("visits", sample="attributes of every object")


def from_levels_in(M, f, seen, i):
    return i.f in seen or M.basename(i.f) in ("LEVELS", "IS_UTF8", "IS_ASCII", "Rf_getCharCE")


def steps(f, p):
    """constant step of an induction variable (0: not a counter)"""
    out = None
    for x, _ in p.inn:
        d = f.defs.get(x) if isinstance(x, int) else None
        if d is not None and d.op in ("add", "sub") and d.a[0] == p.id and isinstance(d.a[1], tuple):
            out = d.a[1][1] if d.op == "add" else -d.a[1][1]
    return out


def counts(f, d, phis, body):
    """an induction variable (or what it steps to) against something the loop does not change"""
    blocks = {y[0] for y in body}

    def ind(v):
        if v in phis:
            return True
        e = f.defs.get(v) if isinstance(v, int) and v >= f.nargs else None
        return e is not None and e.op in ("add", "sub") and any(a in phis for a in e.a)

    def inv(v):
        if not isinstance(v, int) or v < f.nargs:
            return True
        e = f.defs.get(v)
        if e is None or e.bb not in blocks:
            return True
        return e.op == "load" and isinstance(e.a[0], tuple) and e.a[0][0] == "g" or e.op == "call" and e.bb in blocks and not any(isinstance(a, int) and f.defs.get(a) is not None and f.defs[a].op == "load" for a in e.a)
    return ind(d.a[0]) and inv(d.a[1]) or ind(d.a[1]) and inv(d.a[0])


def short(f, d, phis):
    """the bound is less than the number of elements"""
    v, w = (d.a if d.a[0] in phis else (d.a[1], d.a[0]))
    if v not in phis or steps(f, phis[v]) != 1:
        return False
    b = f.defs.get(w) if isinstance(w, int) and w >= f.nargs else None
    return b is not None and (b.op in ("sub", "ashr", "lshr", "sdiv", "udiv") or b.op == "add" and any(isinstance(a, tuple) and a[0] == "c" and a[1] < 0 for a in b.a))


def nothing_to_do(M, f, d, finders, seen):
    """a comparison with the result of a search, with a length or with nil"""
    for a in d.a:
        e = f.defs.get(a) if isinstance(a, int) and a >= f.nargs else None
        if e is None:
            continue
        if e.op == "load" and e.a[0] == ("g", "R_NilValue", 0):
            return True
        if e.op == "call" and M.basename(e.f) in ("Rf_xlength", "Rf_length", "r_length", "XLENGTH", "LENGTH") and any(isinstance(o, tuple) and o == ("c", 0) for o in d.a):
            return True
        if e.op == "call" and e.f in seen and M.funcs[e.f].ret in ("i64", "i32"):
            return True
    return False


PLACE = {"SET_VECTOR_ELT": 2, "SETCAR": 1, "SET_ATTRIB": 1, "r_list_poke": 2, "r_node_poke_car": 1, "r_poke_attrib": 1, "SET_STRING_ELT": 2, "Rf_setAttrib": 2}


def placed(M, f, v):
    seen, st = set(), [v]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses.get(v, ()):
            if u.op == "ret":
                return True
            if u.op in ("phi", "select"):
                st.append(u.id)
            elif u.op == "call":
                b = M.basename(u.f)
                if b in PLACE and len(u.a) > PLACE[b] and u.a[PLACE[b]] == v:
                    return True
                if b in ("Rf_protect", "R_ProtectWithIndex", "R_Reprotect") and u.id is not None:
                    st.append(u.id)
                elif u.f in M.funcs and u.id is not None and u.a and M.funcs[u.f].ret != "void":
                    # handed to a helper that puts it in place
                    g = M.funcs[u.f]
                    for k, x in enumerate(u.a):
                        if x == v and placed(M, g, k):
                            return True
    return False


def from_levels(M, f, v):
    d = f.defs.get(v)
    return d is not None and d.op == "call" and M.basename(d.f) in ("LEVELS", "IS_UTF8", "IS_ASCII")


def back(f, v):
    out, st = set(), [v]
    while st:
        v = st.pop()
        if not isinstance(v, int) or v in out:
            continue
        out.add(v)
        d = f.defs.get(v) if v >= f.nargs else None
        if d is not None and d.op in ("phi",):
            st += [x for x, _ in d.inn]
        elif d is not None and d.op in ("load", "getelementptr", "bitcast", "select"):
            st += list(d.a)
    return out


def reaches(M, a, b):
    seen, work = set(), [i.f for i in M.funcs[a].calls()]
    while work:
        n = work.pop()
        if n == b:
            return True
        if n in seen or n not in M.funcs:
            continue
        seen.add(n)
        work += [i.f for i in M.funcs[n].calls()]
    return False


def run(rep):
    rep.rule("sinks", "every place where native code tells strings apart by address is found", 15)
    rep.rule("origins", "what is told apart by address there was translated to one encoding after the last call of a class's method, on every way from the entry points", 25)
    rep.rule("shortcut", "a comparison of addresses that falls back on a comparison by content needs no translation", 1)
    rep.rule("constant", "a comparison with the missing string or a fixed string needs no translation", 0)
    rep.rule("ascii", "time zones are named in plain ASCII", 0)
    rep.rule("missing", "kernels that only ask whether a string is missing need no translation", 0)
    rep.rule("dead", "functions nothing calls", 0)
    rep.rule("translator", "the translation covers character vectors, lists and attributes, and its results are used", 5)
    rep.rule("visits", "the translation visits every element and every attribute: no way past its loops, no way out of them before the end", 2)
    rep.rule("untouched", "only strings marked ASCII or UTF-8 and the missing string are left alone", 1)
    M = common.load_module()
    P = common.load_r()
    C = Check(M, P, rep)
    C.run()
    translator(M, rep)
    rep.coverage["functions"] = len(M.funcs)
    rep.assumptions = ["R keeps one copy of each string per encoding (its string cache)", "strings in the \"bytes\" encoding are outside the property"]


if __name__ == "__main__":
    main(PROP, run)
