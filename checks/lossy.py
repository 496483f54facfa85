#!/usr/bin/env python3
"""P10: conversions fail rather than lose information, and keep missing values."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import facts
import ranges
import cside
import rops
import turns
from common import AnalysisBroken, main

PROP = "P10"

# Conversions of computed, not user-supplied, numbers; or with an out-of-range
# result that is dealt with otherwise.
NARROW_EXEMPT = {
    ("vctrs_arg", "range"): "the size of a text buffer that is grown until it fits",
    ("vctrs_arg", "exact"): "the size of a text buffer that is grown until it fits",
    ("dict_key_size", "lower"): "sizes are not negative",
    ("dict_key_size", "exact"): "half load factor, rounding is harmless",
    ("vctrs_integer64_restore", "range"): "inverse of the proxy, which holds unsigned 32 bit numbers",
    ("vctrs_integer64_restore", "exact"): "inverse of the proxy, which holds unsigned 32 bit numbers",
    ("vec_as_ssize", "lower"): "a number below the range stays negative and is rejected as such by the callers",
    ("r_double_as_ssize", "nan"): "sizes computed from sizes",
    ("r_double_as_ssize", "exact"): "sizes computed from sizes, rounding is harmless",
    ("find_offset", "exact"): "fractional positions are truncated as in base R's `[[`",
}
# Functions that give a size made from a number of the user; never negative, and no long vector.
SIZES = {"vec_as_short_length"}
# Kernels that widen: every value of the source has a counterpart.
WIDENING = {"lgl_as_integer": "logical to integer", "lgl_as_double": "logical to double", "int_as_double": "integer to double"}
# Searches over levels, not over elements: missing levels have been dropped.
LEVEL_LOOPS = {"fct_as_factor_impl": "looks for levels without counterpart, before the elements are recoded"}


class CSide:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep

    # -- numbers given as sizes
    def sizes_given(self):
        rep = self.rep
        for f in self.M.funcs.values():
            if f.base not in SIZES:
                continue
            for bi, b in enumerate(f.blocks):
                if b[-1].op != "ret":
                    continue
                for p in facts.paths(f, 0, bi):
                    r = ranges.rng(p, p.atoms(), b[-1].a[0])
                    if r.lo < 0 or r.hi > 2 ** 31 - 1:
                        rep.violation("size", f.base, "%s:%s" % (f.file, f.line), "%s() accepts a size that is negative or too large" % f.base)
                        break
                else:
                    rep.ok("size", 1, f.base + "()")

    # -- float to integer
    def conversions(self):
        M, rep = self.M, self.rep
        n = 0
        for f in M.funcs.values():
            if f.base in ("r_double_as_ssize",) and not self.called(f):
                continue
            for i in f.insts():
                if i.op not in ("fptosi", "fptoui"):
                    continue
                n += 1
                if self.roundtrip_only(f, i):
                    rep.ok("range", 1, "%s(): %s converts only to compare with the original" % (f.base, i.loc()))
                    continue
                self.conversion(f, i)
        rep.coverage["float_to_integer_conversions"] = n

    def called(self, f):
        return any(i.f == f.name for g in self.M.funcs.values() for i in g.calls())

    def roundtrip_only(self, f, i):
        us = f.uses.get(i.id, [])
        return bool(us) and all(u.op == "sitofp" and all(x.op == "fcmp" and i.a[0] in x.a for x in f.uses.get(u.id, [])) for u in us)

    def start(self, f, v):
        d = f.defs.get(v) if isinstance(v, int) else None
        seen = 0
        while d is not None and d.op in ("fadd", "fsub", "fmul", "fdiv", "freeze") and isinstance(d.a[0], int) and seen < 6:
            v = d.a[0]
            d = f.defs.get(v)
            seen += 1
        if d is not None and d.op == "call" and self.M.basename(d.f) in ("floor", "llvm.floor.f64") and isinstance(d.a[0], int):
            return self.start(f, d.a[0])
        return d.bb if d is not None else 0

    def conversion(self, f, i):
        rep = self.rep
        v = i.a[0]
        try:
            ps = facts.paths(f, self.start(f, v), i.bb)
        except facts.TooMany:
            ps = None
        key = f.base
        where = i.loc()
        bits = ranges.INTW.get(i.t, 64)
        lo, hi = (0, 2 ** bits) if i.op == "fptoui" else (-2 ** (bits - 1), 2 ** (bits - 1))
        bad = None
        for p in ps or []:
            at = p.atoms()
            r = ranges.rng(p, at, v)
            # the smallest integer stands for the missing value
            low_ok = r.lo > lo or (r.lo == lo and (r.lo_strict or i.op == "fptoui" or bits == 64)) or ranges.whole(p, at, v) and self.rt(p, at, v)
            high_ok = r.hi < hi or (r.hi == hi and r.hi_strict) or ranges.whole(p, at, v) and self.rt(p, at, v)
            if not low_ok and (f.base, "lower") not in NARROW_EXEMPT:
                bad = bad or "is below the range of the integer type"
            if not high_ok:
                bad = bad or "is above the range of the integer type"
            if r.nan and not self.rt(p, at, v) and (f.base, "nan") not in NARROW_EXEMPT:
                bad = bad or "is not a number"
        if bad and (f.base, "range") not in NARROW_EXEMPT:
            rep.violation("range", key, where, "%s() converts a number to an integer when it %s" % (f.base, bad))
        else:
            rep.ok("range", 1, "%s(): %s" % (f.base, where))
        if (f.base, "exact") in NARROW_EXEMPT or ps is None:
            return
        # every use of the converted value lies behind a test that it is exact
        for u in f.uses.get(i.id, []):
            if u.op == "sitofp" and all(x.op == "fcmp" for x in f.uses.get(u.id, [])):
                continue
            uses = [(u.bb, None)]
            if u.op == "phi":
                uses = [(pb, u.bb) for vv, pb in u.inn if vv == i.id]
            for ub, to in uses:
                ok = True
                for p in facts.paths(f, self.start(f, v), ub):
                    if i.bb not in p.blocks and ub != i.bb:
                        continue
                    fs = p
                    if to is not None:
                        t = f.blocks[ub][-1]
                        if t.op == "br" and t.a and t.s[0] != t.s[1]:
                            fs = facts.Path(f, p.blocks, p.env, p.facts + [(t.a[0], t.s[0] == to)])
                    if not ranges.whole(fs, fs.atoms(), v):
                        ok = False
                if ok:
                    rep.ok("exact", 1, "%s(): %s" % (f.base, u.loc()))
                else:
                    rep.violation("exact", key, u.loc() if u.l else where,
                                  "%s() uses a number converted to an integer without having tested that it is whole" % f.base)

    def rt(self, p, at, v):
        """the path tested that the value survives a round trip"""
        f = p.f
        for a in at:
            if a[0] == "fcmp" and a[1] == "oeq":
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    d = f.defs.get(p.res(y)) if isinstance(p.res(y), int) else None
                    if p.res(x) == p.res(v) or self.floor_of(p, v) == p.res(x):
                        if d is not None and d.op == "sitofp" and isinstance(d.a[0], int):
                            s = f.defs.get(p.res(d.a[0]))
                            if s is not None and s.op in ("fptosi",) and p.res(s.a[0]) == p.res(x):
                                return True
        return False

    def floor_of(self, p, v):
        d = p.f.defs.get(p.res(v)) if isinstance(p.res(v), int) else None
        if d is not None and d.op == "call" and self.M.basename(d.f) in ("floor", "llvm.floor.f64"):
            return p.res(d.a[0])
        return None

    # -- the flag that reports a loss
    def gives_up(self, f, i):
        """no converted vector is returned once the flag is set"""
        for bi, b in enumerate(f.blocks):
            if b[-1].op != "ret" or not b[-1].a:
                continue
            for p in facts.paths(f, i.bb, bi):
                rv = p.res(b[-1].a[0])
                d = f.defs.get(rv) if isinstance(rv, int) else None
                if d is not None and not (d.op == "load" and isinstance(d.a[0], tuple)):
                    return False
        return True

    def flags(self):
        M = self.M
        sets = {}
        ch = True
        for f in M.funcs.values():
            for i in f.insts():
                if i.op == "store" and i.a[0] == ("c", 1) and isinstance(i.a[1], int) and i.a[1] < f.nargs and f.ret == "ptr" and self.gives_up(f, i):
                    sets.setdefault((f.name, i.a[1]), []).append(i)
        direct = dict(sets)
        passes = {}
        while ch:
            ch = False
            for f in M.funcs.values():
                if f.ret != "ptr":
                    continue
                for i in f.calls():
                    g = M.funcs.get(i.f)
                    if g is None:
                        continue
                    for k, a in enumerate(i.a):
                        if isinstance(a, int) and a < f.nargs and (g.name, k) in sets and (f.name, a) not in sets:
                            sets[(f.name, a)] = []
                            ch = True
        roots = []
        flagged = set()
        for f in M.funcs.values():
            for i in f.calls():
                for k, a in enumerate(i.a):
                    if (i.f, k) in sets and isinstance(a, int) and a >= f.nargs and f.defs.get(a) is not None and f.defs[a].op == "alloca":
                        roots.append((f, i, k, a))
        work = [(i.f, k) for f, i, k, a in roots]
        while work:
            x = work.pop()
            if x in flagged:
                continue
            flagged.add(x)
            f = M.funcs[x[0]]
            for i in f.calls():
                g = M.funcs.get(i.f)
                for k, a in enumerate(i.a):
                    if g is not None and a == x[1] and g.ret == "ptr":
                        work.append((g.name, k))
        self.roots, self.flagged, self.direct = roots, flagged, direct
        return roots, flagged, direct

    def callers(self):
        rep = self.rep
        for f, i, k, a in self.roots:
            # from the call, every way to return what it gave passes a test of the flag
            loads = [u for u in f.uses.get(a, []) if u.op == "load"]
            ok = bool(loads)
            bad = None
            for p in self.retpaths(f, i):
                at = p.atoms()
                rv = p.res(f.blocks[p.blocks[-1]][-1].a[0]) if f.blocks[p.blocks[-1]][-1].a else None
                if not self.derived(f, p, rv, i):
                    continue
                tested = False
                for x in at:
                    if x[0] == "val" and x[1] in [l.id for l in loads] and x[2] is False:
                        tested = True
                    if x[0] == "icmp" and x[2] in [l.id for l in loads] and (x[1] == "eq" and facts.const_of(p, x[3]) == 0 or x[1] == "ne" and facts.const_of(p, x[3]) == 1):
                        tested = True
                if not tested:
                    bad = p
            if bad is not None or not ok:
                rep.violation("flag", f.base + ">" + self.M.basename(i.f), i.loc(),
                              "%s() can return what %s() gave without having tested that nothing was lost" % (f.base, self.M.basename(i.f)))
            else:
                rep.ok("flag", 1, "%s(): %s" % (f.base, i.loc()))

    def retpaths(self, f, i):
        res = []
        for bi, b in enumerate(f.blocks):
            if b[-1].op == "ret":
                try:
                    res += facts.paths(f, i.bb, bi)
                except facts.TooMany:
                    pass
        return res

    def derived(self, f, p, v, call, depth=0):
        v = p.res(v)
        if not isinstance(v, int) or depth > 8:
            return False
        if v == call.id:
            return True
        d = f.defs.get(v)
        if d is None:
            return False
        if d.op == "call":
            # handing the original on to the dispatching cast is not a use of the result
            return any(self.derived(f, p, a, call, depth + 1) for a in d.a if isinstance(a, int))
        return False

    # -- the kernels
    def kernels(self):
        M, rep = self.M, self.rep
        # functions the flag reaches and that do not hand it on
        leaf = set()
        for n, k in self.flagged:
            f = M.funcs[n]
            if not any((i.f, kk) in self.flagged and a == k for i in f.calls() for kk, a in enumerate(i.a)):
                leaf.add((n, k))
        for n, k in sorted(leaf):
            f = M.funcs[n]
            stores = [i for i in f.insts() if i.op == "store" and i.a[1] == k and i.a[0] == ("c", 1)]
            self.payload(f, k)
            if not stores:
                if f.base in WIDENING:
                    rep.ok("detects", 1, "%s(): %s" % (f.base, WIDENING[f.base]))
                else:
                    rep.violation("detects", f.base, "%s:%s" % (f.file, f.line), "%s() converts values without ever reporting that one has no counterpart" % f.base)
                continue
            self.tested(f, k, stores)
        turns.Check(M, rep, {n for n, k in leaf}, ("ends", "left")).run()

    def tested(self, f, k, stores):
        rep = self.rep
        lp = ranges.loops(f)
        flagblocks = {s.bb for s in stores}
        # a loop decides about elements if it can lead to the flag
        deciding = {}
        for h, body in lp.items():
            hit = False
            for s in flagblocks:
                if s in body or any(s in f.succ[b] for b in body if b != h):
                    hit = True
            if hit:
                deciding[h] = body
        tests = set(deciding)
        for b in range(len(f.blocks)):
            if any(s in flagblocks for s in f.succ[b]) and not any(b in body for body in deciding.values()):
                tests.add(b)
        # every element that is passed over was missing or found equal
        for h, body in deciding.items():
            latches = [b for b in body if h in f.succ[b]]
            bad = None
            for la in latches:
                for p in facts.paths(f, h, la):
                    if set(p.blocks) & flagblocks or not set(p.blocks) <= body:
                        continue
                    if not self.settled(f, p, la, h):
                        bad = p
            if bad is not None:
                rep.violation("elements", f.base, "%s:%s" % (f.file, f.blocks[h][-1].l or f.line),
                              "%s() can pass over an element that is neither missing nor known to have a counterpart" % f.base)
            else:
                rep.ok("elements", 1, "%s(): loop at line %s" % (f.base, f.blocks[h][-1].l))
        # a missing element is not reported as lost
        for h, body in deciding.items():
            if f.base in LEVEL_LOOPS:
                continue
            bad = None
            for s in flagblocks:
                for p in facts.paths(f, h, s):
                    if not set(p.blocks[:-1]) <= body | flagblocks:
                        continue
                    at = p.atoms()
                    if not any(ranges.missing(p, at, e) is False for e in self.elements(f, p) if not self.from_match(f, p, f.defs[e])) \
                            and not any(self.bounded(p, at, e) for e in self.elements(f, p)):
                        bad = p
            if bad is not None:
                rep.violation("kept", f.base, "%s:%s" % (f.file, f.blocks[h][-1].l or f.line), "%s() can report a missing element as having no counterpart" % f.base)
            else:
                rep.ok("kept", 1, f.base + "()")
        # nothing but the input itself is returned before the test
        bad = given = None
        for bi, b in enumerate(f.blocks):
            if b[-1].op != "ret":
                continue
            try:
                ps = facts.paths(f, 0, bi)
            except facts.TooMany:
                continue
            for p in ps:
                rv = p.res(b[-1].a[0])
                d = f.defs.get(rv) if isinstance(rv, int) else None
                if d is None or d.op == "load":      # a parameter, or NULL
                    if isinstance(rv, int) and d is None and not set(p.blocks) & tests and not self.as_given(f, p):
                        given = p
                    continue
                if not set(p.blocks) & tests:
                    bad = (p, d)
        if given is not None:
            rep.violation("detects", f.base, "%s:%s" % (f.file, f.line), "%s() can hand back a vector as it is although the target is of another type" % f.base)
        if bad:
            rep.violation("detects", f.base, "%s:%s" % (f.file, bad[1].l or f.line), "%s() can return a converted vector without having looked for values without counterpart" % f.base)
        else:
            rep.ok("detects", 1, f.base + "()")

    def settled(self, f, p, la, h):
        t = f.blocks[la][-1]
        extra = []
        if t.op == "br" and t.a and t.s[0] != t.s[1]:
            extra = [(t.a[0], t.s[0] == h)]
        p = facts.Path(f, p.blocks, p.env, p.facts + extra)
        at = p.atoms()
        for e in self.elements(f, p):
            if f.defs[e].t == "i32":
                r = ranges.rng(p, at, e)
                if r.lo >= 0 and r.hi <= 1:
                    return True
        for x in at:
            if x[0] == "class" and x[1] & ~3 == 0:
                return True
            if x[0] == "fcmp" and (x[1] == "uno" or x[1] == "oeq" and self.unrounded(p, x[2], x[3]) and self.unrounded(p, x[3], x[2])):
                return True
            if x[0] == "fcmp" and x[1] == "une" and x[2] == x[3]:
                return True
            if x[0] == "icmp" and x[1] in ("eq", "ne"):
                na = ranges.is_na(p, x[2]) or ranges.is_na(p, x[3])
                other = x[3] if ranges.is_na(p, x[2]) else x[2]
                d = f.defs.get(other) if isinstance(other, int) else None
                loaded = d is not None and d.op == "load"
                if na and loaded and x[1] == "eq" and d.t == "ptr":
                    return True                 # a missing string
                if na and loaded and x[1] == "eq" and d.t == "i32" and not self.from_match(f, p, d):
                    return True                 # a missing integer of the source
                if na and loaded and x[1] == "ne" and d.t == "i32" and self.from_match(f, p, d):
                    return True                 # a match was found
                if not na and x[1] == "eq":
                    ds = [f.defs.get(v) if isinstance(v, int) else None for v in (x[2], x[3])]
                    if any(d is not None and (d.op == "load" and d.t == "i32") for d in ds) and (facts.const_of(p, x[2]) in (0, 1) or facts.const_of(p, x[3]) in (0, 1)):
                        return True             # equal to a value the target has
                    if any(d is not None and d.op == "call" and f.mod.basename(d.f) == "strcmp" for d in ds):
                        return True
                    if any(d is not None and (d.op in ("load", "sext") and d.t in ("i8", "i32")) for d in ds) and facts.const_of(p, x[3]) == 0:
                        return True             # end of the string reached
        return False

    ROUNDING = ("floor", "round", "trunc", "ceil", "rint", "nearbyint", "fround", "fabs", "fmod", "ftrunc", "fprec")

    def unrounded(self, p, v, other):
        """an operand of an equality is the number itself, or it is compared with what it was rounded from"""
        v = p.res(v)
        d = p.f.defs.get(v) if isinstance(v, int) else None
        if d is None:
            return True
        if d.op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return False
        if d.op in ("fptrunc",):
            return False
        if d.op == "fpext":
            return self.unrounded(p, d.a[0], other)
        if d.op == "call":
            n = (self.M.basename(d.f) or "").replace("llvm.", "").split(".")[0]
            if n in self.ROUNDING:
                return n != "fabs" and isinstance(d.a[0], int) and p.res(d.a[0]) == p.res(other)
        return True

    def as_given(self, f, p):
        """what is handed back as it is has the target's attributes already, or the target is a template without any"""
        at = p.atoms()
        for x in at:
            if x[0] == "icmp" and x[1] == "eq":
                vs = [p.res(v) for v in (x[2], x[3])]
                ts = [None if not isinstance(v, int) else f.defs[v].t if v in f.defs else f.args[v]["t"] if v < f.nargs else None for v in vs]
                if ts == ["ptr", "ptr"]:
                    return True
        for v, d in f.defs.items():
            if d.op == "call" and self.M.basename(d.f) in ("vec_size", "r_length", "Rf_length", "Rf_xlength", "XLENGTH", "LENGTH", "Rf_nlevels") and d.bb in p.blocks:
                c = self.narrowed(f, p, v)
                if any(ranges.rng(p, at, w).hi <= 0 for w in c):
                    return True
        return False

    def narrowed(self, f, p, v):
        out, work = {v}, [v]
        while work:
            x = work.pop()
            for u in f.uses.get(x, []):
                if u.op in ("trunc", "sext", "zext") and u.id not in out:
                    out.add(u.id)
                    work.append(u.id)
        return out

    def equals(self, p, at, e, c):
        r = ranges.rng(p, at, e)
        return r.lo == r.hi == c and not r.nan

    def bounded(self, p, at, e):
        """an ordered comparison with a number holds for the element, so it is one"""
        r = ranges.rng(p, at, e)
        return p.f.defs[e].t == "double" and not r.nan

    def base_call(self, f, p, v, depth=0):
        """the call whose result an address points into"""
        v = p.res(v) if p is not None else v
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or depth > 12:
            return None
        if d.op == "getelementptr":
            return self.base_call(f, p, d.a[0], depth + 1)
        if d.op == "phi":
            r = None
            for x, _ in d.inn:
                if isinstance(x, int) and x != v:
                    dd = f.defs.get(x)
                    if dd is not None and dd.op == "getelementptr" and dd.a[0] == v:
                        continue
                    r = r or self.base_call(f, None, x, depth + 1)
            return r
        if d.op == "call":
            return d
        return None

    def origin(self, f, v, depth=0):
        """base name of the call that produced an object"""
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or depth > 6:
            return None
        if d.op == "call":
            n = self.M.basename(d.f)
            if n in ("Rf_protect",) and d.a:
                return self.origin(f, d.a[0], depth + 1)
            if n and ("begin" in n or n in ("INTEGER", "INTEGER_RO", "REAL", "REAL_RO", "LOGICAL", "LOGICAL_RO", "STRING_PTR_RO", "STRING_PTR")):
                return self.origin(f, d.a[0], depth + 1)
            if n == "Rf_allocVector":
                return {10: "r_alloc_logical", 13: "r_alloc_integer", 14: "r_alloc_double", 16: "r_alloc_character"}.get(d.a[0][1] if isinstance(d.a[0], tuple) else None, n)
            return n
        return None

    def from_match(self, f, p, load):
        b = self.base_call(f, p, load.a[0])
        return b is not None and (self.origin(f, b.id) or "").startswith("vec_match")

    def payload(self, f, k):
        """values written into the converted vector"""
        rep = self.rep
        lp = ranges.loops(f)
        for i in f.insts():
            if i.op != "store" or i.a[1] == k or not isinstance(i.a[1], int):
                continue
            b = self.base_call(f, None, i.a[1])
            if b is None:
                continue
            kind = self.origin(f, b.id)
            h = ranges.innermost(f, i.bb, lp)
            if h is None:
                continue
            try:
                ps = facts.paths(f, h, i.bb)
            except facts.TooMany:
                continue
            for p in ps:
                at = p.atoms()
                v = p.res(i.a[0])
                self.stored(f, i, p, at, v, kind)

    def stored(self, f, i, p, at, v, kind):
        rep = self.rep
        # the element of the source this iteration is about
        if ranges.is_na(p, v):
            if any(ranges.missing(p, at, x) is True for x in self.elements(f, p)):
                rep.ok("missing", 1, "%s(): %s" % (f.base, i.loc()))
            else:
                rep.violation("missing", f.base, i.loc(), "%s() makes a value missing that is not known to be missing in the source" % f.base)
            return
        d = f.defs.get(v) if isinstance(v, int) else None
        c = facts.const_of(p, v)
        if c is not None:
            # a constant stands for a text: it must have been compared to its end
            if self.compared(f, p, at) or any(self.equals(p, at, e, c) for e in self.elements(f, p)):
                rep.ok("missing", 1, "%s(): %s" % (f.base, i.loc()))
            else:
                rep.violation("exact", f.base, i.loc(), "%s() turns a value into a constant without having compared all of it" % f.base)
            return
        src = d
        while src is not None and src.op in ("sitofp", "fptosi", "sext", "zext", "trunc") and isinstance(src.a[0], int):
            src = f.defs.get(p.res(src.a[0]))
        if src is None or src.op != "load":
            return
        sb = self.base_call(f, p, src.a[0])
        if sb is not None and (self.origin(f, sb.id) or "").startswith("vec_match"):
            # recoding through a table of matches, tested as a whole elsewhere
            if any(ranges.missing(p, at, x) is False for x in self.elements(f, p) if x != src.id):
                rep.ok("missing", 1, "%s(): %s" % (f.base, i.loc()))
            else:
                rep.violation("missing", f.base, i.loc(), "%s() looks up a value that may be missing" % f.base)
            return
        m = ranges.missing(p, at, src.id)
        if m is not False:
            rep.violation("missing", f.base, i.loc(), "%s() converts a value that may be missing as if it were an ordinary one" % f.base)
        else:
            rep.ok("missing", 1, "%s(): %s" % (f.base, i.loc()))
        if kind == "r_alloc_logical":
            r = ranges.rng(p, at, src.id)
            if r.lo >= 0 and r.hi <= 1 and (src.t != "double" or ranges.whole(p, at, src.id)):
                rep.ok("exact", 1, "%s(): %s" % (f.base, i.loc()))
            else:
                rep.violation("exact", f.base, i.loc(), "%s() turns a number other than 0 and 1 into a logical" % f.base)

    def elements(self, f, p):
        """values loaded from the source on the path"""
        for b in p.blocks:
            for x in f.blocks[b]:
                if x.op == "load" and isinstance(x.a[0], int):
                    yield x.id
                if x.op == "call" and self.M.basename(x.f) in ("STRING_ELT", "r_chr_get", "INTEGER_ELT", "REAL_ELT", "LOGICAL_ELT"):
                    yield x.id

    def compared(self, f, p, at):
        for x in at:
            if x[0] == "icmp" and x[1] == "eq":
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    d = f.defs.get(a) if isinstance(a, int) else None
                    while d is not None and d.op in ("sext", "zext"):
                        d = f.defs.get(d.a[0])
                    if d is None or facts.const_of(p, b) != 0:
                        continue
                    if d.op == "call" and self.M.basename(d.f) in ("strcmp", "bcmp", "memcmp"):
                        return True
                    if d.op == "load" and d.t == "i8":
                        return True
        return False

    # -- columns that are dropped
    def columns(self, cg):
        M, rep = self.M, self.rep
        for f in M.funcs.values():
            for i in f.calls():
                names = [cside.symname(M, f, a, cg) for a in i.a]
                if "df_lossy_cast" not in names:
                    continue
                d = f.idom
                # branches around the report
                ok, why = True, None
                n = 0
                b = i.bb
                while b is not None:
                    up = d[b]
                    if up is None:
                        break
                    t = f.blocks[up][-1]
                    if t.op == "br" and t.a and t.s[0] != t.s[1]:
                        for k in (0, 1):
                            if f.dominates(t.s[k], i.bb) and len(f.pred[t.s[k]]) == 1 and not self.loopexit(f, up):
                                other = t.s[1 - k]
                                if self.returns(f, other):
                                    n += 1
                                    p = facts.Path(f, [up], {}, [(t.a[0], k == 1)])
                                    if not self.none_left(f, p):
                                        ok = False
                    b = up
                if ok and n <= 1:
                    rep.ok("columns", 1, "%s(): %s" % (f.base, i.loc()))
                else:
                    rep.violation("columns", f.base, i.loc(), "%s() can drop columns without reporting it" % f.base)

    def loopexit(self, f, b):
        return b in ranges.loops(f)

    def returns(self, f, b):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if f.blocks[x][-1].op == "ret":
                return True
            work.extend(f.succ[x])
        return False

    def none_left(self, f, p):
        """the number of columns equals the number of columns found in the target"""
        for a in p.atoms():
            if a[0] != "icmp":
                continue
            x, y = a[2], a[3]
            dx = f.defs.get(x) if isinstance(x, int) else None
            if facts.const_of(p, y) == 0 and dx is not None and dx.op == "sub" and a[1] in ("eq", "sle", "ule"):
                return self.count(f, dx.a[0]) and self.counter(f, dx.a[1])
            if a[1] in ("eq", "sle", "ule") and self.count(f, x) and self.counter(f, y):
                return True
            if a[1] in ("eq", "sge", "uge") and self.count(f, y) and self.counter(f, x):
                return True
        return False

    def count(self, f, v):
        d = f.defs.get(v) if isinstance(v, int) else None
        return d is not None and d.op == "call" and "length" in (self.M.basename(d.f) or "").lower()

    def counter(self, f, v):
        """counts the iterations that found a match"""
        seen = set()
        work = [v]
        adds = []
        while work:
            x = work.pop()
            if x in seen or not isinstance(x, int):
                continue
            seen.add(x)
            d = f.defs.get(x)
            if d is None:
                continue
            if d.op == "phi":
                work += [y for y, _ in d.inn]
            elif d.op == "add":
                if d.a[1] != ("c", 1):
                    return False
                adds.append(d)
                work.append(d.a[0])
        if not adds:
            return False
        for d in adds:
            h = ranges.innermost(f, d.bb)
            if h is None:
                return False
            for p in facts.paths(f, h, d.bb):
                if not any(a[0] == "icmp" and a[1] == "ne" and (ranges.is_na(p, a[2]) or ranges.is_na(p, a[3]) or self.na64(p, a[2]) or self.na64(p, a[3])) for a in p.atoms()):
                    return False
        return True

    def na64(self, p, v):
        d = p.f.defs.get(v) if isinstance(v, int) else None
        return d is not None and d.op in ("sext", "zext") and ranges.is_na(p, d.a[0])


# -- conversions written in R

# A pair (to, from) the target of which can hold every value of the source.
WIDER = {("integer", "logical"), ("double", "logical"), ("double", "integer"), ("complex", "logical"), ("complex", "integer"), ("complex", "double"),
         ("character", "factor"), ("character", "ordered"), ("integer64", "integer"), ("integer64", "logical"), ("list", "vctrs_list_of"),
         ("data.table", "data.frame"), ("data.frame", "data.table"), ("POSIXct", "Date"), ("POSIXlt", "Date"), ("POSIXct", "POSIXlt"), ("POSIXlt", "POSIXct")}
CASTS_EXEMPT = {
    ("logical", "integer64"): "tests for being non-zero, as the tests of the package require",
    ("vctrs_list_of", "list"): "the elements are cast one by one",
}
STOPS = {"stop", "abort", "stop_native_implementation", "cnd_signal"}
RECAST = {"vec_cast", "vec_cast_common", "vec_default_cast"}
ARITH = {"-", "+", "*", "/", "^", "abs", "floor", "round", "ceiling", "sqrt", "vec_data", "unclass", "unstructure", "(",
         # conversions that make no value missing
         "as.double", "as.numeric", "as.POSIXct", "as.POSIXlt", "suppressWarnings"}
COMPARE = {"==", "!=", "<", ">", "<=", ">="}


class RSide:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep

    def methods(self):
        P, rep = self.P, self.rep
        for g, c, m in P.s3:
            if not g.startswith("vec_cast."):
                continue
            to = g[len("vec_cast."):]
            if to == c or (to, c) in WIDER or (to, c) in CASTS_EXEMPT:
                continue
            fn = P.fun(m or "%s.%s" % (g, c))
            if fn is None:
                continue
            bad = self.guarded(fn, set())
            if bad is not None:
                rep.violation("methods", fn.name, "%s:%s" % (fn.file, bad.l), "%s() returns a converted vector without having looked for values that the target cannot hold" % fn.name)
            else:
                rep.ok("methods", 1, fn.name + "()")

    def results(self, n):
        """expressions a body can evaluate to"""
        if n.t == "call":
            c = n.callee()
            if c in ("{", "(") and n.a:
                for x in list(n.a[:-1]):
                    yield from self.early(x[1])
                yield from self.results(n.a[-1][1])
                return
            if c == "if":
                yield from self.results(n.a[1][1])
                if len(n.a) > 2:
                    yield from self.results(n.a[2][1])
                return
            if c == "switch":
                for _, x in n.a[1:]:
                    yield from self.results(x)
                return
            if c in ("return", "invisible") and n.a:
                yield from self.results(n.a[0][1])
                return
            if c in ("<-", "=") and n.a:
                yield from self.results(n.a[1][1])
                return
        yield n

    def early(self, n):
        if n.t == "fun":
            return
        if n.t == "call" and n.callee() == "return" and n.a:
            yield from self.results(n.a[0][1])
            return
        for x in n.children():
            yield from self.early(x)

    def guarded(self, fn, seen):
        """None if every result went through the test for losses, else a result that did not"""
        if fn.name in seen:
            return None
        seen = seen | {fn.name}
        for e in self.results(fn.body):
            b = self.guard(fn, e, seen, 0)
            if b is not None:
                return b
        return None

    def guard(self, fn, e, seen, depth):
        P = self.P
        if depth > 8:
            return e
        if e.t == "sym":
            for v in rops.last_assignment(fn, e, e.n):
                if v is None:
                    return e
                for r in self.results(v):
                    b = self.guard(fn, r, seen, depth + 1)
                    if b is not None:
                        return b
            return None
        if e.t != "call":
            return e
        c = e.callee()
        if c is None:
            return e
        if c == "maybe_lossy_cast" or c in STOPS or c in RECAST or c.startswith("stop_") or c in (".Call", ".External2", "UseMethod"):
            return None
        if c in ("vec_restore", "new_rcrd", "new_table", "shape_broadcast", "set_names", "vec_set_names", "structure") and e.a:
            for r in self.results(e.a[0][1]):
                b = self.guard(fn, r, seen, depth + 1)
                if b is not None:
                    return b
            return None
        if c == "factor" and self.own_levels(fn, e):
            return None
        g = P.fun(c)
        if g is not None:
            return self.guarded(g, seen)
        return e

    def own_levels(self, fn, e):
        """the levels come from the vector itself, so none is lost"""
        lv = e.arg("levels")
        if lv is None:
            return False
        return not self.roots(fn, lv, 0) - {"x", "unique", "levels", "is.null"} and "x" in self.roots(fn, lv, 0)

    def roots(self, fn, node, depth):
        out = set()
        if depth > 6:
            return out
        for x in node.walk():
            if x.t != "sym":
                continue
            if x.parent is not None and x.parent.t == "call" and x.parent.h is x:
                continue
            vs = rops.last_assignment(fn, x, x.n)
            for v in vs:
                if v is None:
                    out.add(x.n) if x.n in fn.formals or len(vs) == 1 else None
                elif v is not node:
                    out |= self.roots(fn, v, depth + 1)
        return out

    # -- the formula that says where something is lost
    def formulas(self):
        P, rep = self.P, self.rep
        for fn in P.funs.values():
            if fn.name == "maybe_lossy_cast":
                continue
            for x in fn.body.calls():
                if x.callee() != "maybe_lossy_cast":
                    continue
                un = [a for n, a in x.a if n == ""]
                lossy = x.arg("lossy") or (un[3 - sum(1 for k in ("result", "x", "to") if x.arg(k) is not None)] if len(un) > 3 - sum(1 for k in ("result", "x", "to") if x.arg(k) is not None) else None)
                src = x.arg("x") or (un[1] if len(un) > 1 else None)
                where = "%s:%s" % (fn.file, x.l)
                if lossy is None:
                    rep.violation("formula", fn.name, where, "%s() never says which values are lost" % fn.name)
                    continue
                self.formula(fn, x, lossy, src, where)

    def formula(self, fn, call, lossy, src, where):
        rep = self.rep
        vars_ = []
        self.collect(fn, lossy, vars_, 0)
        if src is not None and src.t == "sym" and src.n not in vars_:
            vars_.append(src.n)
        s = src.n if src is not None and src.t == "sym" else None
        seen_true = False
        bad = None
        for bits in itertools.product((False, True), repeat=len(vars_)):
            env = dict(zip(vars_, bits))
            # what is computed from a missing value is missing
            if s is not None and env.get(s) and any(not env[v] for v in vars_ if v != s and self.depends(fn, v, s)):
                continue
            r = self.ev(fn, lossy, env, 0)
            if "NA" in r:
                bad = "can be neither true nor false" + (" for a missing value" if s and env.get(s) else "")
                break
            if s is not None and env.get(s) and "T" in r and s in vars_ and self.uses(fn, lossy, s):
                bad = "is true for a missing value"
                break
            if s is not None and not env.get(s) and any(env[v] for v in vars_ if v != s) and "F" in r:
                bad = "can be false where a value became missing"
                break
            if "T" in r and not (s and env.get(s)):
                seen_true = True
        if bad is None and not seen_true:
            bad = "is never true"
        if bad is None and vars_:
            env = {v: False for v in vars_}
            bad = self.blunt(fn, lossy, s, call)
            if bad is None and any(x.t == "call" and (x.callee() in COMPARE or x.callee() == "%in%") for x in self.expand(fn, lossy, 0)):
                self.mode = "same"
                if self.ev(fn, lossy, env, 0) != {"F"}:
                    bad = "is true where nothing changed"
                self.mode = "other"
                if self.ev(fn, lossy, env, 0) != {"T"}:
                    bad = "is false where a value changed"
                self.mode = None
        if bad:
            rep.violation("formula", fn.name, where, "%s() reports losses by a test that %s" % (fn.name, bad))
        else:
            rep.ok("formula", 1, "%s()" % fn.name)

    ROUNDING = {"round", "trunc", "floor", "ceiling", "signif", "zapsmall", "as.integer", "as.Date", "abs", "%/%", "%%", "tolower", "toupper", "trimws", "substr"}

    def blunt(self, fn, lossy, s, call):
        """the test cannot tell some values from those that have a counterpart"""
        if s is None:
            return None
        res = call.arg("result")
        if res is None:
            res = next((a for n, a in call.a if n == ""), None)
        skip = {res.n} if res is not None and res.t == "sym" else set()

        def walk(e, depth=0):
            yield e
            if e.t == "sym" and depth < 5 and e.n not in skip:
                d = self.defn(fn, e)
                if d is not None:
                    yield from walk(d, depth + 1)
            for x in e.children():
                yield from walk(x, depth)

        def plain(e, depth=0):
            """mentions the source itself, not only something rounded"""
            if e.t == "sym":
                if e.n == s:
                    return True
                d = self.defn(fn, e) if e.n not in skip and depth < 5 else None
                return d is not None and plain(d, depth + 1)
            if e.t == "call":
                if e.callee() in self.ROUNDING - {"abs"}:
                    return False
                return any(plain(a, depth) for _, a in e.a)
            return False

        def mentions(e):
            return any(x.t == "sym" and x.n == s for x in walk(e))
        for x in walk(lossy):
            if x.t != "call":
                continue
            c = x.callee()
            a = [y for _, y in x.a]
            if (c in COMPARE or c in ("%in%", "match", "vec_in")) and len(a) >= 2:
                if any(mentions(y) for y in a) and not any(plain(y) for y in a) and any(y.t == "call" and y.callee() in self.ROUNDING for z in a for y in walk(z)):
                    return "compares rounded values"
                if c in COMPARE and any(y.t == "call" and y.callee() == "abs" for z in a for y in walk(z)):
                    for y in a:
                        if y.t == "num" and self.number(y) is not None and abs(self.number(y)) > 1e-6:
                            return "leaves room for a difference"
                sized = [k for k, y in enumerate(a) if any(z.t == "call" and z.callee() == "setdiff" for z in walk(y)) and any(z.t == "call" and z.callee() in ("length", "vec_size") for z in walk(y))]
                if c in COMPARE and len(sized) == 1:
                    k = sized[0]
                    op = c if k == 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c, c)
                    y = a[1 - k]
                    if not (y.t == "num" and (op in (">", "!=", "==", "<=") and self.number(y) == 0 or op in (">=", "<") and self.number(y) == 1)):
                        return "lets some be dropped"
            if c in ("%in%", "vec_in") and len(a) == 2 and mentions(a[0]):
                r = self.defn(fn, a[1]) or a[1] if a[1].t == "sym" else a[1]
                els = [y for _, y in r.a] if r.t == "call" and r.callee() == "c" else [r]
                lits = [y for y in els if y.t in ("num", "str")]
                if any(y.t == "str" or self.number(y) not in (0, 1, None) for y in lits):
                    return "lists values that have no counterpart"
                if any(y.t == "call" and y.callee() == "-" for y in els):
                    return "lists values that have no counterpart"
        return None

    def number(self, e):
        try:
            return float(e.v)
        except (TypeError, ValueError):
            return None

    mode = None

    def expand(self, fn, e, depth):
        for x in e.walk():
            yield x
            if x.t == "sym" and depth < 5:
                d = self.defn(fn, x)
                if d is not None:
                    yield from self.expand(fn, d, depth + 1)

    def uses(self, fn, e, s):
        v = []
        self.collect(fn, e, v, 0)
        return s in v

    def defn(self, fn, e):
        vs = rops.last_assignment(fn, e, e.n)
        return vs[0] if len(vs) == 1 else None

    def boolean(self, e):
        return e.t == "call" and e.callee() in COMPARE | {"!", "&", "|", "&&", "||", "xor", "is.na", "%in%"}

    def collect(self, fn, e, out, depth):
        """the variables whose being missing matters"""
        if depth > 8:
            return
        if e.t == "sym":
            d = self.defn(fn, e)
            if d is not None and (self.boolean(d) or d.t == "call" and self.pure(d) or d.t == "sym"):
                self.collect(fn, d, out, depth + 1)
            elif e.n not in out:
                out.append(e.n)
            return
        if e.t == "call":
            if e.callee() in ("c", "length", "levels", "vec_size", "nrow", "names"):
                return
            for n, a in e.a[:1] if e.callee() in ("%in%", "vec_in") else e.a:
                self.collect(fn, a, out, depth)

    def pure(self, d):
        return all(x.callee() in ARITH for x in d.calls())

    def depends(self, fn, v, s):
        for x in fn.body.walk():
            if x.t == "call" and x.callee() in ("<-", "=") and x.a[0][1].text() == v:
                if any(y.t == "sym" and (y.n == s or y.n != v and self.depends(fn, y.n, s)) for y in x.a[1][1].walk()):
                    return True
        return False

    def miss(self, fn, e, env, depth):
        """whether a value is missing"""
        if depth > 10:
            return False
        if e.t == "sym":
            if e.n in env:
                return env[e.n]
            d = self.defn(fn, e)
            return self.miss(fn, d, env, depth + 1) if d is not None else False
        if e.t == "call":
            if e.callee() in ("length", "levels", "vec_size", "nrow", "names", "c"):
                return False
            return any(self.miss(fn, a, env, depth + 1) for _, a in e.a)
        return e.t == "lgl" and e.v is None

    def ev(self, fn, e, env, depth):
        if depth > 12:
            return {"T", "F"}
        if e.t == "lgl":
            return {{True: "T", False: "F", None: "NA"}[e.v]}
        if e.t == "sym":
            d = self.defn(fn, e)
            return self.ev(fn, d, env, depth + 1) if d is not None else {"T", "F", "NA"} if env.get(e.n) else {"T", "F"}
        if e.t != "call":
            return {"T", "F"}
        c = e.callee()
        a = [x for _, x in e.a]
        if c == "(":
            return self.ev(fn, a[0], env, depth + 1)
        if c == "!":
            return {{"T": "F", "F": "T", "NA": "NA"}[v] for v in self.ev(fn, a[0], env, depth + 1)}
        if c in ("&", "&&", "|", "||", "xor"):
            out = set()
            for l in self.ev(fn, a[0], env, depth + 1):
                for r in self.ev(fn, a[1], env, depth + 1):
                    if c == "xor":
                        out.add("NA" if "NA" in (l, r) else "T" if l != r else "F")
                    elif c[0] == "&":
                        out.add("F" if "F" in (l, r) else "NA" if "NA" in (l, r) else "T")
                    else:
                        out.add("T" if "T" in (l, r) else "NA" if "NA" in (l, r) else "F")
            return out
        if c in ("is.na", "is_na", "vec_detect_missing", "is.nan"):
            return {"T"} if self.miss(fn, a[0], env, depth + 1) else {"F"}
        if c in COMPARE:
            if self.mode is not None and not any(self.miss(fn, x, env, depth + 1) for x in a):
                # equal or within tolerance, or not
                return {"T"} if (c in ("==", "<", "<=")) == (self.mode == "same") else {"F"}
            return {"NA"} if any(self.miss(fn, x, env, depth + 1) for x in a) else {"T", "F"}
        if c in ("%in%", "vec_in"):
            if not self.miss(fn, a[0], env, depth + 1):
                return {"T", "F"} if self.mode is None else {"T"} if self.mode == "same" else {"F"}
            if a[1].t == "sym" and self.defn(fn, a[1]) is not None:
                a[1] = self.defn(fn, a[1])
            if a[1].t == "call" and a[1].callee() == "c":
                return {"T"} if any(x.t == "lgl" and x.v is None or x.t in ("sym", "other", "num") and x.text().startswith("NA") for _, x in a[1].a) else {"F"}
            return {"F"}
        if c in ("any", "all", "isTRUE", "identical", "is.null", "is_null"):
            return {"T", "F"}
        return {"T", "F", "NA"} if any(self.miss(fn, x, env, depth + 1) for x in a) else {"T", "F"}

    def signals(self):
        """where something is lost the result is handed out only on request"""
        fn = self.P.fun("maybe_lossy_cast")
        if fn is None:
            raise AnalysisBroken("no maybe_lossy_cast()")
        lossy = fn.formals[3]
        for e in self.results(fn.body):
            if e.t == "sym" and e.n in fn.formals:
                conds = []
                n, p = e, e.parent
                while p is not None and p is not fn.node:
                    if p.t == "call" and p.callee() == "if" and n is not p.a[0][1]:
                        conds.append(p.a[0][1])
                    n, p = p, p.parent
                if any(not self.sided(fn, c, lossy, e) for c in conds):
                    self.rep.ok("signals", 1, "maybe_lossy_cast()")
                    continue
                self.rep.violation("signals", "maybe_lossy_cast", "%s:%s" % (fn.file, e.l), "maybe_lossy_cast() hands out the result although something was lost")
            elif e.t == "call" and (e.callee() or "").startswith("stop_") or e.t == "call" and e.callee() == "withRestarts":
                if e.callee() == "withRestarts" and not any((x.callee() or "").startswith("stop_") for x in e.calls()):
                    self.rep.violation("signals", "maybe_lossy_cast", "%s:%s" % (fn.file, e.l), "maybe_lossy_cast() no longer fails")
                else:
                    self.rep.ok("signals", 1, "maybe_lossy_cast()")
            else:
                self.rep.violation("signals", "maybe_lossy_cast", "%s:%s" % (fn.file, e.l), "maybe_lossy_cast() hands out something without failing")

    def sided(self, fn, c, lossy, e):
        """whether the branch with the result can be taken when something was lost and the loss was not asked for"""
        p = c.parent
        then = any(x is e for x in p.a[1][1].walk())
        return (True if then else False) in self.truth(fn, c, lossy, 0)

    def truth(self, fn, c, lossy, depth):
        """values a condition can have when some value was lost"""
        both = {True, False}
        if depth > 8:
            return both
        if c.t == "lgl":
            return {c.v} if c.v is not None else both
        if c.t == "sym":
            if c.n == ".deprecation":
                return {False}
            d = self.defn(fn, c)
            return self.truth(fn, d, lossy, depth + 1) if d is not None else both
        if c.t != "call":
            return both
        k = c.callee()
        a = [x for _, x in c.a]
        if k in ("(", "isTRUE", "is_true", "suppressWarnings") and a:
            return self.truth(fn, a[0], lossy, depth + 1)
        if k in ("!", "isFALSE", "is_false") and a:
            return {not v for v in self.truth(fn, a[0], lossy, depth + 1)}
        if k in ("&&", "&", "||", "|"):
            l, r = (self.truth(fn, x, lossy, depth + 1) for x in a)
            return {(x and y) if k[0] == "&" else (x or y) for x in l for y in r}
        if k == "any" and a and self.is_lossy(fn, a[0], lossy):
            return {True}
        if k == "all" and a and a[0].t == "call" and a[0].callee() == "!" and self.is_lossy(fn, a[0].a[0][1], lossy):
            return {False}
        if k == "none" and a and self.is_lossy(fn, a[0], lossy):
            return {False}
        if k in COMPARE and len(a) == 2:
            for x, y, op in ((a[0], a[1], k), (a[1], a[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(k, k))):
                if self.counted(fn, x, lossy) and y.t == "num":
                    n = self.number(y)
                    if op in ("==", "<=") and n == 0 or op == "<" and n == 1:
                        return {False}
                    if op in ("!=", ">") and n == 0 or op == ">=" and n == 1:
                        return {True}
        if self.counted(fn, c, lossy):
            return {True}
        return both

    def is_lossy(self, fn, e, lossy):
        while e.t == "call" and e.callee() in ("(", "as.logical") and e.a:
            e = e.a[0][1]
        if e.t == "sym" and e.n != lossy:
            d = self.defn(fn, e)
            return d is not None and self.is_lossy(fn, d, lossy)
        return e.t == "sym"

    def counted(self, fn, e, lossy):
        """a number that is positive exactly if something was lost"""
        if e.t == "sym":
            d = self.defn(fn, e)
            return d is not None and self.counted(fn, d, lossy)
        if e.t != "call" or not e.a:
            return False
        if e.callee() == "sum":
            return self.is_lossy(fn, e.a[0][1], lossy)
        if e.callee() in ("length", "vec_size"):
            w = e.a[0][1]
            if w.t == "sym":
                w = self.defn(fn, w) or w
            return w.t == "call" and w.callee() == "which" and self.is_lossy(fn, w.a[0][1], lossy)
        return False


def run(rep):
    rep.rule("range", "a floating-point number is converted to an integer only where it is a number within range", 6)
    rep.rule("exact", "what has been converted is used only behind a test that nothing was lost", 4)
    rep.rule("flag", "who asks for a conversion looks at whether it was lossy before using the result", 2)
    rep.rule("detects", "every narrowing conversion looks for values without counterpart", 5)
    rep.rule("elements", "an element passed over by the search is missing or has a counterpart", 3)
    rep.rule("kept", "a missing element is never reported as having no counterpart", 3)
    rep.rule("missing", "missing values, and only those, become missing values", 6)
    rep.rule("columns", "columns the target does not have are reported as lost", 1)
    rep.rule("methods", "casts to a type that cannot hold every value look for the values that do not fit", 6)
    rep.rule("formula", "the test for losses is never undecided, spares missing values and sees values that became missing", 6)
    rep.rule("signals", "when something is lost the result is handed out only on request", 2)
    rep.rule("ends", "the search goes from the first element (or level) to the last", 3)
    rep.rule("left", "a converted vector is not handed out half-way", 0)
    rep.rule("size", "a number accepted as a size is not negative and not too large", 1)
    M = common.load_module(leaf=True)
    C = CSide(M, rep)
    C.conversions()
    C.sizes_given()
    C.flags()
    C.callers()
    C.kernels()
    C.columns(cside.const_globals(M))
    R = RSide(common.load_r(), rep)
    R.methods()
    R.formulas()
    R.signals()
    rep.coverage["functions"] = len(M.funcs)


if __name__ == "__main__":
    main(PROP, run)
