"""P09: an exported function that takes `...` either passes it
on (or reads it), or rejects anything found in it before doing its work, so a
misspelt argument is never silently ignored."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import main
import rast

PROP = "P09"
CHECKS = {"check_dots_empty", "check_dots_empty0", "check_dots_used", "check_dots_unnamed"}
NATIVE = {".External2", ".External"}


def head_is_dots_check(c):
    return c in CHECKS


def dots_use(P, fn, seen=None):
    """'reject' | 'use' | None: what the function does with its dots on every
    path (reject must happen unconditionally)."""
    seen = seen or set()
    if fn.name in seen:
        return "use"
    seen = seen | {fn.name}
    uses = set()
    for n in fn.body.walk():
        # a nested function with dots of its own
        if n.t == "sym" and (n.n == "..." or (n.n.startswith("..") and n.n[2:].isdigit())):
            p = n.parent
            inner = False
            for e in rast.enclosing_funs(n):
                if e is fn.node:
                    break
                if any(a == "..." for a, _ in e.f):
                    inner = True
            if inner:
                continue
            if p is not None and p.t == "call" and p.callee() in CHECKS:
                if unconditional(n, fn.node):
                    uses.add("reject")
                else:
                    uses.add("cond")
            elif p is not None and p.t == "call":
                callee = P.fun(p.callee()) if p.callee() else None
                if callee is not None and "..." in callee.formals:
                    sub = dots_use(P, callee, seen)
                    if sub in ("use", "reject"):
                        uses.add(sub)
                elif callee is not None:
                    uses.add("use")  # matched against formals: unknown names error
                else:
                    uses.add("use")
            else:
                uses.add("use")
        if n.t == "call" and n.callee() in NATIVE and n.callee() == ".External2":
            uses.add("use")
        if n.t == "call" and n.callee() in ("UseMethod", "NextMethod", "match.call", "sys.call", "list2", "nargs") and n.callee() in ("UseMethod", "NextMethod", "match.call", "sys.call"):
            uses.add("use")
        if n.t == "call" and n.callee() in ("environment", "current_env") and not n.a and False:
            uses.add("use")
    if "use" in uses:
        return "use"
    if "reject" in uses:
        return "reject"
    if "cond" in uses:
        return "cond"
    return None


def unconditional(n, top):
    """n is evaluated whenever `top` is called: not under if/for/while/switch/
    function, and not after a statement that may return early."""
    p, child = n.parent, n
    while p is not None and p is not top:
        if p.t == "fun":
            return False
        if p.t == "call":
            c = p.callee()
            if c in ("if", "switch", "for", "while", "&&", "||"):
                first = p.a[0][1]
                if child is not first:
                    return False
            if c == "{":
                for _, s in p.a:
                    if s is child:
                        break
                    for x in s.walk():
                        if x.t == "call" and x.callee() == "return":
                            return False
        child, p = p, p.parent
    return True


def run(rep):
    P = common.load_r()
    rep.rule("dots", "`...` is forwarded, read, or unconditionally rejected", 70)
    rep.rule("functions", "exported functions that take `...`", 70)
    methods = {m or "%s.%s" % (g, c): g for g, c, m in P.s3}
    generics_def = set()
    for e in sorted(P.exports):
        fn = P.fun(e)
        if fn is None or "..." not in fn.formals or e in methods:
            continue
        rep.ok("functions")
        d = dots_use(P, fn)
        if d in ("use", "reject"):
            rep.ok("dots", sample="%s: %s" % (e, d))
        elif stub(fn) or e in COERCION_HELPERS:
            rep.ok("dots")
        else:
            rep.violation("dots", e, "%s:%d" % (fn.file, fn.line), "%s() takes `...` and %s" % (e, "rejects its content only on some paths" if d == "cond" else "ignores whatever is in it"))


# Building blocks called from coercion methods: their `...` is the channel on
# which the dispatcher passes private options, and is ignored by contract.
COERCION_HELPERS = {"df_ptype2", "df_cast", "tib_ptype2", "tib_cast", "vec_default_ptype2", "vec_default_cast"}


def stub(fn):
    for n in fn.body.walk():
        if n.t == "call" and n.callee() in ("deprecate_stop", "UseMethod"):
            return True
    b = fn.body
    return b.t == "null"


if __name__ == "__main__":
    main(PROP, run)
