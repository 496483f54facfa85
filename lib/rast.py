"""Parse trees of the package's R code, read from rdump.R."""
import json
from collections import defaultdict


class Node:
    __slots__ = ("t", "l", "h", "a", "n", "v", "f", "b", "int", "parent", "fun")

    def __init__(self, d, parent=None, line=0):
        self.t = d["t"]
        self.l = d.get("l") or line
        self.parent = parent
        self.h = self.a = self.n = self.v = self.f = self.b = self.int = None
        if self.t == "call":
            self.h = Node(d["h"], self, self.l)
            self.a = [(n, Node(x, self, self.l)) for n, x in d["a"]]
        elif self.t == "sym":
            self.n = d["n"]
        elif self.t == "fun":
            self.f = [(n, None if x is None else Node(x, self, self.l)) for n, x in d["f"]]
            self.b = Node(d["b"], self, self.l)
        elif self.t in ("str", "lgl", "num", "other"):
            self.v = d["v"]
            self.int = d.get("int")

    def callee(self):
        """Unqualified callee name, or None if the head is not a plain name."""
        if self.t != "call":
            return None
        if self.h.t == "sym":
            return self.h.n
        if self.h.t == "call" and self.h.callee() in ("::", ":::"):
            return self.h.a[1][1].text()
        if self.h.t == "str":
            return self.h.v
        return None

    def callee_pkg(self):
        if self.t == "call" and self.h.t == "call" and self.h.callee() in ("::", ":::"):
            return self.h.a[0][1].text()
        return None

    def text(self):
        if self.t == "sym":
            return self.n
        if self.t == "str":
            return self.v
        return deparse(self)

    def children(self):
        if self.t == "call":
            yield self.h
            for _, x in self.a:
                yield x
        elif self.t == "fun":
            for _, x in self.f:
                if x is not None:
                    yield x
            yield self.b

    def walk(self):
        st = [self]
        while st:
            x = st.pop()
            yield x
            st.extend(reversed(list(x.children())))

    def calls(self):
        for x in self.walk():
            if x.t == "call":
                yield x

    def arg(self, name, pos=None):
        """Argument by exact name, else by position among the unnamed."""
        for n, x in self.a:
            if n == name:
                return x
        if pos is not None:
            un = [x for n, x in self.a if n == ""]
            if pos < len(un):
                return un[pos]
        return None


def deparse(n):
    if n is None:
        return ""
    if n.t == "sym":
        return n.n
    if n.t == "str":
        return json.dumps(n.v)
    if n.t == "lgl":
        return {None: "NA", True: "TRUE", False: "FALSE"}[n.v]
    if n.t == "num":
        return n.v + ("L" if n.int else "")
    if n.t == "null":
        return "NULL"
    if n.t == "missing":
        return ""
    if n.t == "other":
        return n.v
    if n.t == "fun":
        return "function(%s) %s" % (", ".join(a if d is None else "%s = %s" % (a, deparse(d)) for a, d in n.f), deparse(n.b))
    c = n.callee()
    if n.h.t == "sym":
        if c == "(" and len(n.a) == 1:
            return "(%s)" % deparse(n.a[0][1])
        if c == "{":
            return "{ %s }" % "; ".join(deparse(x) for _, x in n.a)
        if c in ("::", ":::", "$", "@") and len(n.a) == 2:
            return "%s%s%s" % (deparse(n.a[0][1]), c, deparse(n.a[1][1]))
        if len(n.a) == 2 and not (c[0].isalpha() or c[0] in "._"):
            if c == "[" or c == "[[":
                return "%s%s%s%s" % (deparse(n.a[0][1]), c, deparse(n.a[1][1]), "]" * len(c))
            return "%s %s %s" % (deparse(n.a[0][1]), c, deparse(n.a[1][1]))
        if len(n.a) == 1 and c in ("-", "!", "+", "~"):
            return c + deparse(n.a[0][1])
    return "%s(%s)" % (deparse(n.h), ", ".join((a + " = " if a else "") + deparse(x) for a, x in n.a))


class RFun:
    def __init__(self, name, file, node):
        self.name = name
        self.file = file
        self.node = node
        self.line = node.l
        self.formals = [n for n, _ in node.f]
        self.defaults = dict(node.f)
        self.body = node.b

    def __repr__(self):
        return "<RFun %s>" % self.name


class Package:
    def __init__(self, repo, text):
        self.repo = repo
        self.top = []          # (file, line, node)
        self.funs = {}
        self.vars = {}
        self.alias = {}
        self.exports = set()
        self.s3 = []           # (generic, class, method or None)
        self.ns = []
        self.base = {}         # pkg -> {name: formals or None}
        self.rd = []
        self.rdargs = {}
        self.rdbad = []
        for line in text.splitlines():
            d = json.loads(line)
            k = d["kind"]
            if k == "expr":
                self.top.append((d["file"], d["l"], Node(d["e"])))
            elif k == "ns":
                self.ns.append(Node(d["e"]))
            elif k == "rd":
                self.rd.append((d["file"], Node(d["e"])))
            elif k == "rdbad":
                self.rdbad.append(d["file"])
            elif k == "rdargs":
                self.rdargs[d["file"]] = d["a"]
            elif k == "base":
                self.base.setdefault(d["pkg"], {})[d["n"]] = (d["fun"], d["f"] if d["known"] else None)
        for file, l, n in self.top:
            self._define(file, n)
        for n in self.ns:
            c = n.callee()
            if c == "export":
                for _, x in n.a:
                    self.exports.add(x.text())
            elif c == "S3method":
                xs = [x.text() for _, x in n.a]
                self.s3.append((xs[0], xs[1], xs[2] if len(xs) > 2 else None))

    def _define(self, file, n, conditional=False):
        if n.t == "call" and n.callee() in ("<-", "=") and n.a[0][1].t in ("sym", "str"):
            name = n.a[0][1].text()
            v = n.a[1][1]
            while v.t == "call" and v.callee() in ("<-",):   # a <- b <- function
                self._define(file, v)
                v = v.a[1][1]
            if v.t == "fun":
                if not (conditional and name in self.funs):
                    self.funs[name] = RFun(name, file, v)
                self.vars.pop(name, None)
            else:
                self.vars[name] = (file, n.l, v)
                if v.t == "sym":
                    self.alias[name] = v.n
        elif n.t == "call" and n.callee() == "delayedAssign":
            self.vars[n.a[0][1].text()] = (file, n.l, n.a[1][1])
        elif n.t == "call" and n.callee() in ("if", "{", "on_load", "local"):
            for _, x in n.a:
                self._define(file, x, True)

    def defined(self, name):
        return name in self.funs or name in self.vars

    def fun(self, name):
        seen = set()
        while name in self.alias and name not in seen:
            seen.add(name)
            name = self.alias[name]
        return self.funs.get(name)

    def imported(self, name):
        for p in ("base", "rlang", "stats", "utils", "methods", "graphics", "grDevices", "datasets"):
            if name in self.base.get(p, {}):
                return p
        return None


def enclosing_funs(n):
    """Innermost-first chain of function nodes lexically containing n."""
    res = []
    p = n.parent
    while p is not None:
        if p.t == "fun":
            res.append(p)
        p = p.parent
    return res


def reachable(P, extra=()):
    """Names of package functions reachable from exports, registered methods,
    load hooks and `extra` (names called back from native code), following any
    mention of a name."""
    ment = {}

    def names(node):
        return {x.n if x.t == "sym" else x.v for x in node.walk() if x.t in ("sym", "str")}

    roots = set(P.exports) | {".onLoad", ".onAttach"} | set(extra)
    for g, c, m in P.s3:
        roots.add(m or "%s.%s" % (g, c))
    seen = set()
    work = [r for r in roots]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        node = P.funs[n].node if n in P.funs else P.vars[n][2] if n in P.vars else None
        if node is not None:
            work.extend(names(node) - seen)
        if n in P.alias:
            work.append(P.alias[n])
    return seen
