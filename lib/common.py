"""Shared plumbing: building the program representations from /repo's current
working tree, reporting, evidence, known findings."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VCTRS_REPO", "/repo")
EVID = os.environ.get("VCTRS_EVIDENCE", os.path.join(VERIF, "evidence"))
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(BUILD, "irdump")


class AnalysisBroken(Exception):
    """An anchor vanished, a rule has no instance, or the sources do not parse:
    neither a pass nor a violation."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd), r.stderr[-4000:]))
    return r.stdout


def build_engine():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    if os.path.exists(ENGINE) and os.path.getmtime(ENGINE) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = run(["llvm-config-18", "--cxxflags", "--ldflags", "--libs", "core", "irreader", "support", "passes", "--link-shared"]).split()
    fd, tmp = tempfile.mkstemp(dir=BUILD)
    os.close(fd)
    run(["g++", "-O1", "-std=c++17", src, "-o", tmp] + flags + ["-fexceptions"])
    os.chmod(tmp, 0o755)
    os.replace(tmp, ENGINE)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vctrs-verif-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def bitcode():
    """Whole-program bitcode of /repo/src with the package's own preprocessor
    settings; one module."""
    out = os.path.join(scratch(), "all.bc")
    if os.path.exists(out):
        return out
    src = os.path.join(REPO, "src")
    files = sorted(f for f in os.listdir(src) if f.endswith(".c"))
    if len(files) < 60:
        raise AnalysisBroken("only %d C files under %s" % (len(files), src))
    rinc = "/usr/share/R/include"
    base = ["clang-18", "-std=gnu17", "-DNDEBUG", "-I" + rinc, "-I" + src, "-I" + os.path.join(src, "rlang"),
            "-fvisibility=hidden", "-fPIC", "-O1", "-Xclang", "-disable-llvm-passes", "-g",
            "-fno-discard-value-names", "-w", "-c", "-emit-llvm"]
    procs = []
    outs = []
    from concurrent.futures import ThreadPoolExecutor

    def one(f):
        o = os.path.join(scratch(), f[:-2] + ".bc")
        run(base + [os.path.join(src, f), "-o", o])
        return o

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        outs = list(ex.map(one, files))
    run(["llvm-link-18"] + outs + ["-o", out])
    return out


def n_sources():
    return len([f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c")])


_MEMO = {}


def load_module(inline=False, noinline=(), thread=False, leaf=False, into=()):
    k = (inline, tuple(noinline), thread, leaf, tuple(into))
    if k not in _MEMO:
        _MEMO[k] = load_module1(inline, noinline, thread, leaf, into)
    return _MEMO[k]


def load_module1(inline=False, noinline=(), thread=False, leaf=False, into=()):
    import ir
    build_engine()
    bc = bitcode()
    cmd = [ENGINE, bc]
    if inline:
        cmd.append("--inline-hint")
        if noinline:
            cmd += ["--noinline", ",".join(noinline)]
    if leaf:
        cmd.append("--inline-leaf")
    if into:
        cmd += ["--inline-into", ",".join(into)]
    if thread:
        cmd.append("--thread")
    return ir.Module(run(cmd))


def load_r():
    import rast
    if "r" not in _MEMO:
        _MEMO["r"] = load_r1()
        import rops
        rops.PKG = _MEMO["r"]
    return _MEMO["r"]


def load_r1():
    import rast
    return rast.Package(REPO, run(["Rscript", "--vanilla", os.path.join(VERIF, "engine", "rdump.R"), REPO]))


def relpath(p):
    if p is None:
        return "?"
    for pre in (REPO + "/", "/repo/"):
        if p.startswith(pre):
            return p[len(pre):]
    return p


class Report:
    """Collects obligations and violations for one property."""

    def __init__(self, prop, level="other", technique=""):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = {}
        self.coverage = {}
        self.assumptions = []
        self.samples = []
        self.counts = {}
        self.rules = {}

    def rule(self, key, text, minimum=1):
        """Declare a rule; it must end up with at least `minimum` instances."""
        self.rules[key] = (text, minimum)
        self.counts.setdefault(key, 0)

    def ok(self, rule, n=1, sample=None):
        self.counts[rule] = self.counts.get(rule, 0) + n
        if sample is not None and len([s for s in self.samples if s["rule"] == rule]) < 3:
            self.samples.append({"rule": rule, "instance": sample})

    def violation(self, rule, key, where, message):
        """key: stable identity of the construct (no line numbers)."""
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.viol.setdefault((rule, key), (where, message))

    def known(self):
        path = os.path.join(VERIF, "known-findings.txt")
        res = {}
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                # finding: property=<id> key=<rule>|<key> :: text
                if line.startswith("finding:"):
                    head, _, text = line[len("finding:"):].partition("::")
                    parts = head.strip().split(" ", 1)
                    if parts[0] == "property=" + self.prop:
                        res[parts[1].strip()[len("key="):]] = text.strip()
        return res

    def finish(self):
        broken = [k for k, (t, m) in self.rules.items() if self.counts.get(k, 0) < m]
        known = self.known()
        hits = []
        for (rule, key), (where, msg) in sorted(self.viol.items()):
            ident = "%s|%s" % (rule, key)
            if ident in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[ident]))
            else:
                hits.append((rule, key, where, msg))
        nviol = len(hits)
        total = sum(self.counts.values())
        cov = {
            "explanation": "Static analysis of /repo's current sources; each count below is the number of obligations the rule generated and examined in this run.",
            "obligations": total,
            "discharged": total - len(self.viol),
            "rules": {k: {"rule": t, "instances": self.counts.get(k, 0), "minimum": m} for k, (t, m) in self.rules.items()},
            "samples": self.samples[:40],
            "checker_cmd": "python3 %s" % os.path.relpath(sys.argv[0], VERIF),
            "trusted_base": ["clang-18 front end, LLVM SROA/always-inline passes", "R 4.3 parser", "the rule tables in lib/ and checks/"],
        }
        cov.update(self.coverage)
        cov["findings"] = [{"rule": r, "key": k, "where": w, "message": m} for r, k, w, m in hits]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
            "violations": nviol,
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if hits:
            rp = os.path.join(EVID, self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for rule, key, where, msg in hits:
                    f.write("%s: [%s] %s\n    instance: %s\n" % (where, rule, msg, key))
            for rule, key, where, msg in hits:
                print("%s: [%s] %s" % (where, rule, msg))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        if broken and not hits:
            for k in broken:
                print("ANALYSIS-BROKEN: rule %s has %d instances, expected at least %d" % (k, self.counts.get(k, 0), self.rules[k][1]))
            return 3
        return 1 if hits else 0


def borrow(rep, fn, rules, into, only=None):
    """Run the rules of another check and take over what some of them decide."""
    sub = Report(rep.prop)
    fn(sub)
    for r in rules:
        bad = 0
        for (rule, key), (where, msg) in sorted(sub.viol.items()):
            if rule == r:
                bad += 1
                if only is None or only(rule, key, msg):
                    rep.violation(into, "%s|%s" % (rule, key), where, msg)
        rep.ok(into, max(0, sub.counts.get(r, 0) - bad))


def main(prop, fn, level="other"):
    rep = Report(prop, level)
    try:
        fn(rep)
        rc = rep.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        rc = 3
    except Exception:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN: the analysis itself failed")
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
