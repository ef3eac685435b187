"""Shared machinery of the checks: lowering /repo's sources to LLVM IR, running
the abstract interpreter / AST tools on it, and reporting."""
import threading
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
CACHE = os.path.join(VERIF, ".cache")
BIN = os.path.join(CACHE, "bin")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
SYS = ["-isystem", MPI, "-isystem", MPI + "/openmpi",
       "-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex/include",
       "-isystem", "/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-complex/include"]
KDEFS = ["-DHPGEM_FORCE_ASSERTS", "-DHPGEM_LOGLEVEL=Log::DEFAULT"]
FULLDEFS = ["-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_COMPLEX_PETSC", "-DHPGEM_USE_METIS",
            "-DHPGEM_USE_MPI", "-DHPGEM_USE_SLEPC"]


class Broken(Exception):
    """The analysis itself could not be carried out (an error exit)."""


def ensure_tools():
    r = subprocess.run(["bash", os.path.join(ENGINE, "build.sh"), BIN],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("tool build failed: " + r.stderr[-2000:])


_treekey = None
SKIPPED = []


def treekey():
    global _treekey
    if _treekey is None:
        h = hashlib.sha1()
        for root in (REPO + "/kernel", REPO + "/applications", ENGINE + "/shadow", ENGINE + "/probes"):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    if (root.startswith(ENGINE) or f.endswith((".h", ".hpp", ".cpp", ".ipp"))) and (root != REPO + "/applications" or not f.endswith(".cpp")):
                        p = os.path.join(d, f)
                        if f.endswith(".cpp"):
                            continue
                        h.update(p.encode())
                        with open(p, "rb") as fh:
                            h.update(fh.read())
        _treekey = h.hexdigest()
    return _treekey


def kernel_sources(*dirs, exclude=()):
    out = []
    for d in dirs:
        out += sorted(glob.glob(os.path.join(REPO, "kernel", d, "*.cpp")))
    return [s for s in out if os.path.basename(s) not in exclude]


LOWER = ["-std=gnu++14", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only",
         "-fno-discard-value-names", "-emit-llvm", "-c", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
         "-ffp-contract=off", "-fno-math-errno"]


def lower(sources, shadow=True, defs=KDEFS, extra=(), flags=LOWER, strict=False, pre=()):
    """Compile sources to bitcode; returns list of .bc paths (cached by content)."""
    ensure_tools()
    bcdir = os.path.join(CACHE, "bc")
    os.makedirs(bcdir, exist_ok=True)
    inc = [y for x in pre for y in ("-I", x)]
    if shadow:
        inc += ["-I", ENGINE + "/shadow"]
    inc += ["-I", ENGINE + "/probes", "-I", REPO + "/kernel"]

    def one(src):
        cmd = [CLANG] + list(flags) + list(defs) + inc + ["-I", os.path.dirname(src)] + list(extra) + SYS
        h = hashlib.sha1((treekey() + "\0".join(cmd) + src).encode())
        with open(src, "rb") as fh:
            h.update(fh.read())
        out = os.path.join(bcdir, os.path.basename(src) + "." + h.hexdigest()[:20] + ".bc")
        if not os.path.exists(out):
            tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
            r = subprocess.run(cmd + [src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return src, None, r.stderr[-3000:]
            os.replace(tmp, out)
        return src, out, ""

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, sources))
    bad = [(s, e) for s, o, e in res if o is None]
    for s, e in bad:  # the tree has a few dead .cpp files outside the build; they do not compile
        SKIPPED.append(os.path.relpath(s, REPO))
        if strict or not s.startswith(REPO) or len(bad) > 6:
            raise Broken("cannot lower %s:\n%s" % (s, e))
    return [o for _, o, _ in res if o]


def interpret(entry, bcs, timeout=800, maxsteps=None):
    fd, out = tempfile.mkstemp(suffix=".jsonl")
    os.close(fd)
    env = dict(os.environ)
    if maxsteps:
        env["ABSINT_MAXSTEPS"] = str(maxsteps)
    try:
        r = subprocess.run([BIN + "/absint", out, entry] + bcs, capture_output=True, text=True,
                           timeout=timeout, env=env)
        recs = []
        with open(out) as fh:
            for line in fh:
                if line.strip():
                    recs.append(json.loads(line))
        if r.returncode:
            raise Broken("absint exit %d: %s" % (r.returncode, r.stderr[-2000:] + "".join(str(x)[:600] for x in recs if x.get("t", "").startswith("_fail") or "fail" in x)[-2000:]))
        return recs
    finally:
        os.unlink(out)


def digest(msg):
    """identity of one finding: its text without source positions and call stacks"""
    m = re.sub(r"\(?/repo[^) ]*\)?", "", msg.split(" at hpgem")[0])
    return hashlib.sha1(m.encode()).hexdigest()[:10]


class Check:
    def __init__(self, pid, rule, level="other"):
        self.pid, self.rule, self.level = pid, rule, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.groups = {}
        self.viol = []
        self.undec = []
        self.notes = []
        self.known = []
        kf = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
        self.known_hit = []

    def ok(self, group, n=1):
        self.groups.setdefault(group, [0, 0, 0])[0] += n

    def bad(self, group, key, msg):
        for k in self.known:
            if k["key"] == key and k.get("digest", digest(msg)) == digest(msg):
                self.known_hit.append((key, msg))
                self.ok(group + " (known finding)")
                return
        self.groups.setdefault(group, [0, 0, 0])[1] += 1
        self.viol.append((group, key, msg))

    def unknown(self, group, key, msg):
        self.groups.setdefault(group, [0, 0, 0])[2] += 1
        self.undec.append((group, key, msg))

    def require(self, group, cond, key, msg):
        if cond:
            self.ok(group)
        else:
            self.bad(group, key, msg)
        return cond

    def note(self, s):
        self.notes.append(s)

    def count(self, group):
        return sum(self.groups.get(group, [0, 0, 0])) + sum(self.groups.get(group + " (known finding)", [0, 0, 0]))

    def expect(self, group, minimum):
        """instance floor: fewer analysed instances than confirmed by hand = broken analysis"""
        if self.count(group) < minimum:
            self.broken = getattr(self, "broken", [])
            self.broken.append("%s: only %d instances (expected >= %d)" % (group, self.count(group), minimum))

    def finish(self, extra=None):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        disc = sum(g[0] for g in self.groups.values())
        bad = sum(g[1] for g in self.groups.values())
        und = sum(g[2] for g in self.groups.values())
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "wall_s": round(time.time() - self.t0, 2),
              "coverage": {
                  "explanation": self.rule,
                  "obligations": disc + bad + und, "discharged": disc, "violated": bad, "undecided": und,
                  "by_rule": {k: {"discharged": v[0], "violated": v[1], "undecided": v[2]} for k, v in sorted(self.groups.items())},
                  "undecided_list": [list(u) for u in self.undec[:40]],
                  "notes": self.notes[:60]}}
        if self.viol:
            ev["coverage"]["violations"] = [list(v) for v in self.viol[:60]]
        if extra:
            ev["coverage"].update(extra)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k, m in self.known_hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, m))
        print("%s: %d obligations, %d discharged, %d violated, %d undecided, %.1fs" %
              (self.pid, disc + bad + und, disc, bad, und, time.time() - self.t0))
        for u in self.undec[:10]:
            print("  undecided %s [%s]: %s" % u)
        if self.viol:
            rp = "%s/evidence/%s.violation.txt" % (VERIF, self.pid)
            with open(rp + ".json", "w") as fh:
                json.dump([list(v) for v in self.viol], fh)
            with open(rp, "w") as fh:
                for v in self.viol:
                    fh.write("%s [%s]: %s\n" % v)
            for v in self.viol[:15]:
                print("  %s [%s]: %s" % v)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if getattr(self, "broken", None):
            print("ANALYSIS-BROKEN " + "; ".join(self.broken))
            return 3
        return 0


def main(fn):
    try:
        sys.exit(fn())
    except Broken as e:
        print("ANALYSIS-BROKEN " + str(e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN internal error")
        sys.exit(3)
