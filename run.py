#!/usr/bin/env python3
"""Runs the check of one property: builds the code under test from /repo's working tree, runs it under the
monitors and reports. Usage: run.py ID [--tier quick|thorough] [--seed N] [--keep]"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCMV_REPO", "/repo")
H = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
import checks  # noqa: E402


class BuildError(Exception):
    def __init__(self, what, cmd, log):
        super().__init__(what)
        self.what, self.cmd, self.log = what, cmd, log


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.tmp = tempfile.mkdtemp(prefix="ccmv-%s-" % prop)
        self.t0 = time.time()
        self.evaluations = 0
        self.checks = 0
        self.distinct = 0
        self.samples = []
        self.observed = {}
        self.violations = []  # (key, what)
        self.known = {}       # finding id -> what
        self.notes = []
        self.pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)
        self.pool2 = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)
        self.repo, self.h = REPO, H

    def path(self, *a):
        return os.path.join(self.tmp, *a)

    def elapsed(self):
        return time.time() - self.t0

    # ---- building
    def compile(self, out, cmd, internal=False, timeout=600):
        """One compiler run. internal: the translation unit names implementation details, so that a failure says nothing."""
        log = out + ".log"
        with open(log, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.tmp).returncode
            except subprocess.TimeoutExpired:
                rc = -1
                f.write("compilation timed out\n")
        if rc != 0:
            raise BuildError(os.path.basename(out), " ".join(cmd), open(log).read()[:4000])
        return out

    def variant(self, name, src="table.cpp"):
        v = checks.VARIANTS[name]
        out = self.path("%s.so" % name if src == "table.cpp" else "%s-%s.so" % (name, src[:-4]))
        cmd = [v[0], "-shared", "-fPIC", "-fvisibility=hidden"] + ([] if any(a.startswith("-std=") for a in v[1:]) else ["-std=c++17"])
        cmd += checks.DEFS + ["-I" + REPO + "/include", "-I" + H, '-DCCMV_NAME="%s"' % name] + list(v[1:]) + [os.path.join(H, src), "-o", out]
        return self.compile(out, cmd)

    def driver(self, src, extra=()):
        out = self.path(src[:-4])
        return self.compile(out, ["g++", "-O2", "-std=c++17", "-frounding-math", "-fno-builtin", "-I" + H] + list(extra) +
                            [os.path.join(H, src), "-o", out, "-lmpfr", "-lgmp", "-ldl", "-lpthread"])

    def build_all(self, jobs):
        """jobs: zero-argument callables; returns their results, raising the first BuildError."""
        return [f.result() for f in [self.pool.submit(j) for j in jobs]]

    # ---- literals of the code under test, as a generator dictionary
    def dictionary(self):
        out = self.path("dict.txt")
        vals = set()
        num = re.compile(r"(?<![\w.])[-+]?(0[xX][0-9a-fA-F']+(?:\.[0-9a-fA-F']*)?[pP][-+]?\d+|0[xX][0-9a-fA-F']+|\d[\d']*\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)[fFlLuU]*")
        import struct
        for d, _, fs in os.walk(os.path.join(REPO, "include", "ccmath")):
            for f in sorted(fs):
                if not f.endswith(".hpp"):
                    continue
                try:
                    text = open(os.path.join(d, f), errors="replace").read()
                except OSError:
                    continue
                for m in num.finditer(text):
                    w = m.group(1).replace("'", "")
                    try:
                        if w[:2] in ("0x", "0X"):
                            if "p" in w or "P" in w:
                                vals.add(struct.unpack("<Q", struct.pack("<d", float.fromhex(w)))[0])
                            else:
                                i = int(w, 16)
                                if len(w) == 18:
                                    vals.add(i)          # a double's bit pattern
                                elif len(w) == 10:       # a float's bit pattern, or an upper word
                                    x = struct.unpack("<f", struct.pack("<I", i))[0]
                                    if x == x:
                                        vals.add(struct.unpack("<Q", struct.pack("<d", x))[0])
                                    vals.add(i << 32)
                                    vals.add(struct.unpack("<Q", struct.pack("<d", float(i)))[0])
                                elif i < 1 << 63:
                                    vals.add(struct.unpack("<Q", struct.pack("<d", float(i)))[0])
                        else:
                            x = float(w)
                            if x < 1e300:
                                vals.add(struct.unpack("<Q", struct.pack("<d", x))[0])
                    except (ValueError, OverflowError, struct.error):
                        pass
        with open(out, "w") as f:
            for v in sorted(vals):
                f.write("%016x\n" % v)
        self.observed["dictionary_literals"] = len(vals)
        return out

    # ---- running
    def run(self, argv, name, env=None, timeout=600):
        """Runs a monitor that writes the JSON report of mon.hpp and merges it."""
        out = self.path(name + ".json")
        cmd = argv + ["--out", out, "--tier", self.tier, "--seed", str(self.seed), "--tmp", self.tmp]
        e = dict(os.environ)
        e.update(env or {})
        with open(self.path(name + ".stdout"), "w") as so, open(self.path(name + ".stderr"), "w") as se:
            p = subprocess.Popen(cmd, stdout=so, stderr=se, env=e, cwd=self.tmp, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.violations.append(("hang/" + name, "%s did not finish within %d s" % (name, timeout)))
                return None
        err = open(self.path(name + ".stderr"), errors="replace").read()
        try:
            o = json.load(open(out))
        except (OSError, ValueError):
            self.violations.append(("died/" + name, "%s ended with status %d without a report: %s" % (name, rc, err[-1500:])))
            return None
        self.merge(o)
        if rc < 0:
            self.violations.append(("died/" + name, "%s was ended by signal %d: %s" % (name, -rc, err[-1500:])))
        return o, err

    def merge(self, o):
        self.evaluations += o["evaluations"]
        self.checks += o["checks"]
        self.distinct += o["distinct"]
        self.samples += o["samples"]
        for k, v in o["stats"].items():
            self.observed[k] = v
        for v in o["violations"]:
            self.violations.append((v["key"], v["what"] + (" [%d occurrences]" % v["count"] if v["count"] > 1 else "")))
        for k in o["known"]:
            self.known.setdefault(k["id"], k["what"])


def load_known():
    r = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    except OSError:
        pass
    return r


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
        print("setup: every check builds from /repo by itself" + ("; missing: " + ", ".join(missing) if missing else ""))
        return 1 if missing else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    spec = checks.CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        try:
            spec["run"](ctx)
        except BuildError as e:
            ctx.violations.append(("build/" + e.what, "ccmath does not compile in a supported configuration: %s\n%s" % (e.cmd, e.log)))
        listed = load_known()
        for k, what in sorted(ctx.known.items()):
            if (prop, k) in listed:
                print("KNOWN-FINDING: property=%s %s (observed: %s)" % (prop, listed[(prop, k)], what[:300]))
            else:
                ctx.violations.append(("unlisted-finding/" + k, what))
        replay = os.path.join(HERE, "evidence", prop + ".replay.json")
        if ctx.violations:
            with open(replay, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "command": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (seed, tier, prop),
                           "violations": [{"key": k, "what": w} for k, w in ctx.violations]}, f, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": int(ctx.evaluations), "distinct_nontrivial": int(ctx.distinct), "rule": spec["rule"], "samples": ctx.samples[:40],
                           "monitor_judgements": int(ctx.checks), "observed": ctx.observed},
              "assumptions": spec.get("assumptions", []), "wall_s": round(ctx.elapsed(), 2), "violations": len(ctx.violations),
              "known_findings": sorted(ctx.known)}
        if ctx.notes:
            ev["coverage"]["notes"] = ctx.notes
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d executions, %d distinct, %d violations, %.1f s" % (prop, tier, seed, ctx.evaluations, ctx.distinct, len(ctx.violations), ctx.elapsed()))
        for k, w in ctx.violations[:12]:
            print("  %s: %s" % (k, w[:600]))
        if ctx.violations:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0
    finally:
        if "--keep" in a:
            print("kept", ctx.tmp)
        else:
            shutil.rmtree(ctx.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
