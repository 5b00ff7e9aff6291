#!/usr/bin/env python3
"""Decide one property: check.py <ID>

Model check the specification, drive the code built from /repo's working tree,
validate the recorded traces against the specification, write evidence/<ID>.json.

Exit 0: held.  Exit 1: VIOLATION line printed.  Anything else: the check itself failed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
GOENV = {
    "PATH": "/opt/veriftools/go1.23.12/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
    "HOME": os.environ.get("HOME", "/root"),
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "CGO_ENABLED": "1",
    "GOFLAGS": "-mod=readonly -buildvcs=false",
}


class CheckError(Exception):
    pass


def run(cmd, timeout, cwd=ROOT, env=None, log=None):
    e = dict(os.environ)
    e.update(GOENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired as x:
        raise CheckError("timeout after %ds: %s" % (timeout, " ".join(cmd))) from x
    out = p.stdout.decode("utf-8", "replace")
    if log:
        with open(log, "w") as f:
            f.write(out)
    return p.returncode, out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.start = time.time()
        self.work = os.path.join(ROOT, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.violations = []      # (clause, stage, line, event, history)
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "trace_steps": 0, "models": {}, "drivers": {}, "samples": []}
        self.binaries = {}

    # -- building ---------------------------------------------------------
    def build(self):
        # The server is always built from the current working tree of the repository.
        self.idmd = self.gobuild(REPO, "./cmd/idmd", "idmd")
        self.drv = self.gobuild(os.path.join(ROOT, "harness"), ".", "drv")

    def gobuild(self, cwd, pkg, name, flags=()):
        out = os.path.join(self.work, name)
        rc, txt = run(["go", "build", *flags, "-o", out, pkg], 800, cwd=cwd)
        if rc != 0:
            raise CheckError("build of %s failed:\n%s" % (name, txt[-3000:]))
        return out

    def buildlib(self):
        """The server as a library, compiled into the module by an overlay. None if the
        repository's packages do not fit it (any more); its stages are then left out."""
        overlay = os.path.join(self.work, "overlay.json")
        with open(overlay, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "cmd", "idmx", "main.go"): os.path.join(ROOT, "inproc", "main.go")}}, f)
        try:
            return self.gobuild(REPO, "./cmd/idmx", "idmx", ["-overlay", overlay])
        except CheckError as e:
            print("note: the server cannot be used as a library: %s" % str(e)[-500:])
            self.cov["library"] = "not usable"
            return None

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, tag, workers=2, timeout=600, env=None):
        meta = os.path.join(self.work, "meta-" + tag)
        log = os.path.join(self.work, tag + ".tlc")
        e = {"JAVA_TOOL_OPTIONS": "-Xmx3g -Xss64m"}
        e.update(env or {})
        rc, out = run(["tlc", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
                       "-config", cfg, module + ".tla"], timeout, cwd=SPEC, env=e, log=log)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def model(self, module, cfg=None, timeout=600, workers=2):
        """Exhaustive model checking. A failure means that the specification is
        inconsistent with itself; it says nothing about the code."""
        cfg = cfg or module
        t = time.time()
        rc, out = self.tlc(module, cfg + ".cfg", "mc-" + cfg, workers=workers, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or "No error has been found" not in out or not m:
            raise CheckError("model %s (%s): rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"][cfg] = {"distinct": dist, "generated": gen, "wall_s": round(time.time() - t, 1)}
        return out

    def refuted(self, module, cfg, timeout=300):
        """A model with a planted fault: its invariant has to fail, or it is blind."""
        rc, out = self.tlc(module, cfg + ".cfg", "mc-" + cfg, workers=1, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if not re.search(r"Error: (Invariant|Temporal propert|Action property)", out) or not m:
            raise CheckError("model %s (%s) does not show its fault: rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
        self.cov.setdefault("faulty_models_refuted", {})[cfg] = int(m.group(2))

    # -- conformance --------------------------------------------------------
    def drive(self, tag, args, spec="TraceDir", clauses=None, seed=None, timeout=None, need=None,
              binary=None, relation=None):
        """Run a driver against the code, then validate its trace with the specification."""
        trace = os.path.join(self.work, tag + ".ndjson")
        t = time.time()
        try:
            rc, out = run([binary or self.drv, "-seed", str(SEED if seed is None else seed), "-tier", TIER, "-out", trace,
                           "-idmd", self.idmd, *args], timeout or (450 if TIER == "quick" else 800),
                          log=os.path.join(self.work, tag + ".drv"))
        except CheckError as e:
            rc, out = -1, str(e)
        if rc != 0:
            # What was recorded before is judged nevertheless.
            if self.cut(trace):
                self.validate(tag, trace, spec, clauses)
            raise CheckError("driver %s: rc=%d\n%s" % (tag, rc, out[-3000:]))
        with open(trace + ".stats") as f:
            st = json.load(f)
        t1 = time.time()
        n = self.validate(tag, trace, spec, clauses)
        c = st["counters"]
        for k, lo in (need or {}).items():
            if c.get(k, 0) < lo and not self.violations:
                raise CheckError("driver %s covered only %d of at least %d %s" % (tag, c.get(k, 0), lo, k))
        self.cov["traces_validated_against_impl"] += c.get("runs", 0)
        self.cov["trace_steps"] += n
        self.cov["drivers"][tag] = dict(sorted(c.items()), wall_drive_s=round(t1 - t, 1), wall_judge_s=round(time.time() - t1, 1))
        self.cov["samples"] += (st["samples"] or [])[:2] or self.sample(trace)
        return st

    @staticmethod
    def cut(trace):
        """Drop an incomplete last line."""
        if not os.path.exists(trace):
            return False
        with open(trace, "r+b") as f:
            b = f.read()
            n = b.rfind(b"\n") + 1
            f.truncate(n)
        return n > 0

    @staticmethod
    def sample(trace):
        """Three recorded steps, spread over the trace."""
        evs = [x for x in open(trace) if '"ev":"state"' not in x]
        return [json.loads(evs[len(evs) * i // 4]) for i in (1, 2, 3)] if len(evs) > 4 else []

    def probe(self, what):
        """Does this machine allow what a stage needs?"""
        out = os.path.join(self.work, "probe")
        rc, txt = run([self.drv, "-out", out, "-idmd", self.idmd, "probe"], 120)
        if rc == 0:
            with open(out + ".stats") as f:
                if json.load(f)["counters"].get(what, 0) > 0:
                    return True
        print("note: %s not possible here, stages left out: %s" % (what, txt[-500:]))
        self.cov["left_out"] = what
        return False

    def validate(self, tag, trace, spec, clauses):
        rc, out = self.tlc(spec, spec + ".cfg", "tr-" + tag, workers=1, env={"TRACE": trace})
        lines = sum(1 for _ in open(trace))
        m = re.search(r'"TRACE-COMPLETE (\d+)"', out)
        if rc != 0 or not m or int(m.group(1)) != lines:
            raise CheckError("trace %s not judged completely: rc=%d\n%s" % (tag, rc, out[-3000:]))
        found = []
        for m in re.finditer(r'"VIOL (\d+) ([^"]*)"', out):
            found.append((int(m.group(1)), m.group(2)))
        mine = [(n, c) for n, c in found if clauses is None or c.split()[0] in clauses]
        other = sorted({c.split()[0] for n, c in found} - {c.split()[0] for n, c in mine})
        if other:
            print("note: %s: deviations that belong to other properties: %s" % (tag, " ".join(other)))
        if mine:
            evs = {}
            want = {n for n, _ in mine[:200]}
            all_lines = open(trace).read().split("\n")
            for n, c in mine[:200]:
                ev = json.loads(all_lines[n - 1])
                lo = n - 1
                while lo > 0 and '"ev":"run"' not in all_lines[lo]:
                    lo -= 1
                hist = [x for x in all_lines[lo:n] if '"ev":"state"' not in x][-400:]
                self.violations.append({"clause": c, "stage": tag, "line": n, "event": ev, "history": hist})
            if len(mine) > 200:
                print("note: %s: %d deviations in total" % (tag, len(mine)))
        return lines

    def export(self, module, cfg):
        """Check a model and keep what it exports for replay; the result is the name of that file."""
        out = self.model(module, cfg)
        m = re.search(r'^"WALK (.*)"$', out, re.M)
        if not m:
            raise CheckError("nothing exported by " + cfg)
        f = os.path.join(self.work, cfg + ".walk")
        with open(f, "w") as h:
            h.write(json.loads('"' + m.group(1) + '"'))
        return f

    def walk(self, alphabet):
        """Every (state, request) pair of a model, in the model and on the real server."""
        f = self.export("MCDir", "MC_" + alphabet)
        st = self.drive("walk-" + alphabet, ["walk", f], clauses=self.clauses)
        c = st["counters"]
        mod = self.cov["models"]["MC_" + alphabet]
        self.cov["drivers"]["walk-" + alphabet]["model_states"] = mod["distinct"]
        if not self.violations and (c["walk.left"] or c["walk.states"] < mod["distinct"] or c["walk.pairs"] + 1 < mod["generated"]):
            raise CheckError("walk %s reached %d of %d states, %d of %d transitions" % (
                alphabet, c["walk.states"], mod["distinct"], c["walk.pairs"], mod["generated"] - 1))

    def lwalk(self, alphabet):
        """Every (state, request) pair of the LDIF model that the real server can get into.
        The model leaves the server the choice of page ends, so it has states the server skips."""
        f = self.export("MCLdif", "MC_" + alphabet)
        st = self.drive("walk-" + alphabet, ["lwalk", f], spec="TraceLdif", clauses=self.clauses)
        c = st["counters"]
        if not self.violations and (c["walk.left"] or c["walk.states"] < 20):
            raise CheckError("walk %s: %d pairs left in %d states" % (alphabet, c["walk.left"], c["walk.states"]))

    # -- result -----------------------------------------------------------
    def finish(self, level, assumptions):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        # Known findings never grow at run time.
        import findings
        real = []
        for v in self.violations:
            k = findings.match(self.prop, v)
            if k:
                if k not in self.known:
                    self.known.append(k)
            else:
                real.append(v)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level,
              "coverage": self.cov, "assumptions": assumptions,
              "wall_s": round(time.time() - self.start, 1), "violations": len(real)}
        path = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        if real:
            rp = os.path.join(ROOT, "evidence", "replay-%s.json" % self.prop)
            v = real[0]
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER,
                           "command": "VERIF_SEED=%d VERIF_TIER=%s bin/check.py %s" % (SEED, TIER, self.prop),
                           "clauses": sorted({x["clause"] for x in real}),
                           "clause": v["clause"], "stage": v["stage"], "line": v["line"],
                           "event": v["event"], "history": v["history"]}, f, indent=1)
            for x in real[:8]:
                print("deviation: stage=%s line=%d clause=%s %s" % (x["stage"], x["line"], x["clause"], json.dumps(x["event"])[:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def main():
    import plans
    prop = sys.argv[1]
    plan = plans.PLANS[prop]
    c = Check(prop)
    c.clauses = plan.clauses
    try:
        c.build()
        stages = plan.stages(c, TIER)
        err = None
        with concurrent.futures.ThreadPoolExecutor(max_workers=plan.parallel) as ex:
            futs = [ex.submit(s) for s in stages]
            for f in concurrent.futures.as_completed(futs):
                try:
                    f.result()
                except CheckError as e:
                    err = err or e
        # A deviation seen on the real code stands, whatever else went wrong.
        if err and not c.violations:
            raise err
        if err:
            print("note: %s" % err)
        rc = c.finish(plan.level, plan.assumptions)
        print("%s: %s in %.0fs (%d model states, %d traces, %d trace steps)" % (
            prop, "held" if rc == 0 else "violated", time.time() - c.start, c.cov["states"],
            c.cov["traces_validated_against_impl"], c.cov["trace_steps"]))
        return rc
    except CheckError as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
