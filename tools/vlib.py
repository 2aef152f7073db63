"""Shared machinery of the checks: scratch space, environment, TLC runs, verdicts, evidence."""
import atexit
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("GSPLY_REPO", "/repo")
PY = "/opt/venv/bin/python"
CORES = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    pass


class CodeDied(MachineryError):
    """The code under test ended the driver, on a case that demands an answer."""


def died(rc, out):
    """A driver ended by a fault of the machine code (not by the kernel's or our own kill), or by an exception that gsply itself raised outside the
    observed calls - other than for want of memory or disk."""
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL):
        return True
    frames = re.findall(r'^  File "([^"]+)", line', out[out.rfind("Traceback (most recent call last)"):], re.M)
    mine = max((i for i, f in enumerate(frames) if f.startswith(HARNESS)), default=len(frames))
    last = out.rstrip().splitlines()[-1] if out.strip() else ""
    inside = any(f.startswith(os.path.join(REPO, "src", "")) for f in frames[mine:])
    return rc == 1 and inside and not re.match(r"(MemoryError|OSError|FileNotFoundError|PermissionError|KeyboardInterrupt|\S*ArrayMemoryError)", last)

class Run:
    """One check run: scratch directory, environment, counters, violations."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"gsv_{prop}_")
        atexit.register(shutil.rmtree, self.tmp, True)
        self.states = 0  # distinct states TLC visited on the specification itself
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []  # actual cases of this run, written out
        self.detail = {}
        self.viol = []  # (signature, description, replay payload)
        self.env = dict(os.environ)
        self.env.pop("GSPLY_REPO", None)
        self.env.update(
            PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
            NUMBA_CACHE_DIR=self.mk("numba"), TORCHINDUCTOR_CACHE_DIR=self.mk("inductor"),
            TRITON_CACHE_DIR=self.mk("triton"), TMPDIR=self.mk("tmp"), TORCHDYNAMO_DISABLE="1",
            OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_SEED=str(seed), VERIF_TIER=tier,
        )

    def mk(self, name):
        p = os.path.join(self.tmp, name)
        os.makedirs(p, exist_ok=True)
        return p

    def path(self, name):
        return os.path.join(self.tmp, name)

    # ------------------------------------------------------------------ processes
    def py(self, script, *args, timeout=800, env=None, wait=True):
        e = dict(self.env, **(env or {}))
        cmd = [PY, os.path.join(HARNESS, script), *map(str, args)]
        log = tempfile.TemporaryFile("w+", dir=self.tmp)
        p = subprocess.Popen(cmd, env=e, cwd=self.tmp, stdout=log, stderr=subprocess.STDOUT, text=True)
        p.log = log
        p.deadline, p.cmdname = time.time() + timeout, " ".join([script, *map(str, args)])
        return self.finish(p) if wait else p

    @staticmethod
    def expired(p):
        return time.time() > p.deadline

    def finish(self, p):
        try:
            p.wait(timeout=max(1, p.deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise MachineryError(f"timeout: {p.cmdname}")
        p.log.seek(0)
        out = p.log.read()
        if p.returncode != 0:
            what = f"{p.cmdname} exited {p.returncode}\n{out[-3000:]}"
            raise (CodeDied if died(p.returncode, out) else MachineryError)(what)
        return out

    def warm(self, *what):
        """Compile the JIT kernels once into the shared cache of this run."""
        try:
            return self.py("warm.py", *what, timeout=600)
        except CodeDied:  # the drivers will meet it again, and say on which case
            return ""

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, extra=(), timeout=800, heap="3g", wait=True):
        cfg = cfg or module
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        cp = "/opt/veriftools/tla/tla2tools.jar"
        for j in ("CommunityModules-deps.jar", "CommunityModules.jar"):
            q = os.path.join("/opt/veriftools/tla", j)
            if os.path.exists(q):
                cp += ":" + q
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", md, "-config", os.path.join(SPEC, cfg + ".cfg"), *extra,
               os.path.join(SPEC, module + ".tla")]
        out = os.path.join(md, "out.txt")
        with open(out, "w") as fh:
            p = subprocess.Popen(cmd, env=dict(self.env, **(env or {})), cwd=md, stdout=fh, stderr=subprocess.STDOUT)
        p.out, p.deadline, p.cmdname, p.md = out, time.time() + timeout, f"TLC {module}/{cfg}", md
        return self.tlc_finish(p) if wait else p

    def tlc_finish(self, p):
        try:
            p.wait(timeout=max(1, p.deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise MachineryError(f"timeout: {p.cmdname}")
        r = TlcResult(p)
        return r

    # ------------------------------------------------------------------ verdicts
    def violation(self, signature, text, payload):
        self.viol.append((signature, text, payload))

    def report(self, level="model_checking", assumptions=()):
        """Write the evidence file, print verdict lines, return the exit code."""
        known = known_findings(self.prop)
        fresh, seen = [], set()
        hits = {}
        for sig, text, payload in self.viol:
            k = next((f for f in known if f["match"] == sig), None)
            if k:
                hits[k["match"]] = k
            elif sig not in seen:
                seen.add(sig)
                fresh.append((sig, text, payload))
        for k in known:  # every listed finding is announced
            print(f"KNOWN-FINDING: property={self.prop} {k['text']}"
                  + ("" if k["match"] in hits else " (not reproduced in this run)"))
        rdir = os.path.join(VERIF, "evidence", "replay")
        out = []
        for sig, text, payload in fresh[:25]:
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(sig.encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{self.prop}_{h}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=self.prop, signature=sig, what=text, **payload), fh, indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {text}"[:400])
            out.append(dict(signature=sig, what=text, replay=path))
        ev = dict(
            property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed,
            level=level, wall_s=round(time.time() - self.t0, 1),
            coverage=dict(states=self.states, transitions=self.transitions,
                          traces_validated_against_impl=self.traces, samples=self.samples[:4],
                          steps_validated=self.steps, **self.detail),
            assumptions=list(assumptions), violations=len(out))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if fresh:
            print(f"{self.prop}: {len(fresh)} distinct violations, {self.traces} traces, {self.steps} steps")
            return 1
        print(f"{self.prop}: held on everything explored ({self.states} model states, {self.traces} traces, "
              f"{self.steps} steps validated, {ev['wall_s']} s)")
        return 0


class TlcResult:
    def __init__(self, p):
        self.rc, self.path, self.name = p.returncode, p.out, p.cmdname
        self.states = self.generated = None
        self.errors = []
        with open(p.out, errors="replace") as fh:
            for line in fh:
                if line.startswith('"'):
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    self.generated, self.states = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    self.generated = self.states = int(m.group(1))
                if line.startswith("Error:") or "***" in line or "Parse Error" in line:
                    self.errors.append(line.strip())

    def printed(self):
        """Strings printed by PrintT, unescaped."""
        with open(self.path, errors="replace") as fh:
            for line in fh:
                if line.startswith('"'):
                    try:
                        yield json.loads(line)
                    except ValueError:
                        yield line.strip().strip('"')

    def tail(self, n=40):
        with open(self.path, errors="replace") as fh:
            return "".join([l for l in fh if not l.startswith('"')][-n:])

    def ok(self):
        """The model run itself must be clean: an error here is the machinery's."""
        if self.rc != 0 or self.errors or self.states is None:
            raise MachineryError(f"{self.name} rc={self.rc} {self.errors[:3]}\n{self.tail()}")
        return self


def known_findings(prop):
    """Lines 'finding: property=<id> match=<signature> | text' of known_findings.txt."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) \| (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(match=m.group(2), text=m.group(3)))
    return out


def parse_set(s):
    """'{"a", "b"}' -> ['a','b']"""
    return re.findall(r'"([^"]*)"', s)
