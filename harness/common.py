"""Shared machinery: running TLC, encoding numbers, verdicts, evidence, violations."""
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
OUT = VERIF / "out"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NCPU = max(1, min(8, os.cpu_count() or 1))
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SCRATCH = Path(tempfile.mkdtemp(prefix="verif-artemis-"))
_MAIN = os.getpid()


def _cleanup():
    if os.getpid() == _MAIN:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)


class Machinery(Exception):
    """The check itself is broken (never reported as a violation)."""


# ---------------------------------------------------------------- numbers
def enc(x):
    """A float as <<sign, limbs...>> scaled by 10^8 (see Num.tla)."""
    if x is None:
        return [9]
    try:
        x = float(x)
    except (TypeError, ValueError):
        return [8]
    if x != x:
        return [2]
    if x in (float("inf"), float("-inf")):
        return [3] if x > 0 else [-3]
    k = round(Fraction(x) * 10 ** 8)
    s, k = (0, 0) if k == 0 else ((1, k) if k > 0 else (-1, -k))
    limbs = []
    while k:
        limbs.append(k % 10000)
        k //= 10000
    return [s] + limbs


# ---------------------------------------------------------------- TLC
class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.runs = []


_RE = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, stats=None, env=None, workers=None, args=(), timeout=850, ok_violation=False, label=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.  Returns its output; raises Machinery unless it
    finished without any error."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=SCRATCH)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", TLC_CP, "tlc2.TLC",
           "-config", str(cfg), "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or NCPU)]
    cmd += list(args) + [str(module) + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s / %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = None
    for m in _RE.finditer(out):
        pass
    if stats is not None and m:
        stats.transitions += int(m.group(1))
        stats.states += int(m.group(2))
        stats.runs.append({"spec": label or module, "cfg": str(Path(cfg).name), "generated": int(m.group(1)),
                           "distinct": int(m.group(2)), "wall_s": round(time.time() - t, 1)})
    if p.returncode != 0 and not ok_violation:
        bad = [l for l in out.splitlines() if "rror" in l or "nvariant" in l or "violated" in l]
        raise Machinery("TLC failed (%d) on %s / %s:\n%s\n%s" % (p.returncode, module, cfg, "\n".join(bad[:5]),
                                                                  out[-3000:] + p.stderr[-500:]))
    return out


def model_check(module, cfg, stats, **kw):
    """Exhaustively check a specification; any violated invariant is a machinery error here, because the
    specification does not depend on the code."""
    out = tlc(module, cfg, stats, **kw)
    if "Model checking completed. No error has been found." not in out:
        raise Machinery("no completion message for %s/%s" % (module, cfg))
    return out


def tlc_histories(module, cfg, num, depth, seed, stats=None):
    """Histories (JSON values printed by the specification) from TLC's simulator."""
    out = tlc(module, cfg, stats, workers=1,
              args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    hist = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            hist.append(json.loads(json.loads(line)[5:]))
    m = re.search(r"The number of states generated: (\d+)", out)
    if stats is not None and m:
        stats.transitions += int(m.group(1))
        stats.runs.append({"spec": module, "cfg": str(cfg), "simulated": int(m.group(1)), "histories": len(hist)})
    if not hist:
        raise Machinery("no histories from %s" % module)
    return hist


def validate(module, cases, stats, chunk=None, workers=None, timeout=850):
    """Check recorded cases against the trace specification; returns {case id: (ok, clause)}."""
    if not cases:
        return {}
    ids = [c["id"] for c in cases]
    if len(set(ids)) != len(ids):
        raise Machinery("duplicate case ids")
    f = SCRATCH / ("cases-%s-%d.ndjson" % (module, time.time_ns()))
    with open(f, "w") as h:
        for c in cases:
            h.write(json.dumps(c) + "\n")
    out = tlc(module, "Trace.cfg", stats, env={"VCASES": str(f)}, workers=workers, timeout=timeout)
    res = {}
    for line in out.splitlines():
        if line.startswith('"VERDICT '):
            _, cid, ok, clause = json.loads(line).split(" ", 3)
            if cid in res and res[cid] != (ok == "ACCEPT", clause):
                raise Machinery("two verdicts for case " + cid)
            res[cid] = (ok == "ACCEPT", clause)
    f.unlink()
    missing = set(ids) - set(res)
    if missing:
        raise Machinery("%s gave no verdict for %d of %d cases, e.g. %s" % (module, len(missing), len(ids),
                                                                          sorted(missing)[:3]))
    return res


# ---------------------------------------------------------------- results
class Result:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.stats = Stats()
        self.samples = []
        self.traces = 0
        self.violations = []
        self.extra = {}
        self.assumptions = []

    def run_cases(self, module, cases, sample=2, **kw):
        """Validate cases; every rejected one becomes a violation."""
        self.traces += len(cases)
        for c in cases:
            if "_crash" in c:
                self.violate(c["id"], "the call fails: " + c["_crash"], c, module)
        cases = [c for c in cases if "_crash" not in c]
        verdicts = validate(module, [strip(c) for c in cases], self.stats, **kw)
        for c in cases[:sample]:
            self.samples.append({"spec": module, "case": shorten(strip(c))})
        by = {c["id"]: c for c in cases}
        for cid, (ok, clause) in verdicts.items():
            if not ok:
                self.violate(cid, clause, by[cid], module)
        return verdicts

    def violate(self, cid, clause, case, module=None):
        self.violations.append((cid, clause, case, module))

    def finish(self):
        known = load_known(self.prop)
        OUT.mkdir(exist_ok=True)
        real = []
        for cid, clause, case, module in sorted(self.violations, key=lambda v: str(v[0])):
            hit = [k for k in known if re.search(k["match"], clause)]
            if hit:
                k = hit[0]
                if not k.get("_printed"):
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                    k["_printed"] = True
            else:
                real.append((cid, clause, case, module))
        ev = {
            "property": self.prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED,
            "level": "model_checking",
            "coverage": {"states": self.stats.states, "transitions": self.stats.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples[:6],
                         "tlc_runs": self.stats.runs, **self.extra},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1), "violations": len(real),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (self.prop + ".json")).write_text(json.dumps(ev, indent=1, default=str) + "\n")
        print("%s: %d traces validated, %d states, %d transitions, %.1f s" % (
            self.prop, self.traces, self.stats.states, self.stats.transitions, time.time() - self.t0))
        if not real:
            return 0
        for n, (cid, clause, case, module) in enumerate(real):
            path = OUT / ("%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", str(cid))))
            if n < 20:
                path.write_text(json.dumps({"property": self.prop, "case": cid, "clause": clause, "module": module,
                                            "tier": TIER, "seed": SEED, "trace": case}, indent=1, default=str))
            if n < 5:
                print("  case %s: %s" % (cid, clause))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%d violating cases" % len(real))
        return 1


def strip(c):
    return {k: v for k, v in c.items() if not k.startswith("_")}


def shorten(x, depth=0):
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x[:12]] + (["... %d more" % (len(x) - 12)] if len(x) > 12 else [])
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in x.items()}
    return x


def load_known(prop):
    """Findings recorded in the committed known-findings file ("finding: property=<id> match=<regex> <what>")."""
    f = VERIF / "known-findings.txt"
    res = []
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                res.append({"match": m.group(2), "what": m.group(3)})
    return res


def quick():
    return TIER != "thorough"


def scale(q, t):
    return t if TIER == "thorough" else q


class Hang(BaseException):
    """The code under test does not come back."""


JOB_LIMIT = 150
HANGS = [0]              # jobs of this process that hung: the next ones get less time, and after three none


def on_alarm(*_):
    raise Hang("no result after %d s" % JOB_LIMIT)


class Guarded:
    """fn, turning an exception that was raised inside the code under test into a rejected case."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, job):
        if HANGS[0] > 2:
            return {"id": job["id"], "_crash": "Hang: not run, earlier cases did not come back", "_job": job, "_tb": ""}
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(JOB_LIMIT if not HANGS[0] else JOB_LIMIT // 5)
        try:
            return self.fn(job)
        except (Exception, Hang) as x:
            import traceback
            HANGS[0] += isinstance(x, Hang)
            frames = traceback.extract_tb(x.__traceback__)
            if not any("/artemis/" in f.filename and "/verif/" not in f.filename for f in frames):
                raise
            return {"id": job["id"], "_crash": "%s: %s" % (type(x).__name__, x), "_job": job,
                    "_tb": traceback.format_exc()}
        finally:
            signal.alarm(0)


def hush():
    """Progress bars and training logs of the libraries go nowhere."""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def parallel(fn, jobs, procs=None):
    """Run fn over jobs in forked worker processes, keeping order."""
    fn = Guarded(fn)
    import multiprocessing as mp
    jobs = list(jobs)
    if len(jobs) <= 1:
        return [fn(j) for j in jobs]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs or NCPU, initializer=hush) as pool:
        return pool.map(fn, jobs, chunksize=max(1, len(jobs) // (8 * (procs or NCPU))))
