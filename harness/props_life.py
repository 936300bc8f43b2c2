"""C15-C18: whole objects through histories of fits, rejected fits, plots, look-ups, comparisons (spec Life)."""
import json
import os
import subprocess
import sys
import threading

from common import SEED, TIER, SCRATCH, Machinery, scale, model_check, tlc_histories, parallel
import life

HERE = os.path.dirname(os.path.abspath(__file__))


def jobs_for(res, prop, cfg, nq, nt, depth=60):
    h = tlc_histories("LifeGen", cfg, scale(nq, nt), depth, SEED + int(prop[1:]), res.stats)
    return [dict(id="%s-%d" % (prop, j), seed=SEED * 100043 + j * 37 + int(prop[1:]), hist=x, asp=[prop],
                 size={3: "wide", 13: "tall"}.get(j % 20, "")) for j, x in enumerate(h)]


def check(res, prop, nq, nt):
    model_check("LifeModel", "MCLife_thorough.cfg" if TIER == "thorough" else "MCLife_quick.cfg", res.stats)
    jobs = jobs_for(res, prop, "LifeGen%s.cfg" % prop, nq, nt)
    proc = None
    if prop == "C17":
        fi, fo = SCRATCH / "twin-in.json", SCRATCH / "twin-out.json"
        fi.write_text(json.dumps(jobs))
        proc = subprocess.Popen([sys.executable, os.path.join(HERE, "twin.py"), str(fi), str(fo)],
                                env=dict(os.environ, PYTHONHASHSEED="4711"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    cases = parallel(life.drive, jobs)
    if proc is not None:
        out, _ = proc.communicate(timeout=800)
        if proc.returncode != 0:
            raise Machinery("the reproducing process failed: " + out.decode()[-2000:])
        for c, t in zip(cases, json.loads(fo.read_text())):
            if "_crash" in c or "_crash" in t:
                c["_crash"] = c.get("_crash") or t["_crash"]
                continue
            fits = [e for e in c["ev"] if e["e"] in ("fit", "bad")]
            if c["id"] != t["id"] or len(fits) != len(t["ev"]):
                raise Machinery("reproduced history does not line up")
            for e, x in zip(fits, t["ev"]):
                e["twin"] = dict(x["tab"], X=x["x"], I=x["ix"], Y=x["y"], err=x["err"])
    res.run_cases("Life", cases)


def check_C15(res):
    check(res, "C15", 150, 2500)


def check_C16(res):
    check(res, "C16", 220, 2500)


def check_C17(res):
    check(res, "C17", 150, 2500)


def check_C18(res):
    check(res, "C18", 110, 2000)
