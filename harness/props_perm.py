"""C09, C10: permutation based explanations (spec Perm, PermModel)."""
from common import SEED, scale, model_check, tlc_histories, parallel
import perm


def check(res, prop, nq, nt):
    model_check("PermModel", "MCPerm.cfg", res.stats)
    h = tlc_histories("PermGen", "PermGen.cfg", scale(nq, nt), 6, SEED + int(prop[1:]), res.stats)
    jobs = [dict(id="%s-%d" % (prop, j), seed=SEED * 100019 + j * 31 + int(prop[1:]), hist=x, asp=[prop], uniq=j % 3 != 2)
            for j, x in enumerate(h)]
    if prop == "C09":
        jobs = [dict(j, hist=[e for e in j["hist"] if e["kind"] == "fit"]) for j in jobs]
    cases = [c for cs in parallel(perm.drive, jobs) for c in ([cs] if isinstance(cs, dict) else cs)]
    res.run_cases("Perm", cases)


def check_C09(res):
    check(res, "C09", 120, 2000)


def check_C10(res):
    check(res, "C10", 120, 2000)
