"""C13, C14, C24: split score on boosted trees and the unified table of their nodes (spec BoostDef, BoostModel, BoostGen,
Boost)."""
import random
from common import SEED, scale, model_check, tlc_histories, parallel
import boost


VAR = sorted(boost.VARIANTS)


def check(res, prop):
    model_check("BoostModel", scale("MCBoost_quick.cfg", "MCBoost_thorough.cfg"), res.stats)
    jobs = []
    rng = random.Random(SEED * 7919 + int(prop[1:]))
    k = 0
    for nf, n in ((3, scale(110, 2000)), (4, scale(110, 2000))):
        hs = tlc_histories("BoostGen", "BoostGen%d.cfg" % nf, n, 120, SEED + int(prop[1:]) * 7 + nf, res.stats)
        if prop == "C14":
            hs = [dict(x, calls=[dict(c, kind="imp" if j % 3 else "fit") for j, c in enumerate(x["calls"])]) for x in hs]
        # some of the models are trained instead, and a history goes on with one to three models
        hs = [dict(x, trees="trained") if j % 5 == 4 else x for j, x in enumerate(hs)]
        while hs:
            m = rng.choice([1, 1, 2, 3])
            jobs.append(dict(id="%s-%d-%d" % (prop, nf, k), seed=SEED * 100003 + k * 17 + nf, hists=hs[:m], asp=[prop], nf=nf,
                             pkg="xgboost" if k % 3 else "lightgbm"))
            hs = hs[m:]
            if k % 12 == 7:     # many features
                jobs[-1].update(nf=12, hists=[dict(h, trees="trained") for h in jobs[-1]["hists"]])
            if k % 12 in (2, 5, 9, 11):
                jobs[-1].update(hists=[dict(h, trees=VAR[(k // 4 + j) % 5]) for j, h in enumerate(jobs[-1]["hists"])])
            k += 1
    cases = parallel(boost.drive, jobs)
    res.run_cases("Boost", cases)


def check_C13(res):
    check(res, "C13")


def check_C14(res):
    check(res, "C14")


def check_C24(res):
    check(res, "C24")
