"""C11, C12: (conditional) minimal depth on forests (spec ForestDef, ForestModel, ForestGen, Forest)."""
from common import SEED, scale, model_check, tlc_histories, parallel
import forest


def check(res, prop):
    model_check("ForestModel", scale("MCForest_quick.cfg", "MCForest_thorough.cfg"), res.stats)
    jobs = []
    for nf, n in ((3, scale(150, 2500)), (4, scale(150, 2500))):
        h = tlc_histories("ForestGen", "ForestGen%d.cfg" % nf, n, 260, SEED + int(prop[1:]) * 7 + nf, res.stats)
        jobs += [dict(id="%s-g%d-%d" % (prop, nf, j), seed=SEED * 100003 + j * 17 + nf, hist=x, asp=[prop], nf=nf)
                 for j, x in enumerate(h)]
    jobs += [dict(id="%s-t%d" % (prop, j), seed=SEED * 100003 + j * 13, hist=["trained"] * 2, asp=[prop], nf=[2, 3, 4, 5, 1, 12][j % 6])
             for j in range(scale(40, 600))]
    jobs += [dict(id="%s-l%d" % (prop, j), seed=SEED * 100003 + j * 19, hist=["large" if j % 4 else "many"], asp=[prop], nf=[2, 3, 4][j % 3])
             for j in range(scale(20, 240))]
    cases = parallel(forest.drive, jobs)
    res.run_cases("Forest", cases)


def check_C11(res):
    check(res, "C11")


def check_C12(res):
    check(res, "C12")
