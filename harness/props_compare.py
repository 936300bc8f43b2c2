"""C19: comparison of two methods (spec Compare, CompareModel)."""
from common import SEED, scale, model_check, tlc_histories, parallel, quick
import compare


def check_C19(res):
    model_check("CompareModel", "MCCompare.cfg" if quick() else "MCCompareBig.cfg", res.stats)
    h = tlc_histories("CompareGen", "CompareGen.cfg", scale(250, 4000), 8, SEED + 19, res.stats)
    jobs = [dict(id="C19-%d" % j, seed=SEED * 100049 + j * 41, cls=x["cls"], hist=x["hist"], same=x["same"], size="wide" if j % 25 == 3 else "")
            for j, x in enumerate(h)]
    res.run_cases("Compare", sum(parallel(compare.drive, jobs), []))
