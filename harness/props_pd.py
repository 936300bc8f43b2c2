"""C01-C08, C22: partial dependence and what is built on it (spec PDCalc, Explain, Session)."""
from common import SEED, quick, scale, model_check, tlc_histories, parallel
import session


def jobs_from(hists, prop, base, **kw):
    return [dict(id="%s-%s-%d" % (prop, base[0], j), seed=SEED * 100003 + base[1] * 7919 + j, hist=h, asp=[prop], **kw)
            for j, h in enumerate(hists)]


def run(res, jobs):
    cases = parallel(session.drive, jobs)
    return res.run_cases("Session", cases)


def mc_pdcalc(res):
    model_check("PDCalc", "MCPDCalc_quick.cfg" if quick() else "MCPDCalc_thorough.cfg", res.stats)


def check_C01(res):
    mc_pdcalc(res)
    h = tlc_histories("SessionGen", "SessionGen_ops.cfg", scale(160, 2500), 16, SEED, res.stats)
    jobs = jobs_from(h, "C01", ("ops", 1), useobs=True, opts={"dens": [1, 4, 64, 10, 7]})
    h = tlc_histories("SessionGen", "SessionGen_mix.cfg", scale(60, 800), 16, SEED + 1, res.stats)
    jobs += jobs_from(h, "C01", ("mix", 2), useobs=True, ndata=2, nmodel=2, nobj=2, opts={"dens": [1, 4, 64, 10, 7]})
    jobs += big_jobs("C01", scale(6, 40), useobs=True)
    run(res, jobs)


def big_jobs(prop, num, **kw):
    """Data sets for which several units fit into / overflow the default batch size of 2000."""
    out = []
    for j in range(num):
        hist = [{"e": "calc", "d": 1, "m": 1, "custom": j % 2 == 0, "b": 6}]
        kinds = ["single", "pairs", "minus"]
        for x in range(2):
            hist.append({"e": "op", "k": 1, "o": kinds[(j + x) % 3], "fs": 6 if (j + x) % 3 != 1 else 1 + j % 2, "all": j % 4 < 2,
                         "none": False, "fault": False})
        out.append(dict(id="%s-big-%d" % (prop, j), seed=SEED * 7 + 990000 + j, hist=hist, asp=[prop],
                        opts={"n": 25 + (j * 13) % 40, "nf": 3, "maxlev": 12, "style": 1}, **kw))
    return out


def huge_jobs(prop, num, **kw):
    """Queries of thousands of rows and hundreds of units."""
    out = []
    for j in range(num):
        hist = [{"e": "calc", "d": 1, "m": 1, "custom": j % 2 == 0, "b": 7}]
        n, lev, bs = ((16, 16, 3900), (44, 14, 6100), (40, 20, 11000))[j % 3]
        hist += [{"e": "op", "k": 1, "o": o, "fs": 6, "all": True, "none": True, "fault": False}
                 for o in (("single", "minus", "pairs") if j % 2 else ("pairs", "single"))]
        out.append(dict(id="%s-huge-%d" % (prop, j), seed=SEED * 13 + 770000 + j, hist=hist, asp=[prop],
                        opts={"n": n, "nf": 2, "maxlev": lev, "style": 1, "batch": bs + j, "full": True, "kinds": ["int", "float"]}, **kw))
    return out


def check_C03(res):
    mc_pdcalc(res)
    h = tlc_histories("SessionGen", "SessionGen_ops.cfg", scale(150, 2500), 16, SEED + 2, res.stats)
    jobs = jobs_from(h, "C03", ("ops", 3), useobs=True)
    h = tlc_histories("SessionGen", "SessionGen_mix.cfg", scale(70, 800), 16, SEED + 3, res.stats)
    jobs += jobs_from(h, "C03", ("mix", 4), useobs=True, nobj=2, ndata=2, nmodel=2)
    jobs += big_jobs("C03", scale(6, 40), useobs=True)
    jobs += huge_jobs("C03", scale(6, 30), useobs=True)
    run(res, jobs)


def check_fit(res, prop, cfg, base, nq, nt, big=0):
    h = tlc_histories("SessionGen", cfg, scale(nq, nt), 16, SEED + base, res.stats)
    jobs = jobs_from(h, prop, ("hist", base), useobs=False, nobj=2)
    h = tlc_histories("SessionGen", "SessionGen_single.cfg", scale(4 * nq, 4 * nt), 6, SEED + base + 1, res.stats)
    meth = {"C04": "H", "C05": "H", "C06": "G", "C08": "A"}.get(prop)
    h = [x for x in h if meth is None or x[-1]["meth"] == meth]
    jobs += jobs_from(h, prop, ("one", base + 1), useobs=False)
    for j in range(scale(big, 6 * big)):
        jobs.append(dict(id="%s-big-%d" % (prop, j), seed=SEED * 11 + 880000 + j, asp=[prop], useobs=False,
                         hist=[{"e": "fit", "meth": meth or "HGI"[j % 3], "k": 0, "d": 1, "m": 1, "fs": 1 + j % 6, "norm": j % 3 > 0,
                                "ova": True, "none": j % 2 == 0, "b": 1 + j % 6, "obj": 1}],
                         opts={"n": 20 + (j * 9) % 40, "nf": 4, "maxlev": 9, "style": 1 if j % 4 else 5} if j % 3 else
                         {"n": 40, "nf": 2, "maxlev": 24, "style": 3, "full": True, "kinds": ["int", "float"]}))
    run(res, jobs)


def check_C04(res):
    check_fit(res, "C04", "SessionGen_H.cfg", 40, 150, 2000, 6)


def check_C05(res):
    check_fit(res, "C05", "SessionGen_H.cfg", 50, 150, 2000, 6)


def check_C06(res):
    check_fit(res, "C06", "SessionGen_G.cfg", 60, 150, 2000, 6)


def check_C07(res):
    check_fit(res, "C07", "SessionGen_I.cfg", 70, 150, 2000, 6)


def check_C08(res):
    check_fit(res, "C08", "SessionGen_A.cfg", 80, 200, 2500, 6)


def check_C02(res):
    mc_pdcalc(res)
    h = tlc_histories("SessionGen", "SessionGen_mix.cfg", scale(160, 2000), 16, SEED + 20, res.stats)
    jobs = jobs_from(h, "C02", ("mix", 20), useobs=True, ndata=2, nmodel=2, nobj=2)
    # calculators handed to fits of any model and any of three similar data sets
    h = tlc_histories("SessionGen", "SessionGen_mis.cfg", scale(90, 1500), 18, SEED + 21, res.stats)
    jobs += jobs_from(h, "C02", ("mis", 21), useobs=True, ndata=3, nmodel=2, nobj=2)
    # data of which only a cell differs, in any row of many
    for j in range(scale(16, 120)):
        hist = [{"e": "calc", "d": 1, "m": 1, "custom": j % 2 == 0, "b": 6}]
        for x in range(4):
            fit = {"e": "fit", "meth": "HGIA"[(x + j) % 4], "k": 1, "m": 1, "fs": 1 + (j + x) % 6, "norm": True, "ova": True,
                   "none": (j + x) % 3 == 0, "b": 6, "obj": 1}
            hist += [dict(fit, d=2 + (j + x) % 2), dict(fit, d=1)][:1 + (j + x) % 2]
        jobs.append(dict(id="C02-near-%d" % j, seed=SEED * 19 + 550000 + j, hist=hist, asp=["C02"], useobs=True, ndata=3, nmodel=1,
                         nobj=2, opts={"n": 6 + j * 7 % 40, "maxlev": 3, "near": True}))
    run(res, jobs)


def check_C22(res):
    h = tlc_histories("SessionGen", "SessionGen_src.cfg", scale(150, 2000), 16, SEED + 30, res.stats)
    jobs = jobs_from(h, "C22", ("src", 30), useobs=False, ndata=1, nmodel=2, nobj=2)
    run(res, jobs)
