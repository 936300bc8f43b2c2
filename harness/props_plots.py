"""C20 (spec Plots), C21 and C23 (spec Zen); both on PlotDef, PlotModel."""
from common import SEED, scale, model_check, tlc_histories, parallel, quick
import plots

SIZE = {3: "wide", 16: "tall"}


def model(res):
    for cfg in ["MCPlot.cfg", "MCPlotBig.cfg"] + ([] if quick() else ["MCPlotHuge.cfg", "MCPlotWide.cfg"]):
        model_check("PlotModel", cfg, res.stats)


def check_C20(res):
    model(res)
    h = tlc_histories("PlotGen", "PlotGen.cfg", scale(200, 3000), 12, SEED + 20, res.stats)
    jobs = [dict(id="C20-%d" % j, seed=SEED * 100057 + j * 43, cls=x["cls"], hist=x["hist"], size=SIZE.get(j % 25, "")) for j, x in enumerate(h)]
    res.run_cases("Plots", parallel(plots.drive, jobs))


def check_C21(res):
    model(res)
    h = tlc_histories("ZenGen", "ZenGen.cfg", scale(200, 3000), 12, SEED + 21, res.stats)
    jobs = [dict(id="C21-%d" % j, seed=SEED * 100069 + j * 47, cls=x["cls"], hist=x["hist"], size=SIZE.get(j % 25, "")) for j, x in enumerate(h)]
    res.run_cases("Zen", parallel(plots.drive_zen, jobs))


def check_C23(res):
    h = tlc_histories("ZenGen", "ZenGen.cfg", scale(200, 3000), 12, SEED + 23, res.stats)
    jobs = [dict(id="C23-%d" % j, seed=SEED * 100103 + j * 53, hist=x["hist"], size="long" if j % 25 == 7 else "") for j, x in enumerate(h)]
    res.run_cases("Zen", parallel(plots.drive_skl, jobs))
