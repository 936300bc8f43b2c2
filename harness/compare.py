"""Compares pairs of really fitted methods with FeatureInteractionMethodComparator, recorded for spec/Compare.tla."""
import itertools
import random
import re

import numpy as np
import pandas as pd

import life
from common import enc
from life import plt, World, FeatureInteractionMethodComparator

KINDS = ["pearson", "kendall", "spearman"]


def fitted(w, rng, c):
    """A fitted object of class c, and whether smaller is stronger."""
    o = w.new(c, rng.randrange(100), rng.randrange(2))
    for _ in range(rng.choice([1, 1, 2])):
        v = rng.randint(1, 40)
        args, kw, fs, info = w.fit_args(c, v, False)
        life.do_fit(c, o, args, kw)
    return o, info["asc"]


def drive(job):
    rng = random.Random(job["seed"])
    w = World(job["seed"], nf=rng.choice([3, 4, 4, 5]), big=True, size=job.get("size", ""))
    c1, c2 = job["cls"]
    base = {"id": job["id"], "cls": [c1, c2], "nf": w.nf, "asc": [0, 0], "tab": [[], []], "ev": [], "_job": job}
    objs, asc, tabs = [], [], []
    for c in (c1, c2):
        try:
            o, a = fitted(w, rng, c)
        except Exception as x:
            base["ev"].append({"err": "fit:" + type(x).__name__})
            return [base]
        objs.append(o)
        asc.append(a)
        tabs.append(w.tables(c, o)["ovo"])
    if c1 == c2 and job["same"]:
        objs[1], asc[1], tabs[1] = objs[0], asc[0], tabs[0]
    base["asc"], base["tab"] = list(asc), list(tabs)
    names = w.names
    out = [base]
    shared = FeatureInteractionMethodComparator()
    for num, mode in enumerate(job["hist"]):
        if num and rng.random() < .35:           # the same objects, fitted anew, on the same comparator
            k = rng.randrange(2)
            try:
                args, kw, fs, info = w.fit_args((c1, c2)[k], rng.randint(1, 40), False)
                life.do_fit((c1, c2)[k], objs[k], args, kw)
            except Exception as x:
                base["ev"].append({"err": "fit:" + type(x).__name__})
                return out
            for j in (0, 1):
                if objs[j] is objs[k]:
                    asc[j], tabs[j] = info["asc"], w.tables((c1, c2)[k], objs[k])["ovo"]
            base = dict(base, id="%s.%d" % (job["id"], num), ev=[], asc=list(asc), tab=list(tabs))
            out.append(base)
        e = {"err": "", "swap": mode["swap"], "hascorr": True, "plotted": False, "vague": False, "corr": [], "pts": [], "labels": [],
             "xinv": 0, "yinv": 0, "box": False, "boxv": [], "prs": [], "nlab": 3, "axes": 0, "strict": c1 != "C" and c2 != "C"}
        base["ev"].append(e)
        m1, m2 = (objs[1], objs[0]) if mode["swap"] else (objs[0], objs[1])
        plt.close("all")
        try:
            vals = []
            for f, g in itertools.combinations_with_replacement(range(w.nf), 2):
                have = all(any({r[0], r[1]} == {f + 1, g + 1} and r[2][0] in (-1, 0, 1) for r in t) for t in tabs)
                if have:
                    a, b = (float(o.interaction_value(names[f], names[g])) for o in objs)
                    vals.append((f + 1, g + 1, a, b))
            codes = [{x: k for k, x in enumerate(sorted({v[j] for v in vals}))} for j in (2, 3)]
            e["prs"] = [[f, g, enc(a), enc(b), codes[0][a], codes[1][b]] for f, g, a, b in vals]
            for j, c in ((2, c1), (3, c2)):     # means of two directions: equal up to rounding only
                if c == "C":
                    s = sorted({v[j] for v in vals})
                    e["vague"] |= any(y - x < 1e-7 for x, y in zip(s, s[1:]))
            cm = shared if mode["swap"] or rng.random() < .6 else FeatureInteractionMethodComparator()
            if mode["k"] == "correlation":
                e["corr"] = [enc(cm.correlation(m1, m2, k)) for k in KINDS]
                if rng.random() < .5:
                    e["corr"][1] = enc(cm.correlation(m1, m2))
            else:
                if mode["k"] == "correlations":
                    df = cm.correlations(m1, m2)
                else:
                    if mode["k"] == "summary":
                        cm.summary(m1, m2)
                        df = cm.correlations_df
                        fig, ax = cm.ovo_profiles_comparison_plot
                        e["box"] = True
                    else:
                        df = cm.correlations(m1, m2)
                        e["box"] = mode["box"]
                        e["nlab"] = mode["lab"]
                        fig, ax = cm.comparison_plot(m1, m2, n_labels=mode["lab"], add_correlation_box=mode["box"])
                    observe(e, ax, names)
                    if m1.method != m2.method:
                        e["axes"] = int(m2.method in ax.get_xlabel() and m1.method not in ax.get_xlabel()
                                        or m1.method in ax.get_ylabel() and m2.method not in ax.get_ylabel())
                got = dict(zip(df["method"], df["value"]))
                e["corr"] = [enc(got[k]) for k in KINDS]
        except Exception as x:
            e["err"] = type(x).__name__
        plt.close("all")
    return out


def observe(e, ax, names):
    e["plotted"] = True
    pts = [p for c in ax.collections for p in np.asarray(c.get_offsets()).tolist()]
    e["pts"] = [[enc(x), enc(y)] for x, y in pts]
    e["xinv"], e["yinv"] = int(ax.xaxis_inverted()), int(ax.yaxis_inverted())
    for t in ax.texts:
        s = t.get_text()
        if hasattr(t, "xy"):
            prs = [[f + 1, g + 1] for f, g in itertools.product(range(len(names)), repeat=2) if s == names[f] + "-" + names[g]]
            e["labels"].append({"at": [enc(t.xy[0]), enc(t.xy[1])], "prs": prs})
        elif e["box"]:
            got = {k.lower(): v for k, v in re.findall(r"(Pearson|Kendall|Spearman)\s*[=:]\s*(\S+)", s, re.I)}
            e["boxv"] = [enc(float(got[k])) if k in got else [8] for k in KINDS]
    if e["box"] and not e["boxv"]:
        e["boxv"] = [[8]] * 3
