"""Plots of really fitted methods, read back from matplotlib's artists: plots (spec/Plots.tla), profiles and zenplots
(spec/Zen.tla)."""
import itertools
import random

import numpy as np
from matplotlib import colors as mcolors
from matplotlib.axes import Axes
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from matplotlib.patches import FancyArrowPatch, Rectangle

import life
import boost
import tab
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from artemis.visualizer import PartialDependenceVisualizer
from common import enc
from life import ExtraTreesRegressor, GBTreesHandler, LStub, World, pd, plt, xgb

DEPTH_COLORS = ["#e41a1c", "#377eb8", "#4daf4a", "#984ea3", "#ff7f00", "#ffff33"]
OWN_COLORS = ["black", "#0000ff", "red", "#00ff00", "orange", "purple"]


# ------------------------------------------------------------------ reading figures
def is_cbar(ax):
    return hasattr(ax, "_colorbar") or ax.get_label() == "<colorbar>"


def main_axes(fig):
    return [ax for ax in fig.axes if not is_cbar(ax)]


def pair_of(names, s, sep=":"):
    for f, g in itertools.product(range(len(names)), repeat=2):
        if s == names[f] + sep + names[g]:
            return [f + 1, g + 1]
    return [names.index(s) + 1, 0] if s in names else [0, 0]


def bars(ax, names):
    """Horizontal bars from top to bottom of the figure: [f, g, length]."""
    ticks = [(t, lab.get_text()) for t, lab in zip(ax.get_yticks(), ax.get_yticklabels())]
    out = []
    for p in ax.patches:
        if isinstance(p, Rectangle):
            y = p.get_y() + p.get_height() / 2
            lab = [s for t, s in ticks if abs(t - y) < 1e-6]
            top = ax.transData.transform((0, y))[1]
            out.append((-top, pair_of(names, lab[0] if len(lab) == 1 else "?") + [enc(p.get_width() if p.get_x() == 0 else None)]))
    return [b for _, b in sorted(out, key=lambda x: x[0])]


def mesh_grid(m):
    co = np.asarray(m.get_coordinates())
    r, c = co.shape[0] - 1, co.shape[1] - 1
    return np.ma.asarray(m.get_array()).reshape(r, c), co


def heat(ax, names):
    xl = {round(t - .5): s.get_text() for t, s in zip(ax.get_xticks(), ax.get_xticklabels())}
    yl = {round(t - .5): s.get_text() for t, s in zip(ax.get_yticks(), ax.get_yticklabels())}
    notes = {}
    for t in ax.texts:
        x, y = t.get_position()
        notes.setdefault((round(y - .5), round(x - .5)), []).append(t.get_text())
    out, shape = [], (0, 0)
    for k, m in enumerate(c for c in ax.collections if isinstance(c, QuadMesh)):
        a, _ = mesh_grid(m)
        shape = a.shape
        mask = np.ma.getmaskarray(a)
        rgb = np.asarray(m.cmap(m.norm(np.ma.filled(a.astype(float), 0))))
        dark = np.rint(1000 * (1 - rgb[..., :3] @ [.2126, .7152, .0722])).astype(int)
        for i, j in np.ndindex(a.shape):
            if not mask[i, j] and np.isfinite(float(a[i, j])):
                # seaborn 0.12 with matplotlib 3.8 annotates the first row only, and masked cells with "--"
                txt = [t for t in notes.get((i, j), []) if t != "--"]
                f, g = (names.index(d[k]) + 1 if d.get(k) in names else 0 for d, k in ((yl, i), (xl, j)))
                out.append([f, g, enc(a[i, j]), enc(txt[0]) if len(txt) == 1 else [8], k, int(dark[i, j])])
    return {"cells": out, "rows": [yl.get(k, "") for k in range(shape[0])], "cols": [xl.get(k, "") for k in range(shape[1])]}


def graph(ax, names):
    nodes = np.concatenate([np.asarray(c.get_offsets()).reshape(-1, 2) for c in ax.collections if isinstance(c, PathCollection)]
                           or [np.zeros((0, 2))])
    sizes = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            z = np.ravel(c.get_sizes())
            sizes += [float(z[k % len(z)]) if len(z) else None for k in range(len(np.asarray(c.get_offsets()).reshape(-1, 2)))]
    where, rest = {}, []
    for t in ax.texts:
        p = np.array(t.get_position())
        if t.get_text() in names and len(nodes) and np.min(np.linalg.norm(nodes - p, axis=1)) < 1e-6:
            where[t.get_text()] = p
        else:
            rest.append((p, t.get_text()))

    def feat(p):
        hit = [names.index(n) + 1 for n, q in where.items() if np.linalg.norm(q - p) < 1e-6]
        return hit[0] if len(hit) == 1 else 0

    edges = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            seg, lw = c.get_segments(), np.ravel(c.get_linewidths())
            edges += [[feat(s[0]), feat(s[-1]), enc(lw[k % len(lw)])] for k, s in enumerate(seg)]
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch) and p._posA_posB is not None:
            a, b = (np.array(q) for q in p._posA_posB)
            if np.linalg.norm(a - b) > 1e-9 or not edges:
                edges.append([feat(a), feat(b), enc(p.get_linewidth())])
    labels = []
    for p, s in rest:
        prs = [[names.index(n) + 1, names.index(m) + 1] for (n, q), (m, r) in itertools.product(where.items(), repeat=2)
               if np.linalg.norm((q + r) / 2 - p) < 1e-6]
        labels.append({"prs": prs, "v": enc(s)})
    node = sorted((names.index(n) + 1, enc(sizes[int(np.argmin(np.linalg.norm(nodes - q, axis=1)))])) for n, q in where.items())
    return {"nodes": [f for f, _ in node], "sizes": [z for _, z in node], "edges": edges, "labels": labels}


def cond(ax, names):
    ticks = [(round(t), s.get_text()) for t, s in zip(ax.get_xticks(), ax.get_xticklabels())]
    out = {"labels": [pair_of(names, s) for _, s in sorted(ticks)], "bars": [], "dots": [], "sticks": []}
    for p in ax.patches:
        if isinstance(p, Rectangle) and np.isfinite(p.get_height()):
            rgb = "%02x%02x%02x" % tuple(round(255 * v) for v in p.get_facecolor()[:3])
            out["bars"].append([round(p.get_x() + p.get_width() / 2) + 1, enc(p.get_y() + p.get_height()), rgb])
    for c in ax.collections:
        if isinstance(c, PathCollection):
            for x, y in np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan):
                if np.isfinite(y):
                    out["dots"].append([round(x) + 1, enc(y)])
        elif isinstance(c, LineCollection):
            for g in c.get_segments():
                if len(g) == 2 and np.isfinite(np.asarray(g, dtype=float)).all():
                    out["sticks"].append([round(g[0][0]) + 1, enc(g[0][1]), enc(g[1][1])])
    return out


def lolli(ax, names, cols):
    rgba = [mcolors.to_rgba(c)[:3] for c in cols]
    out = {"pts": [], "labels": [], "line": [[int(round(x)) - 1, enc(y)] for li in ax.lines for x, y in zip(*li.get_data())]}
    for c in ax.collections:
        if isinstance(c, PathCollection) and len(c.get_offsets()):
            depth = [k for k, r in enumerate(rgba) if np.allclose(r, c.get_facecolor()[0][:3])]
            for x, y in np.asarray(c.get_offsets()):
                out["pts"].append([int(round(x)) - 1, depth[0] if depth else 99, enc(y)])
    for t in ax.texts:
        if hasattr(t, "xy"):
            f, g = pair_of(names, t.get_text())
            prs = [[f, g]] if g else [[0, f]]
            prs = prs if f or g else []
            out["labels"].append({"tree": int(round(t.xy[0])) - 1, "gain": enc(t.xy[1]), "prs": prs})
    return out


def kind_of(ax):
    if any(isinstance(c, QuadMesh) for c in ax.collections):
        return "heat"
    if any(isinstance(c, PathCollection) for c in ax.collections):
        return "graph"
    return "bars" if any(isinstance(p, Rectangle) for p in ax.patches) else "none"


# ------------------------------------------------------------------ fitting
class PlotWorld(World):
    """More pairs, and boosted models with many trees and stumps."""

    def __init__(self, seed, size=""):
        rng = random.Random(seed)
        super().__init__(seed, nf=rng.choice([3, 4, 4, 5]), big=True, size=size)
        # trees with few features each: pairs that never meet
        T = pd.DataFrame(np.random.RandomState(seed % 1000).randint(0, 6, size=(40, self.nf)), columns=self.names)
        t = T.values @ np.arange(1, self.nf + 1) + T.iloc[:, 0] * T.iloc[:, -1]
        if rng.random() < .6:
            self.forests[1] = ExtraTreesRegressor(rng.choice([2, 3, 5]), max_depth=rng.choice([1, 2, 2]), max_features=1,
                                                  random_state=rng.randrange(99)).fit(T, t)
        models = [boost.trained(rng, self.names, p) for p in ("xgboost", "lightgbm", "xgboost")] + [self.boost[1]]
        self.boost = models[:2] + [GBTreesHandler(m) for m in models[2:]]
        self.raw = dict(zip(map(id, self.boost), models))

    def nodes(self, m):
        """[tree, depth, gain, feature, parent, its gain] of all splits, and the number of trees; read from the model itself."""
        h = m.get_booster() if hasattr(m, "get_booster") else m.booster_ if hasattr(m, "booster_") else m
        out, n = [], 0
        if isinstance(h, xgb.Booster):
            df = h.trees_to_dataframe()
            rows = {r.ID: r for r in df.itertuples()}
            n = int(df["Tree"].max()) + 1
            todo = [(r.ID, 0, 0, enc(0)) for r in df.itertuples() if r.Node == 0]
            while todo:
                ident, d, par, pg = todo.pop()
                r = rows[ident]
                if r.Yes != r.Yes:          # a leaf ("Leaf" may also be a feature)
                    continue
                f = self.names.index(r.Feature) + 1
                out.append([int(r.Tree), d, enc(r.Gain), f, par, pg])
                todo += [(r.Yes, d + 1, f, enc(r.Gain)), (r.No, d + 1, f, enc(r.Gain))]
            return out, n
        for t in h.dump_model()["tree_info"]:
            n = max(n, t["tree_index"] + 1)
            todo = [(t["tree_structure"], 0, 0, enc(0))]
            while todo:
                r, d, par, pg = todo.pop()
                if "split_feature" not in r:
                    continue
                f = r["split_feature"] + 1
                out.append([t["tree_index"], d, enc(r["split_gain"]), f, par, pg])
                todo += [(r["left_child"], d + 1, f, enc(r["split_gain"])), (r["right_child"], d + 1, f, enc(r["split_gain"]))]
        return out, n


def order_codes(vals, extra=()):
    """Integers ordering vals exactly (-1 for those that are not defined); extra values get theirs too."""
    fin = sorted({float(v) for v in list(vals) + list(extra) if v is not None and not np.isnan(v)})
    ix = {v: 2 * k for k, v in enumerate(fin)}
    return [ix.get(float(v), -1) if v is not None and not np.isnan(v) else -1 for v in vals], [ix[float(x)] for x in extra]


DEFAULT_THR = {"H": 0.05, "G": 0.05, "S": 0.1, "C": 0.6, "B": 0.1}


def bystander(w, c, rng):
    """Another object of the class is fitted in another way."""
    if rng.random() < .5:
        b = w.new(c, rng.randrange(50), rng.randrange(2))
        args, kw, _, _ = w.fit_args(c, rng.randint(1, 8), False)
        try:
            life.do_fit(c, b, args, kw)
        except Exception:
            pass


def drive(job):
    rng = random.Random(job["seed"])
    w = PlotWorld(job["seed"], job.get("size", ""))
    c = job["cls"]
    o = w.new(c, rng.randrange(50), rng.randrange(2))
    ev = []
    case = {"id": job["id"], "nf": w.nf, "ev": ev, "_job": job}
    model, info = None, None
    for h in job["hist"]:
        if h["fit"]:
            args, kw, fs, info = w.fit_args(c, h["v"], False)
            model = args[0]
            e = {"e": "fit", "c": c, "err": ""}
            ev.append(e)
            try:
                life.do_fit(c, o, args, kw)
                e["tab"] = w.tables(c, o)
            except Exception as x:
                e["err"] = "fit:" + type(x).__name__
                return case
            bystander(w, c, rng)
        vis = h["vis"]
        if vis == "bar_chart_ova" and o.ova is None:
            vis = "bar_chart"
        vals = [float(v) for v in o.ovo[o.method].tolist()]
        if any(np.isinf(v) for v in vals):
            return case                        # H of a pair without any joint variation: 0 / 0 up to rounding
        fin = sorted({v for v in vals if np.isfinite(v)})
        imp = [v for v in o.feature_importance["Importance"].tolist() if np.isfinite(v)]
        if vis in ("heatmap", "summary", "graph") and not imp:
            vis = "bar_chart"                  # a model without any split: nothing to plot
        thr = DEFAULT_THR[c]
        gkw = {}
        if h["thr"] == "value" and fin:
            thr = gkw["threshold_relevant_interaction"] = rng.choice([v for v in fin if v >= 0] or [0.0])
        elif h["thr"] == "between" and len(fin) > 1:
            k = rng.randrange(len(fin) - 1)
            if fin[k] >= 0:
                thr = gkw["threshold_relevant_interaction"] = (fin[k] + fin[k + 1]) / 2
        elif h["thr"] == "zero":
            thr = gkw["threshold_relevant_interaction"] = 0.0
        elif h["thr"] == "above" and fin:
            thr = gkw["threshold_relevant_interaction"] = abs(fin[-1]) + 1.0
        if h["nlab"] != 5:
            gkw["n_highest_with_labels"] = h["nlab"]
        hkw = {} if h["fmt"] == 3 else {"annot_fmt": ".%df" % h["fmt"]}
        bkw = {"top_k": h["topk"]} if h["topk"] else {}
        okw = {"top_k": h["topk2"]} if h["topk2"] else {}
        if vis != "summary":
            okw = bkw
        cols = OWN_COLORS if rng.random() < .5 else DEPTH_COLORS
        lkw = {"max_depth": h["depth"]} if h["depth"] != 1 else {}
        if h["frac"] != 2:
            lkw["max_trees"] = h["frac"] / 10 if h["frac"] < 10 else 1
        if cols is OWN_COLORS:
            lkw["colors"] = cols
        lthr, labelled = rng.choice([1, 1, 5, 10]), rng.random() < .8
        if lthr != 1:
            lkw["label_threshold"] = lthr / 10
        if not labelled:
            lkw["labels"] = False
        if vis == "lollipop" and not w.nodes(w.raw[id(model)])[0]:
            vis = "bar_chart"
        kw = {"heatmap": hkw, "graph": gkw, "bar_chart": bkw, "bar_chart_ova": okw, "bar_chart_conditional": bkw, "lollipop": lkw}
        kwargs = kw.get(vis, {})
        if vis == "summary":
            kwargs = {k: v for k, v in (("heatmap", hkw), ("graph", gkw), ("bar_chart", bkw), ("bar_chart_ova", okw)) if v}
        if h["title"]:
            kwargs = dict(kwargs, title=rng.choice(["", "A title", "two\nlines"]))
        size = rng.choice([None, None, (5, 4), (9.5, 3)])
        if size:
            kwargs = dict(kwargs, figsize=size)
        codes, (tc, zc) = order_codes(vals, [thr, 0.0])
        dk = 10 if vis != "bar_chart_conditional" else 15
        e = {"e": "plot", "c": c, "err": "", "vis": vis, "asc": info["asc"], "iasc": info["iasc"], "code": codes, "thr": tc, "zero": zc, "topk": h["topk"] or dk,
             "topk2": okw.get("top_k", dk), "tq": "'" + kwargs["title"] if "title" in kwargs else "", "ts": [], "nlab": h["nlab"], "tol": 51 * 10 ** (6 - h["fmt"]),
             "frac": h["frac"], "depth": h["depth"], "bars": [], "heat": [], "graph": [], "cond": [], "lol": [], "nodes": [], "ntrees": 0, "lthr": lthr, "labelled": int(labelled),
             "size": [round(x * 10) for x in size] if size and vis != "summary" else [], "shown": [],
             "_kw": repr(kwargs)}
        ev.append(e)
        if vis == "lollipop":
            e["nodes"], e["ntrees"] = w.nodes(w.raw[id(model)])
        plt.close("all")
        try:
            o.plot(vis, **kwargs)
        except Exception as x:
            e["err"] = type(x).__name__
            plt.close("all")
            continue
        fig = plt.gcf()
        e["shown"] = [round(x * 10) for x in fig.get_size_inches()]
        e["ts"] = ["'" + t for t in ([ax.get_title() for ax in main_axes(fig)] if vis != "summary" else [])
                   + ([fig._suptitle.get_text()] if fig._suptitle else [])]
        names = w.names
        for ax in main_axes(fig):
            if vis == "bar_chart_conditional":
                e["cond"].append(cond(ax, names))
            elif vis == "lollipop":
                e["lol"].append(lolli(ax, names, cols))
            else:
                k = kind_of(ax)
                if k == "heat":
                    e["heat"].append(heat(ax, names))
                elif k == "graph":
                    e["graph"].append(graph(ax, names))
                elif k == "bars":
                    e["bars"].append(bars(ax, names))
        plt.close("all")
    return case


# ------------------------------------------------------------------ profiles and zenplots
class Contours:
    """Records what is handed to matplotlib's contour functions."""

    def __enter__(self):
        self.calls = []
        self.saved = {n: getattr(Axes, n) for n in ("contour", "contourf")}
        for n, fn in self.saved.items():
            def rec(ax, *a, _n=n, _fn=fn, **k):
                drawn = _fn(ax, *a, **k)
                self.calls.append((_n, ax, a, drawn))
                return drawn
            setattr(Axes, n, rec)
        return self

    def __exit__(self, *a):
        for n, fn in self.saved.items():
            setattr(Axes, n, fn)


def mesh_cells(w, ax, xf, yf, grids, rows):
    """[level of xf, level of yf, value] as shown at the levels' positions."""
    out = []
    if not (xf and yf):
        return out
    xs = at_axis(ax.convert_xunits, w.data.values[xf - 1])
    ys = at_axis(ax.convert_yunits, w.data.values[yf - 1])
    for a, ex, ey in grids:
        for (i, y), (j, x) in itertools.product(enumerate(ys), enumerate(xs)):
            if x is None or y is None or not any(q[xf - 1] == j + 1 for q in rows) or not any(q[yf - 1] == i + 1 for q in rows):
                continue
            r, q = find(ey, y), find(ex, x)
            if r is not None and q is not None:
                v = a[r, q]
                out.append([j + 1, i + 1, [2] if v is np.ma.masked or not np.isfinite(v) else enc(v)])
    return out


def at_axis(conv, values):
    out = []
    for v in values:
        try:
            x = float(conv(v))
        except (TypeError, ValueError):
            x = None
        out.append(x if x is not None and np.isfinite(x) else None)
    return out


def find(edges, x):
    for k in range(len(edges) - 1):
        lo, hi = sorted((edges[k], edges[k + 1]))
        if lo - 1e-12 <= x <= hi + 1e-12:
            return k
    return None


def grids_of(ax):
    out = []
    for m in [c for c in ax.collections if isinstance(c, QuadMesh)]:
        a, co = mesh_grid(m)
        out.append((a, co[0, :, 0], co[:, 0, 1]))
    return out


def contour_cells(w, calls, ax, xf, yf):
    """Cells handed to the filled and to the line contours of these axes; every call must agree."""
    per = []
    for _, a2, args, _ in calls:
        if a2 is not ax or len(args) < 3 or not (xf and yf):
            continue
        X, Y, Zv = np.asarray(args[0]), np.asarray(args[1]), np.ma.asarray(args[2])
        dx = {v: k + 1 for k, v in enumerate(w.data.values[xf - 1])}
        dy = {v: k + 1 for k, v in enumerate(w.data.values[yf - 1])}
        per.append([[dx.get(X[j].item(), 0), dy.get(Y[i].item(), 0), enc(float(Zv[i, j]))] for i, j in np.ndindex(Zv.shape)])
    return [x for p in per for x in p]


def idx(w, s):
    return w.names.index(s) + 1 if s in w.names else 0


def drive_zen(job):
    rng = random.Random(job["seed"])
    w = World(job["seed"], nf=rng.choice([3, 4, 4, 5]), big=True, numeric=rng.random() < .4, size=job.get("size", ""))
    c = job["cls"]
    o = w.new(c, rng.randrange(50), rng.randrange(2))
    lev = [len(v) for v in w.data.values]
    ev = []
    case = {"id": job["id"], "nf": w.nf, "lev": lev, "ev": ev, "_job": job}
    numeric = all(w.data.num)
    for h in job["hist"]:
        if h["fit"]:
            args, kw, fs, info = w.fit_args(c, h["v"], False)
            e = {"e": "fit", "c": c, "err": "", "rows": [], "terms": args[0].terms, "ovo": [], "code": []}
            ev.append(e)
            try:
                life.do_fit(c, o, args, kw)
                rows = e["rows"] = [list(r) if r else [0] * w.nf for r in w.data.codes(o.X_sampled)]
                e["ovo"] = w.tables(c, o)["ovo"]
                e["code"] = order_codes(o.ovo[o.method].tolist())[0]
            except Exception as x:
                e["err"] = "fit:" + type(x).__name__
                return case
            sel = list(fs)
            small = any(len(set(np.asarray(o.X_sampled[f]).tolist())) < 2 for f in sel)
        f1, f2 = rng.sample(sel, 2)
        kind = h["kind"] if numeric and not small and (c == "G") else "colormesh"
        e = {"e": h["k"], "err": "", "f1": idx(w, f1), "f2": idx(w, f2), "x": 0, "y": 0, "pts": [], "cells": [], "panels": [],
             "len": h["len"], "_kind": kind}
        ev.append(e)
        plt.close("all")
        with Contours() as rec:
            try:
                if h["k"] == "one":
                    o.plot_profile(f1)
                elif h["k"] == "two":
                    o.plot_profile(f1, f2, kind=kind)
                else:
                    o.plot_zenplot(h["len"], kind=kind)
            except Exception as x:
                e["err"] = type(x).__name__
                plt.close("all")
                continue
        fig = plt.gcf()
        axs = main_axes(fig)
        if h["k"] == "one":
            ax = axs[0]
            e["x"] = idx(w, ax.get_xlabel())
            for ln in ax.lines:
                vals = w.data.values[e["f1"] - 1]
                dec = {v: k + 1 for k, v in enumerate(at_axis(ax.convert_xunits, vals))}
                xs, ys = np.asarray(ln.get_xdata(orig=False), dtype=float), np.asarray(ln.get_ydata(orig=False), dtype=float)
                at = {x: k for k, x in enumerate(sorted(set(xs.tolist())))}
                e["pts"] += [[dec.get(x, 0), enc(y), at[x]] for x, y in zip(xs.tolist(), ys.tolist())]
        elif h["k"] == "two":
            ax = axs[0]
            e["x"], e["y"] = idx(w, ax.get_xlabel()), idx(w, ax.get_ylabel())
            e["cells"] = mesh_cells(w, ax, e["x"], e["y"], grids_of(ax), rows) + contour_cells(w, rec.calls, ax, e["x"], e["y"])
        else:
            pan = []
            for ax in axs:
                ss = ax.get_subplotspec()
                if ss is not None:
                    pan.append((ss.rowspan.start, ss.colspan.start, ax))
            pan.sort(key=lambda t: (t[0] + t[1], t[0]))
            raw = [(idx(w, ax.get_title()), idx(w, ax.get_ylabel()), int(col > row), ax) for row, col, ax in pan]
            for k, (xt, yt, vert, ax) in enumerate(raw):
                nx_ = raw[k + 1] if k + 1 < len(raw) else (0, 0, 0, None)
                xf, yf = xt or nx_[0], yt or nx_[1]
                cells = mesh_cells(w, ax, xf, yf, grids_of(ax), rows) + contour_cells(w, rec.calls, ax, xf, yf)
                norms = [m.norm for m in ax.collections if isinstance(m, QuadMesh)]
                lo, hi = (norms[0].vmin, norms[0].vmax) if norms else (None, None)
                for what, a2, _, drawn in rec.calls:
                    if a2 is ax and what == "contourf":
                        lo, hi = drawn.norm.vmin, drawn.norm.vmax
                e["panels"].append({"x": xf, "y": yf, "vert": vert, "cells": cells, "lo": enc(lo), "hi": enc(hi)})
        plt.close("all")
    return case



# ------------------------------------------------------------------ the stand-alone visualizer
class SkRegressor(LStub, RegressorMixin, BaseEstimator):
    """The table model as a fitted scikit-learn estimator."""
    def __sklearn_is_fitted__(self):
        return True

    def fit(self, X, y):
        return self


class SkClassifier(LStub, ClassifierMixin, BaseEstimator):
    """Second-class probabilities are the table's values scaled to [0, 1]."""
    def __sklearn_is_fitted__(self):
        return True
    classes_ = np.array([0, 1])
    SCALE = 4096.0

    def fit(self, X, y):
        return self

    def predict_proba(self, df):
        p = .5 + super().predict(df) / self.SCALE
        return np.column_stack([1 - p, p])

    def predict(self, df):
        return (self.predict_proba(df)[:, 1] > .5).astype(int)


def flat(terms, lev, rows, f, g):
    """A pair without any joint variation: scikit-learn cannot draw contours of a constant."""
    out = set()
    for a, b in itertools.product({r[f] for r in rows}, {r[g] for r in rows}):
        out.add(sum(tab.eval_terms(terms, lev, [a if k == f else b if k == g else v for k, v in enumerate(r)]) for r in rows))
    return len(out) < 2


def drive_skl(job):
    rng = random.Random(job["seed"])
    w = World(job["seed"], nf=rng.choice([3, 3, 4]), big=True, numeric=True, size=job.get("size", ""))
    lev = [len(v) for v in w.data.values]
    ev = []
    case = {"id": job["id"], "nf": w.nf, "lev": lev, "ev": ev, "_job": job}
    for h in job["hist"]:
        if h["fit"]:
            m = w.models[h["v"] % 2]
            clf = h["v"] % 3 == 0
            model = (SkClassifier if clf else SkRegressor)(w.data, m.terms)
            k = rng.randint(3, w.n) if h["v"] % 5 == 0 else w.n
            X = w.X.iloc[:k]
            if h["v"] % 4 == 1:              # some rows several times
                X = X.iloc[[rng.randrange(k) for _ in range(rng.choice([k, k, 30, 70, 240]))]]
            vis = PartialDependenceVisualizer(model, X)
            rows = [list(r) for r in w.data.codes(X)]
            ev.append({"e": "fit", "c": "G", "err": "", "rows": rows, "terms": m.terms, "ovo": [], "code": []})
        evs, f = [], []
        byname = rng.random() < .6
        for _ in range(rng.choice([1, 1, 1, 2, 3])):      # profiles of one call
            f1, f2 = rng.sample(w.names, 2)
            one = h["k"] == "one" or (evs and rng.random() < .5)
            small = len({r[w.idx[f1] - 1] for r in rows}) < 2 or len({r[w.idx[f2] - 1] for r in rows}) < 2
            one = one or small or flat(model.terms, lev, rows, w.idx[f1] - 1, w.idx[f2] - 1)
            evs.append({"e": "one" if one else "two", "err": "", "f1": idx(w, f1), "f2": idx(w, f2), "x": 0, "y": 0, "pts": [],
                        "cells": [], "panels": [], "len": 0, "tq": "", "ts": []})
            f.append((f1 if byname else w.idx[f1] - 1) if one else (f1, f2) if byname else (w.idx[f1] - 1, w.idx[f2] - 1))
        e = evs[0]
        kw = {}
        if h["len"] % 2:
            kw["title"] = rng.choice(["", "A title %d" % h["len"]])
            e["tq"] = "'" + kw["title"]
        if h["len"] > 4:
            kw["grid_resolution"] = 50 if job.get("size") else rng.choice([20, 50])
        back = (lambda v: (v - .5) * SkClassifier.SCALE) if clf else (lambda v: v)
        plt.close("all")
        with Contours() as rec:
            try:
                vis.plot(f, **kw)
            except Exception as x:
                e["err"] = type(x).__name__
                ev.append(e)
                plt.close("all")
                continue
        fig = plt.gcf()
        e["shown"] = [round(x * 10) for x in fig.get_size_inches()]
        e["ts"] = ["'" + ax.get_title() for ax in fig.axes]
        axs = [ax for ax in main_axes(fig) if ax.axison and (ax.lines or ax.collections)]
        for k, e in enumerate(evs):
            ev.append(e)
            if k >= len(axs):
                e["err"] = "no panel"
                continue
            ax = axs[k]
            e["x"] = idx(w, ax.get_xlabel())
            if e["e"] == "one":
                dec = {float(v): k + 1 for k, v in enumerate(w.data.values[e["f1"] - 1])}
                for ln in ax.lines:
                    at = {float(x): k for k, x in enumerate(sorted(set(ln.get_xdata())))}
                    e["pts"] += [[dec.get(float(x), 0), enc(back(float(y))), at[float(x)]]
                                 for x, y in zip(ln.get_xdata(), ln.get_ydata())]
                continue
            e["y"] = idx(w, ax.get_ylabel())
            if e["x"] and e["y"]:
                dx = {float(v): k + 1 for k, v in enumerate(w.data.values[e["x"] - 1])}
                dy = {float(v): k + 1 for k, v in enumerate(w.data.values[e["y"] - 1])}
                for _, a2, args, _ in rec.calls:
                    if a2 is not ax:
                        continue
                    XX, YY, Zv = (np.asarray(a, dtype=float) for a in args[:3])
                    if XX.ndim == 1:
                        XX, YY = np.meshgrid(XX, YY)
                    e["cells"] += [[dx.get(XX[p], 0), dy.get(YY[p], 0), enc(back(float(Zv[p])))] for p in np.ndindex(Zv.shape)]
        plt.close("all")
    return case
