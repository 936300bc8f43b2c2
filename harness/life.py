"""Drives whole objects of the library through TLC-generated histories (spec/LifeGen.tla): fits, rejected fits, plots,
look-ups and comparisons on several objects, and records them for spec/Life.tla."""
import itertools
import random
import warnings
import zlib

import numpy as np
import pandas as pd

import tab
from common import enc
from boost import BAD_NAMES, retrain

warnings.filterwarnings("ignore")

import lightgbm as lgb  # noqa: E402
import matplotlib  # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import xgboost as xgb  # noqa: E402
from sklearn.ensemble import ExtraTreesRegressor, RandomForestRegressor  # noqa: E402
from artemis._utilities._handler import GBTreesHandler  # noqa: E402
from artemis._utilities.pd_calculator import PartialDependenceCalculator  # noqa: E402
from artemis._utilities.performance_metrics import MSE, RMSE  # noqa: E402
from artemis.additivity import AdditivityMeter  # noqa: E402
from artemis.comparison import FeatureInteractionMethodComparator  # noqa: E402
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance  # noqa: E402
from artemis.importance_methods.model_specific import SplitScoreImportance  # noqa: E402
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod  # noqa: E402
from artemis.interactions_methods.model_agnostic.performance_based import SejongOhMethod  # noqa: E402
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod  # noqa: E402


INTER = "HGSCB"          # interaction methods
METRICS = ["mean_gain", "sum_gain", "mean_depth", "sum_cover", "mean_cover"]
IMETRICS = ["mean_gain", "sum_gain", "mean_depth", "mean_weighted_depth", "root_frequency", "weighted_root_frequency",
            "sum_cover", "mean_cover"]


def crc(x):
    return zlib.crc32(repr(x).encode("utf8", "surrogatepass")) & 0x7fffffff


def frame_fp(df):
    if df is None:
        return 0
    if isinstance(df, pd.Series):
        return crc(("s", str(df.dtype), df.index.tolist(), df.tolist(), df.name))
    if isinstance(df, np.ndarray):
        return crc(("a", str(df.dtype), df.shape, df.ravel().tolist()))
    return crc((list(df.columns), [str(t) for t in df.dtypes], df.index.tolist(), df.index.name, df.columns.name,
                [df.iloc[:, j].tolist() for j in range(df.shape[1])]))


class LStub:
    """A model given by tables over the data's levels."""

    def __init__(self, data, terms, form="array"):
        self.data, self.terms, self.form = data, terms, form
        self.lev = [len(v) for v in data.values]
        self._fail = None
        self._lens = []

    def predict(self, df):
        self._lens.append(len(df))
        if self._fail is not None:
            self._fail[0] -= 1
            if self._fail[0] == 0:
                raise self._fail[1]("the model fails")
        codes = self.data.codes(df)
        return tab.shaped(np.array([tab.BAD if r is None else tab.eval_terms(self.terms, self.lev, r) for r in codes], dtype=float),
                          df, self.form)


def squared(model, df):
    return np.asarray(model.predict(df)) ** 2


def absolute(model, df):
    return np.abs(np.asarray(model.predict(df)) - 3)


def model_fp(m):
    if isinstance(m, LStub):
        return crc((m.terms, m.lev, sorted(k for k in vars(m) if k != "_fail")))
    if isinstance(m, GBTreesHandler):
        return crc((m.package, frame_fp(m.trees_df)))
    if hasattr(m, "estimators_"):
        return crc(([(e.tree_.__getstate__()["nodes"].tobytes(), e.tree_.__getstate__()["values"].tobytes())
                     for e in m.estimators_], list(m.feature_names_in_), m.get_params()))
    b = m.get_booster() if hasattr(m, "get_booster") else m.booster_ if hasattr(m, "booster_") else m
    return crc(bytes(b.save_raw("json")) if isinstance(b, xgb.Booster) else b.model_to_string())


def numbered(cls, o):
    """1 if the rows of the tables carry the labels 0, 1, ... from the strongest on."""
    tabs = [getattr(o, a, None) for a in ("ovo", "ova", "feature_importance")[1 if cls == "C" else 0:]]
    return int(all(t.index.tolist() == list(range(len(t))) for t in tabs if isinstance(t, pd.DataFrame)))


class World:
    def __init__(self, seed, nf=None, big=False, numeric=False, custom=False, size=""):
        """size: "wide" for many features, "tall" for many rows and values, "long" for more values."""
        rng = self.rng = random.Random(seed)
        wide, tall = size == "wide", size in ("tall", "long")
        nf = 7 + seed % 2 if wide else 3 if tall else nf
        self.custom = custom
        nf = self.nf = nf or rng.choice([3, 3, 4])
        pool = [p for p in tab.NAME_POOLS]
        names = rng.sample([x for x in rng.choice(pool) if x not in BAD_NAMES] + (["q%d" % k for k in range(1, nf + 1)] if nf > 5 else ["q1", "q2", "q3"] if nf > 3 else []), nf)
        n = rng.randint(36, 60) if tall else rng.randint(7, 10)
        kinds = [rng.choice(["int", "float", "f32", "u8"] if numeric else ["int", "float", "int", "str", "cat", "f32", "i8"]) for _ in range(nf)]
        if tall:
            kinds = [k if k not in ("str", "cat") else "float" for k in kinds]
        values = [tab.column_values(rng, k, rng.choice([4, 11, 48] if size == "long" else [4, 11, 14] if tall else [2, 3] if wide else [3, 4, 5])) for k in kinds]
        rows = []
        while len(rows) < n:
            r = [rng.randrange(len(values[f])) for f in range(nf)]
            if tall:
                r = [len(rows) % len(v) if len(v) > 40 else c for c, v in zip(r, values)]
            if r not in rows:
                rows.append(r)
        self.data = tab.Data(names, values, kinds, rows, tab.make_index(rng, n))
        self.n, self.names, self.idx = n, names, self.data.idx
        X = self.X = self.data.X
        lev = [len(v) for v in self.data.values]
        labels = []
        for lab in X.index.tolist():
            if lab not in labels:
                labels.append(lab)
        self.label = {lab: k + 1 for k, lab in enumerate(labels)}
        self.ix = [self.label[lab] for lab in X.index.tolist()]
        self.models = [LStub(self.data, tab.make_terms(rng, self.data, s), rng.choice(tab.FORMS)) for s in rng.sample([1, 2, 2, 1] if size else [1, 2, 3, 5, 2, 4], 2)]
        # the same data once more with another row order: a different data frame
        rows2 = [[c - 1 for c in r] for r in self.data.rows]
        rows2 = rows2[1:] + rows2[:1]
        self.other = tab.Data(names, self.data.values, kinds, rows2, None).X
        self.yi = [rng.randint(-9, 9) + tab.eval_terms(self.models[0].terms, lev, r) for r in self.data.rows]
        y = [float(v) for v in self.yi]
        self.ys = [np.array(y), pd.Series(y, index=X.index), pd.Series(y)]
        # feature lists the caller passes in
        self.lists = [None] + [rng.sample(names, k) for k in ((nf - 1, nf, nf) if big else (2, 3 if nf > 3 else 2, nf))]
        r = np.random.RandomState(rng.randrange(10 ** 6))
        N = 40
        T = self.T = pd.DataFrame(r.randint(0, 6, size=(N, nf)), columns=names)
        if rng.random() < .3:
            T[names[rng.randrange(nf)]] = 2
        t = (T.iloc[:, 0] * T.iloc[:, 1] + T.iloc[:, 2] + r.randint(0, 4, N)).values
        sub = list(rng.sample(names, nf - 1)) if rng.random() < .3 and nf > 3 else names
        self.forests = [RandomForestRegressor(3, max_depth=4, random_state=1).fit(T, t),
                        ExtraTreesRegressor(4, max_depth=3, random_state=2).fit(T[sub], t)]
        self.boost = [xgb.XGBRegressor(n_estimators=4, max_depth=3, n_jobs=1).fit(T, t),
                      lgb.LGBMRegressor(n_estimators=4, num_leaves=6, min_child_samples=3, n_jobs=1, verbose=-1).fit(T, t)]
        self.boost.append(GBTreesHandler(self.boost[0]))
        self.boost.append(GBTreesHandler(self.boost[1]))
        self.calcs = [PartialDependenceCalculator(self.models[0], X), PartialDependenceCalculator(self.models[1], X),
                      PartialDependenceCalculator(self.models[0], self.other)]
        self.things = ([("X", self.X, frame_fp), ("other", self.other, frame_fp)]
                       + [("y%d" % k, v, frame_fp) for k, v in enumerate(self.ys)]
                       + [("features%d" % k, v, crc) for k, v in enumerate(self.lists)]
                       + [("model%d" % k, m, model_fp) for k, m in enumerate(self.models + self.forests + self.boost)]
                       + [("calculator data %d" % k, c, lambda c: frame_fp(c.X)) for k, c in enumerate(self.calcs)])
        # options the caller hands to plots, used over and over
        bars, heat, graph = {"top_k": 2, "color": "red"}, {"annot_fmt": ".2f", "linewidths": 1}, {"n_highest_with_labels": 2, "node_size": 900}
        self.opts = {"heatmap": heat, "graph": graph, "bar_chart": bars, "bar_chart_ova": {"top_k": 1, "color": "blue"},
                     "bar_chart_conditional": {"top_k": 3},
                     "lollipop": {"max_depth": 2, "colors": ["k", "r", "b", "g"], "shapes": ["o", ",", "v", "^"], "max_trees": 1},
                     "summary": {"heatmap": heat, "graph": graph, "bar_chart": bars, "bar_chart_ova": {"top_k": 1}}}
        self.things.append(("plot options", self.opts, lambda x: crc(repr(x))))

    def retrain(self, m, rng):
        """The caller trains the model object m again: same object, another model."""
        if isinstance(m, LStub):
            m.terms = tab.make_terms(rng, self.data, rng.choice([1, 2] if self.nf > 5 or self.n > 30 else [1, 2, 3, 5]))
        elif m in self.forests:
            t = rng.sample(range(40), 40)
            m.set_params(random_state=rng.randrange(99)).fit(self.T[list(m.feature_names_in_)], np.array(t) * (1 + self.T.iloc[:, 1].values))
        elif m in self.boost[:2]:
            t = np.array(rng.sample(range(40), 40)) * (1 + self.T.iloc[:, 2].values)
            retrain(m, type(m)(**m.get_params()).fit(self.T, t), "xgboost" if m is self.boost[0] else "lightgbm")

    def fit_args(self, cls, v, bad):
        """The v-th way to fit an object of this class: (positional args, keywords, selected features or [], info)."""
        rng = random.Random(1000 * ord(cls) + 10 * v + (5 if bad else 0) + self.n)
        info = {"n": 0, "asc": 0, "iasc": 0, "samp": 0}
        fs = []
        if cls in "HGIA":
            m = rng.choice(self.models)
            kw = {}
            fs = list(self.names)
            if cls != "A":
                k = rng.randrange(4)
                if self.lists[k] is not None or rng.random() < .5:
                    kw["features"] = self.lists[k]
                fs = list(self.lists[k] or self.names)
            if cls == "H" and (v % 3 == 0 or rng.random() < .2):
                kw["calculate_ova"] = False
            if bad:
                kw["pd_calculator"] = self.calcs[2 if v % 2 == 0 else 1 - self.models.index(m)]
                if v % 2 == 0:
                    m = self.models[0]
            elif v % 2 == 0:
                info["n"] = kw["n"] = rng.randint(3, self.n)
            elif v == 3:
                kw["pd_calculator"] = self.calcs[self.models.index(m)]
            if self.custom and "pd_calculator" not in kw and rng.random() < .4:
                kw["predict_function"] = rng.choice([squared, absolute])
            if rng.random() < .3:
                kw["batchsize"] = rng.choice([1, self.n, 3 * self.n])
            info["samp"] = 1
            return (m, self.X), kw, fs, info
        if cls in "SP":
            m = rng.choice(self.models)
            kw = {"n_repeat": rng.randint(1, 3)}
            k = rng.randrange(4)
            fs = list(self.lists[k] or self.names)
            if self.lists[k] is not None:
                kw["features"] = self.lists[k]
            if cls == "S" and v % 2 == 0:
                info["n"] = kw["n"] = rng.randint(3, self.n)
            info["samp"] = 1 if cls == "S" else 0
            return (m, self.X, rng.choice(self.ys)), kw, fs, info
        if cls == "C":
            f = self.forests[v % 2]
            info["asc"] = info["iasc"] = 1
            return (f,), {}, list(f.feature_names_in_), info
        if cls == "B":
            m = self.boost[rng.randrange(4)]
            met, imet = rng.choice(METRICS), rng.choice(IMETRICS)
            if bad:
                if v == 1:
                    m = self.forests[0]
                else:
                    m = self.boost[rng.choice([1, 3])]
                    met, imet = ("sum_cover", "sum_gain") if v == 2 else ("mean_depth", "mean_cover")
            elif m in (self.boost[1], self.boost[3]):
                met, imet = (x if "cover" not in x else "mean_gain" for x in (met, imet))
            info["asc"] = 1 if met == "mean_depth" else 0
            info["iasc"] = 1 if imet in ("mean_depth", "mean_weighted_depth") else 0
            return (m,), {"interaction_selected_metric": met, "importance_selected_metric": imet,
                          "only_def_interactions": rng.random() < .5}, list(self.names), info
        raise ValueError(cls)

    def new(self, cls, seed, v=1):
        if cls == "H":
            return FriedmanHStatisticMethod(random_state=seed, normalized=v % 2 == 1)
        if cls == "G":
            return GreenwellMethod(random_state=seed)
        if cls == "S":
            return SejongOhMethod(RMSE() if v % 2 else MSE(), random_state=seed)
        if cls == "C":
            return ConditionalMinimalDepthMethod()
        if cls == "B":
            return SplitScoreMethod()
        if cls == "A":
            return AdditivityMeter(random_state=seed)
        if cls == "I":
            return PartialDependenceBasedImportance()
        return PermutationImportance(RMSE() if v % 2 else MSE(), random_state=seed)

    def ftab(self, df, k):
        return [[self.idx.get(x, 0) if isinstance(x, str) else 0 for x in r[:k]] + [enc(x) for x in r[k:]]
                for r in df.values.tolist()]

    def tables(self, cls, o):
        t = {"fit": 1, "num": numbered(cls, o), "ovo": [], "occ": [], "hasova": 0, "ova": [], "imp": [], "x": []}
        if cls in INTER:
            if o.ovo is None:
                return dict(t, fit=0)
            if cls == "C":
                m = o.method
                t["ovo"] = self.ftab(o.ovo[["root_variable", "variable", m]], 2)
                t["occ"] = [enc(x) for x in o.ovo["n_occurences"].tolist()]
            else:
                t["ovo"] = self.ftab(o.ovo[["Feature 1", "Feature 2", o.method]], 2)
            if cls == "H" and o.ova is not None:
                t["hasova"], t["ova"] = 1, self.ftab(o.ova, 1)
        if cls == "A":
            if o.additivity_index is None:
                return dict(t, fit=0)
            t["x"] = [enc(o.additivity_index)] + [enc(x) for x in o.full_result.values.ravel().tolist()]
        else:
            if o.feature_importance is None:
                return dict(t, fit=0)
            t["imp"] = self.ftab(o.feature_importance, 1)
        return t

    def table_fps(self, cls, o):
        out = []
        for a in ("ovo", "ova", "feature_importance", "full_result", "full_ovo", "raw_result_df"):
            out.append(frame_fp(getattr(o, a, None)) if isinstance(getattr(o, a, None), pd.DataFrame) else 0)
        return out

    def calc_fps(self, cls, o):
        """Values held by the object's calculator (any fit may add some)."""
        c = getattr(o, "pd_calculator", None)
        if cls not in "HGIA" or c is None:
            return [0]
        return [crc(([np.asarray(c.get_pd_single(a)).tolist() for a in self.names],
                     [np.asarray(c.get_pd_minus_single(a)).tolist() for a in self.names],
                     [np.asarray(c.get_pd_pairs(a, b)).tolist() for a, b in itertools.combinations(self.names, 2)]))]

    def lookups(self, cls, o, same):
        out = []
        for f, g in itertools.product(range(self.nf), repeat=2):
            if f == g and not same:
                continue
            try:
                val, err = enc(o.interaction_value(self.names[f], self.names[g])), ""
            except Exception as x:
                val, err = [9], type(x).__name__
            out.append([f + 1, g + 1, val, err])
        return out


def do_fit(cls, o, args, kw):
    (o.importance if cls in "IP" else o.fit)(*args, **kw)


def digest():
    """What the current figures show (annotation positions excluded)."""
    out = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        for ax in fig.axes:
            out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), sorted(t.get_text() for t in ax.texts),
                        [t.get_text() for t in ax.get_yticklabels()], ax.xaxis_inverted(), ax.yaxis_inverted()))
            for p in ax.patches:
                out.append(tuple(round(float(x), 9) for x in np.ravel(p.get_window_extent().bounds)) if not hasattr(p, "get_width")
                           else (p.get_x(), p.get_y(), p.get_width(), p.get_height()))
            for c in ax.collections:
                out.append((type(c).__name__, np.round(np.ma.filled(np.ma.asarray(c.get_offsets()), 0), 9).tolist(),
                            [] if c.get_array() is None else np.ma.filled(np.ma.asarray(c.get_array(), dtype=float), -1.5).ravel().tolist(),
                            np.ravel(c.get_linewidths()).tolist()))
            for ln in ax.lines:
                out.append((str(list(ln.get_xdata())), str(list(ln.get_ydata()))))
    return crc(out)


def show(fn, times=2):
    """Run fn twice in fresh figures; (error, figures left by the first run, digest 1, digest 2)."""
    res = []
    figs = 0
    for k in range(times):
        plt.close("all")
        try:
            fn()
            res.append(("", digest()))
        except Exception as x:
            res.append((type(x).__name__, len(plt.get_fignums())))
        if k == 0:
            figs = len(plt.get_fignums())
    plt.close("all")
    return res[0][0], figs, crc(res[0]), crc(res[-1])


def drive(job):
    """Replays job["hist"] and records it; with job["twin"] only the fits are done (the reproduction in another process)."""
    w = World(job["seed"], custom=True, size=job.get("size", ""))
    rng = random.Random(job["seed"] + 5)
    twin = job.get("twin")
    asp = job["asp"]
    retraining = "C16" in asp and job["seed"] % 3 == 0
    salt = 1 if twin else 2
    np.random.seed(salt)
    random.seed(salt)
    objs, cls, seeds, ev, twins = [], [], [], [], []
    refs = {}                # per object: the fresh object with the same last fit, whether it has a calculator of its own
    last = {}
    for h in job["hist"]:
        if h["e"] == "new":
            c = h["c"]
            seeds.append([0, 4, 123456789012][h["seed"] % 3])
            cls.append(c)
            objs.append(w.new(c, seeds[-1], h["seed"]))
            twins.append((c, seeds[-1], h["seed"]))
    fps = lambda: [fp(t) for _, t, fp in w.things] + sum((w.table_fps(c, o) for c, o in zip(cls, objs)), []) + \
        sum((w.calc_fps(c, o) for c, o in zip(cls, objs)), [])
    fp0 = fps() if not twin else []
    nthings = len(w.things)
    for h in job["hist"]:
        if h["e"] == "new":
            continue
        k = h["o"] - 1
        c, o = cls[k], objs[k]
        if twin and h["e"] not in ("fit", "bad", "crash"):
            continue
        e = {"e": h["e"], "o": k + 1, "c": c, "v": h["v"], "err": "", "figs": 0, "d1": 0, "d2": 0, "fs": [], "n": 0, "asc": 0,
             "iasc": 0, "looks": [], "ref": {"fit": 0}, "twin": {"fit": 0}, "x": [], "ix": [], "y": [], "samp": 0, "c2": "", "o2": 0,
             "vis": "", "fp": [], "what": "", "d3": 0, "hasref": 0, "crash": 0, "lens": []}
        ev.append(e)
        if h["e"] in ("fit", "bad", "crash"):
            bad = h["e"] == "bad" and c in "HGBIA"
            args, kw, fs, info = w.fit_args(c, h["v"], bad)
            if retraining and not bad:
                kw.pop("pd_calculator", None)          # a calculator speaks of the model as it was
                if rng.random() < .5:
                    w.retrain(args[0], rng)
            e["e"] = "bad" if bad else "fit"
            e.update({x: info[x] for x in ("n", "asc", "iasc", "samp")})
            e["fs"] = [w.idx[f] for f in fs]
            e["what"] = repr(sorted(kw))
            if h["e"] == "crash":
                args[0]._fail = [h["at"], tab.ModelFailure if h["v"] % 3 else KeyboardInterrupt]
            if isinstance(args[0], LStub):
                args[0]._lens = e["lens"]
            try:
                do_fit(c, o, args, kw)
            except (Exception, KeyboardInterrupt) as x:
                e["err"] = type(x).__name__
            if isinstance(args[0], LStub):
                args[0]._lens = []
            if h["e"] == "crash":
                if args[0]._fail[0] <= 0:
                    e["e"], e["crash"] = "bad", 1
                args[0]._fail = None
            if not e["err"]:
                last[k] = (args, kw, info)
            if not e["err"] and info["samp"] and not bad:
                xs = o.X_sampled
                e["x"] = [list(r) if r else [0] * w.nf for r in w.data.codes(xs)]
                e["ix"] = [w.label.get(lab, 0) for lab in xs.index.tolist()]
                if c == "S":
                    e["y"] = [int(v) if float(v).is_integer() else 99999 for v in np.asarray(o.y_sampled).tolist()]
            if not twin and not e["err"] and "C16" in asp and c in "HGCBIA":
                # the same fit on a fresh object (on the sampled rows, if rows were sampled)
                kw2 = {x: y for x, y in kw.items() if x not in ("n", "pd_calculator")}
                args2 = args
                if info["n"]:
                    args2 = (args[0], o.X_sampled.copy())
                o2 = w.new(c, None, twins[k][2])
                try:
                    do_fit(c, o2, args2, kw2)
                    e["ref"] = w.tables(c, o2)
                    refs[k] = (o2, "pd_calculator" not in kw)
                except Exception as x:
                    e["ref"] = {"fit": 0}
        elif h["e"] == "plot":
            e["vis"] = h["vis"]
            okw = w.opts.get(e["vis"], {}) if h["v"] % 2 else {}
            e["err"], e["figs"], e["d1"], e["d2"] = show(lambda: o.plot(e["vis"], **okw)) if c in INTER else ("", 0, 0, 0)
            if k in refs and c in INTER:
                e["hasref"], e["d3"] = 1, show(lambda: refs[k][0].plot(e["vis"], **okw), 1)[2]
        elif h["e"] == "prof":
            f1, f2 = rng.sample(w.names, 2)
            if k in last and c in "HG":
                f1, f2 = rng.sample(list(o.features_included), 2)
            e["vis"] = ["profile", "profile2", "zen"][h["v"] % 3]
            if c in "HG":
                fn = {"profile": lambda o: o.plot_profile(f1), "profile2": lambda o: o.plot_profile(f1, f2),
                      "zen": lambda o: o.plot_zenplot()}[e["vis"]]
                e["err"], e["figs"], e["d1"], e["d2"] = show(lambda: fn(o))
                if k in refs and refs[k][1]:
                    e["hasref"], e["d3"] = 1, show(lambda: fn(refs[k][0]), 1)[2]
        elif h["e"] == "cmp":
            k2 = h["o2"] - 1
            e["o2"], e["c2"] = k2 + 1, cls[k2]
            if c in INTER and cls[k2] in INTER:
                cm = FeatureInteractionMethodComparator()
                fn = {0: lambda o, p: cm.summary(o, p), 1: lambda o, p: cm.comparison_plot(o, p, add_correlation_box=True),
                      2: lambda o, p: cm.correlations(o, p)}[h["v"] % 3]
                e["vis"] = ["summary", "plot", "correlations"][h["v"] % 3]
                e["err"], e["figs"], e["d1"], e["d2"] = show(lambda: fn(o, objs[k2]))
                if k in refs and k2 in refs:
                    e["hasref"], e["d3"] = 1, show(lambda: fn(refs[k][0], refs[k2][0]), 1)[2]
        if c in INTER and (h["e"] == "look" or (h["e"] in ("fit", "bad", "crash") and not twin)):
            e["looks"] = w.lookups(c, o, c == "B")
        try:
            e["tab"] = w.tables(c, o)
        except Exception as x:
            e["tab"] = {"fit": 9, "num": 0, "ovo": [], "occ": [], "hasova": 0, "ova": [], "imp": [], "x": []}
            e["err"] = e["err"] or "results:" + type(x).__name__
        if "C18" in asp and not twin:
            e["fp"] = fps()
    if twin:
        return {"id": job["id"], "ev": [{k: e[k] for k in ("tab", "x", "ix", "y", "err")} for e in ev]}
    return {"id": job["id"], "asp": asp, "n": w.n, "nf": w.nf, "rows": w.data.rows, "ix": w.ix, "y": w.yi, "cls": cls,
            "fpn": [nm for nm, _, _ in w.things], "nthings": nthings, "fp0": fp0, "ev": ev, "_job": job}
