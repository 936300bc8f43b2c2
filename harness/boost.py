"""Builds real XGBoost / LightGBM models from the tree histories of spec/BoostGen.tla (or trains some), runs the split
score methods on them and records the results for spec/Boost.tla."""
import contextlib
import io
import json
import random
import warnings

import numpy as np
import pandas as pd

import tab
from common import enc
from forest import grow, renumber, topo, preorder

warnings.filterwarnings("ignore")

import lightgbm as lgb  # noqa: E402
import xgboost as xgb  # noqa: E402
from artemis._utilities._handler import GBTreesHandler  # noqa: E402
from artemis.importance_methods.model_specific import SplitScoreImportance  # noqa: E402
from artemis.interactions_methods.model_specific import SplitScoreMethod  # noqa: E402

BAD_NAMES = {"feat 1", "wartość", "Feature 1", "Feature 2"}


def boost_names(rng, nf):
    pool = [n for n in rng.choice(tab.NAME_POOLS) if n not in BAD_NAMES]
    pool += ["col%d" % k for k in range(nf + 2)] if nf > len(pool) else []
    return rng.sample(pool, nf)


_XGB = {}


def xgb_model(trees, names):
    """trees: list of (l, r, f, g, c)"""
    nf = len(names)
    if nf not in _XGB:
        X = pd.DataFrame(np.arange(4.0 * nf).reshape(4, nf))
        b = xgb.train({"max_depth": 1, "nthread": 1}, xgb.DMatrix(X, [0, 1, 2, 3]), num_boost_round=1)
        _XGB[nf] = json.loads(b.save_raw("json").decode())
    raw = json.loads(json.dumps(_XGB[nf]))
    raw["learner"]["feature_names"] = list(names)
    raw["learner"]["feature_types"] = ["float"] * nf
    raw["learner"]["attributes"] = {}
    m = raw["learner"]["gradient_booster"]["model"]
    m["gbtree_model_param"]["num_trees"] = str(len(trees))
    m["tree_info"] = [0] * len(trees)
    m["trees"] = []
    for k, (l, r, f, g, c) in enumerate(trees):
        n = len(f)
        par = [2147483647] * n
        for x in range(n):
            if l[x] >= 0:
                par[l[x]] = par[r[x]] = x
        leaf = [v is None for v in f]
        m["trees"].append({
            "base_weights": [0.0] * n, "categories": [], "categories_nodes": [], "categories_segments": [],
            "categories_sizes": [], "default_left": [0] * n, "id": k, "left_children": l, "right_children": r,
            "loss_changes": [0.0 if leaf[x] else float(g[x]) for x in range(n)], "parents": par,
            "split_conditions": [0.5] * n, "split_indices": [0 if leaf[x] else f[x] for x in range(n)],
            "split_type": [0] * n, "sum_hessian": [float(c[x]) for x in range(n)],
            "tree_param": {"num_deleted": "0", "num_feature": str(nf), "num_nodes": str(n), "size_leaf_vector": "0"}})
    b = xgb.Booster({"nthread": 1})
    b.load_model(bytearray(json.dumps(raw).encode()))
    return b


def lgb_model(trees, names):
    nf = len(names)
    out = ["tree", "version=v3", "num_class=1", "num_tree_per_iteration=1", "label_index=0", "max_feature_idx=%d" % (nf - 1),
           "objective=regression", "feature_names=" + " ".join(names), "feature_infos=" + " ".join(["[0:9]"] * nf), ""]
    for k, (l, r, f, g, c) in enumerate(trees):
        inner = [x for x in range(len(f)) if f[x] is not None]
        leaves = [x for x in range(len(f)) if f[x] is None]
        ii = {x: j for j, x in enumerate(inner)}
        li = {x: -j - 1 for j, x in enumerate(leaves)}
        ref = {**ii, **li}
        s = ["Tree=%d" % k, "num_leaves=%d" % len(leaves), "num_cat=0"]
        if inner:
            def row(nm, v):
                s.append(nm + "=" + " ".join(str(z) for z in v))
            row("split_feature", [f[x] for x in inner])
            row("split_gain", [g[x] for x in inner])
            row("threshold", [0.5 for _ in inner])
            row("decision_type", [2 for _ in inner])
            row("left_child", [ref[l[x]] for x in inner])
            row("right_child", [ref[r[x]] for x in inner])
            row("leaf_value", [0.1 for _ in leaves])
            row("leaf_weight", [1 for _ in leaves])
            row("leaf_count", [1 for _ in leaves])
            row("internal_value", [0 for _ in inner])
            row("internal_weight", [c[x] for x in inner])
            row("internal_count", [int(c[x] * 8) for x in inner])
        else:
            s += ["leaf_value=0.1"]
        s += ["is_linear=0", "shrinkage=1", "", ""]
        out += s
    out += ["end of trees", "", "feature_importances:", "", "parameters:", "end of parameters", ""]
    return lgb.Booster(model_str="\n".join(out))


VARIANTS = {"trained:" + v: v for v in ("nan", "cat", "stop", "par", "plain")}


def trained(rng, names, pkg, var=None):
    r = np.random.RandomState(rng.randrange(10 ** 6))
    n = rng.randint(30, 80)
    X = pd.DataFrame(r.randint(0, 7, size=(n, len(names))), columns=names)
    z = (X.iloc[:, 0] > 3).astype(int) ^ (X.iloc[:, 1 % len(names)] > 2).astype(int)
    y = (z * 5 + X.iloc[:, -1] + r.randint(0, 3, n)).values
    cls = rng.choice([0, 2, 3])
    if cls:
        y = pd.qcut(pd.Series(y).rank(method="first"), cls, labels=False).values
    many = not var and rng.random() < .1
    if many:
        cls, y = 0, y if not cls else y * 2.5 + r.randint(0, 3, n)
    Xt, more, how = X, {}, {}
    if var or not many and rng.random() < .3:
        # missing values, columns of categories, training that stops early, several trees per round, no column names
        var = var or rng.choice(["nan", "cat", "stop", "par"])
        if var == "nan":
            Xt = X.astype(float).mask(r.rand(*X.shape) < .2)
        elif var == "cat":
            Xt = X.astype({names[0]: "category"})
            more = {"enable_categorical": True, "tree_method": "hist"} if pkg == "xgboost" else {"cat_smooth": 1, "min_data_per_group": 2}
        elif var == "par":
            more = {"num_parallel_tree": 3, "subsample": .7} if pkg == "xgboost" else {"boosting_type": "rf", "bagging_freq": 1, "bagging_fraction": .7}
        elif var == "stop":
            more = {"learning_rate": 1.0, **({"early_stopping_rounds": 2} if pkg == "xgboost" else {})}
            how = {"eval_set": [(X[::3], y[::-1][::3])], **({"verbose": False} if pkg == "xgboost" else {"callbacks": [lgb.early_stopping(2, verbose=False)]})}
        elif var == "plain":
            Xt = X.values
            names[:] = [("f%d" if pkg == "xgboost" else "Column_%d") % k for k in range(len(names))]
    if pkg == "xgboost":
        kw = {"max_depth": 2} if many else rng.choice([{"max_depth": 3}, {"max_depth": 1}, {"grow_policy": "lossguide", "max_leaves": 6, "tree_method": "hist"},
                         {"max_depth": 5, "gamma": 5}, {"max_depth": 2, "booster": "dart"}])
        m = (xgb.XGBClassifier if cls else xgb.XGBRegressor)(n_estimators=106 if many else rng.choice([1, 3, 6 if cls else 13]), n_jobs=1,
                                                                 **{**kw, **more}).fit(Xt, y, **how)
        return m if rng.random() < .6 else m.get_booster()
    kw = {"num_leaves": 3} if many else rng.choice([{"max_depth": 3}, {"max_depth": 1}, {"num_leaves": 5}, {"boosting_type": "dart"}])
    m = (lgb.LGBMClassifier if cls else lgb.LGBMRegressor)(n_estimators=106 if many else rng.choice([1, 3, 6 if cls else 13]), n_jobs=1, min_child_samples=4,
                                                          verbose=-1, **{**kw, **more}).fit(Xt, y, **how)
    return m if rng.random() < .6 else m.booster_


def read_xgb(model, names):
    b = model.get_booster() if hasattr(model, "get_booster") else model
    idx = {n: k + 1 for k, n in enumerate(names)}
    out = []
    for dump in b.get_dump(dump_format="json", with_stats=True):
        t = {"l": [], "r": [], "f": [], "g": [], "c": []}

        def walk(d):
            k = len(t["f"])
            leaf = "leaf" in d
            for key, v in (("l", 0), ("r", 0), ("f", 0 if leaf else idx[d["split"]]), ("g", enc(0 if leaf else d["gain"])),
                           ("c", enc(d["cover"]))):
                t[key].append(v)
            if not leaf:
                ch = {c["nodeid"]: c for c in d["children"]}
                t["l"][k] = walk(ch[d["yes"]]) + 1
                t["r"][k] = walk(ch[d["no"]]) + 1
            return k
        walk(json.loads(dump))
        out.append(t)
    return out


def read_lgb(model, names):
    b = model.booster_ if hasattr(model, "booster_") else model
    out = []
    for info in b.dump_model()["tree_info"]:
        t = {"l": [], "r": [], "f": [], "g": [], "c": []}

        def walk(d):
            k = len(t["f"])
            leaf = "split_gain" not in d
            for key, v in (("l", 0), ("r", 0), ("f", 0 if leaf else d["split_feature"] + 1),
                           ("g", enc(0 if leaf else d["split_gain"])), ("c", enc(0))):
                t[key].append(v)
            if not leaf:
                t["l"][k] = walk(d["left_child"]) + 1
                t["r"][k] = walk(d["right_child"]) + 1
            return k
        walk(info["tree_structure"])
        out.append(t)
    return out


def build(job, rng):
    """(model, names, package)"""
    pkg = job["pkg"]
    nf = job["nf"] + rng.choice([0, 0, 1])
    names = boost_names(rng, nf)
    trees = []
    if isinstance(job["hist"]["trees"], str):
        return trained(rng, names, pkg, VARIANTS.get(job["hist"]["trees"])), names
    perm = rng.sample(range(nf), nf)
    mode = rng.choice(["pre", "creation", "random"])
    # small differences of gains, also on a high level, large gains, fractional covers
    gain = rng.choice([lambda v: v, lambda v: v, lambda v: v / 5000, lambda v: 700 + v / 4096, lambda v: v * 131072])
    cover = rng.choice([lambda v: v, lambda v: v / 8, lambda v: v * 1000])
    for sp in job["hist"]["trees"]:
        l, r, f = grow([(x, perm[v - 1]) for x, v, _, _ in sp])
        g, c = [0] * len(f), [1] * len(f)
        for x, _, gn, cv in sp:
            g[x - 1], c[x - 1] = gain(gn), cover(cv)
        order = preorder((l, r, f)) if mode == "pre" else topo(rng, (l, r, f)) if mode == "random" else list(range(len(f)))
        l, r, f = renumber((l, r, f), order)
        trees.append((l, r, f, [g[o] for o in order], [c[o] for o in order]))
    return (xgb_model if pkg == "xgboost" else lgb_model)(trees, names), names


def retrain(old, new, pkg):
    """Make the model object old what new is, as training it again would."""
    if hasattr(old, "_Booster"):
        old._Booster = getattr(new, "_Booster", new)
    elif pkg == "xgboost":
        b = new.get_booster() if hasattr(new, "get_booster") else new
        old.load_model(bytearray(b.save_raw("json")))
    else:
        b = new.booster_ if hasattr(new, "booster_") else new
        old.model_from_string(b.model_to_string())


METRICS = ["sum_gain", "mean_gain", "sum_cover", "mean_cover", "mean_depth"]
VMETRICS = METRICS + ["mean_weighted_depth", "root_frequency", "weighted_root_frequency"]


class Foreign:
    """A model of no supported package."""


def foreign(rng):
    from sklearn.linear_model import LinearRegression
    from sklearn.ensemble import GradientBoostingRegressor
    return rng.choice([Foreign(), LinearRegression(), GradientBoostingRegressor(), object(), 3])


def table(handler, idx):
    """Rows of the unified table; identifiers as integers."""
    df = handler.trees_df
    num = {}

    def ident(x):
        return 0 if x is None or x != x else num.setdefault(x, len(num) + 1)
    rows = []
    for r in df.to_dict("records"):
        f = r["split_feature"]
        leaf = bool(r["leaf"])
        rows.append({"tree": int(r["tree"]) + 1, "id": ident(r["ID"]), "l": ident(r["left_child"]), "r": ident(r["right_child"]),
                     "f": 0 if f is None or (leaf and f == "Leaf") else idx.get(f, -1), "g": enc(r["gain"]), "c": enc(r["cover"]),
                     "d": enc(r["depth"]), "leaf": int(leaf)})
    return rows


def drive(job):
    rng = random.Random(job["seed"])
    ms, built = [], []
    for h in job["hists"]:
        model, names = build(dict(job, hist=h), rng)
        pkg = job["pkg"]
        job = dict(job, pkg=job["pkg"] if rng.random() < .6 else "xgboost" if pkg == "lightgbm" else "lightgbm")
        ms.append({"pkg": pkg, "trees": (read_xgb if pkg == "xgboost" else read_lgb)(model, names)})
        built.append((model, names, {n: k + 1 for k, n in enumerate(names)}, pkg))
    ev = []
    meth, impo = SplitScoreMethod(), SplitScoreImportance()
    st = {"handler": None, "held": 0}

    def observe(e):
        if st["held"] and "C24" in job["asp"]:
            e["pkg"], e["uni"] = st["handler"].package, table(st["handler"], built[st["held"] - 1][2])

    def unify(mi):
        """(re)unify a model, 0: one that is not supported"""
        e = {"kind": "unify", "mi": mi, "err": "", "pkg": "", "uni": []}
        ev.append(e)
        m = built[mi - 1][0] if mi else foreign(rng)
        try:
            if st["handler"] is None:
                if mi and rng.random() < .5:
                    st["handler"] = GBTreesHandler(m)
                else:
                    st["handler"] = GBTreesHandler()
                    st["handler"].unify_structure(m)
            else:
                st["handler"].unify_structure(m)
            if mi:
                st["held"] = mi
        except Exception as x:
            e["err"] = type(x).__name__
            if mi:
                return False
        try:
            observe(e)
        except Exception as x:
            e["err"] = "table " + type(x).__name__
            return False
        return True

    for mi, h in enumerate(job["hists"], 1):
        if mi > 1 and built[mi - 1][3] == built[mi - 2][3] and rng.random() < .5:
            new, names, idx, pkg = built[mi - 1]
            old = built[mi - 2][0]
            retrain(old, new, pkg)
            ms[mi - 1]["trees"] = (read_xgb if pkg == "xgboost" else read_lgb)(old, names)
            built[mi - 1] = (old, names, idx, pkg)
        if rng.random() < .3:
            unify(0)
        if rng.random() < .3:
            st["handler"], st["held"] = None, 0
            # a new handler holds nothing: the trace goes on with the model unified next
        if not unify(mi):
            break
        if rng.random() < .3 and not unify(0) and ev[-1]["err"].startswith("table"):
            break
        for c in h["calls"]:
            model, names, idx, pkg = built[mi - 1]
            e = {"kind": c["kind"], "m": c["m"], "im": c["im"], "od": c["od"], "fs": [], "ovo": [], "imp": [], "err": "",
                 "wrap": c["wrap"], "mi": mi, "full": [], "nofull": 1, "ifull": [], "noifull": 1}
            if c["kind"] == "imp" and pkg == "lightgbm" and "cover" in c["im"]:
                e["im"] = "sum_gain"
            m = st["handler"] if c["wrap"] == "handler" else model
            if rng.random() < .3:       # bystanders
                try:
                    by = GBTreesHandler(rng.choice(built)[0])
                    SplitScoreMethod().fit(by, interaction_selected_metric=rng.choice(["mean_depth", "sum_gain"]),
                                           importance_selected_metric=rng.choice(["mean_depth", "root_frequency"]))
                except Exception:
                    pass
            kw = {"show_progress": True} if rng.random() < .2 else {}
            ev.append(e)
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    if c["kind"] == "fit":
                        meth.fit(m, interaction_selected_metric=c["m"], importance_selected_metric=c["im"],
                                 only_def_interactions=c["od"], **kw)
                        e["ovo"] = [[idx.get(a, 0), idx.get(b, 0), enc(v)] for a, b, v in
                                    meth.ovo[["Feature 1", "Feature 2", meth.method]].values.tolist()]
                        imp, obj = meth.feature_importance, getattr(meth, "_feature_importance_obj", None)
                        if isinstance(getattr(meth, "full_ovo", None), pd.DataFrame):
                            e["nofull"] = 0
                            e["full"] = [{"pf": idx.get(r["parent_feature"], 0), "f": idx.get(r["child_feature"], 0),
                                          "v": {k: enc(r[k]) for k in METRICS + ["frequency"]}}
                                         for r in meth.full_ovo.to_dict("records")]
                    else:
                        if c["fs"]:
                            e["fs"] = c["fs"]
                            kw["features"] = [names[f - 1] for f in c["fs"]]
                        imp, obj = impo.importance(m, selected_metric=e["im"], **kw), impo
                e["imp"] = [[idx.get(a, 0), enc(v)] for a, v in imp[["Feature", "Importance"]].values.tolist()]
                if isinstance(getattr(obj, "full_result", None), pd.DataFrame):
                    e["noifull"] = 0
                    e["ifull"] = [{"f": idx.get(r["split_feature"], 0), "v": {k: enc(r[k]) for k in VMETRICS}}
                                  for r in obj.full_result.to_dict("records")]
            except Exception as x:
                e["err"] = type(x).__name__
        if "C24" in job["asp"] and st["held"]:
            e = {"kind": "look", "mi": mi, "err": "", "pkg": "", "uni": []}
            ev.append(e)
            try:
                observe(e)
            except Exception as x:
                e["err"] = "table " + type(x).__name__
    return {"id": job["id"], "asp": job["asp"], "ms": ms, "ev": ev, "_job": job}
