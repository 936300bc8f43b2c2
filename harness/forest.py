"""Builds real scikit-learn forests from the tree histories of spec/ForestGen.tla, fits the conditional minimal depth
method on them and records the results for spec/Forest.tla."""
import random
import warnings

import numpy as np
import pandas as pd

import tab
from common import enc

warnings.filterwarnings("ignore")

from sklearn.ensemble import (ExtraTreesClassifier, ExtraTreesRegressor, RandomForestClassifier,  # noqa: E402
                              RandomForestRegressor)
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor  # noqa: E402
from sklearn.tree._tree import NODE_DTYPE, Tree  # noqa: E402
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod  # noqa: E402

KINDS = [(RandomForestRegressor, DecisionTreeRegressor), (RandomForestClassifier, DecisionTreeClassifier),
         (ExtraTreesRegressor, DecisionTreeRegressor), (ExtraTreesClassifier, DecisionTreeClassifier)]


def grow(splits):
    """(left, right, feature) arrays (0-based, -1 none, feature None for a leaf) in creation order."""
    l, r, f = [-1], [-1], [None]
    for x, v in splits:
        x -= 1
        l[x], r[x], f[x] = len(f), len(f) + 1, v
        l += [-1, -1]
        r += [-1, -1]
        f += [None, None]
    return l, r, f


def renumber(t, order):
    l, r, f = t
    new = {o: k for k, o in enumerate(order)}
    new[-1] = -1
    return [new[l[o]] for o in order], [new[r[o]] for o in order], [f[o] for o in order]


def preorder(t):
    l, r, _ = t
    out, stack = [], [0]
    while stack:
        x = stack.pop()
        out.append(x)
        if l[x] >= 0:
            stack += [r[x], l[x]]
    return out


def depth_of(t):
    l, r, _ = t
    d, stack = 0, [(0, 0)]
    while stack:
        x, k = stack.pop()
        d = max(d, k)
        if l[x] >= 0:
            stack += [(l[x], k + 1), (r[x], k + 1)]
    return d


def sk_tree(t, nf, classifier):
    l, r, f = t
    n = len(f)
    nodes = np.zeros(n, dtype=NODE_DTYPE)
    nodes["left_child"] = l
    nodes["right_child"] = r
    nodes["feature"] = [-2 if v is None else v for v in f]
    nodes["threshold"] = [-2.0 if v is None else 0.5 for v in f]
    nodes["n_node_samples"] = 1
    nodes["weighted_n_node_samples"] = 1
    k = 2 if classifier else 1
    tree = Tree(nf, np.array([k], dtype=np.intp), 1)
    tree.__setstate__({"max_depth": depth_of(t), "node_count": n, "nodes": nodes,
                       "values": np.zeros((n, 1, k), dtype=np.float64)})
    return tree


def forest_model(kind, trees, names):
    F, D = kind
    cls = D is DecisionTreeClassifier
    m = F(n_estimators=len(trees))
    m.estimators_ = []
    for t in trees:
        d = D()
        d.tree_ = sk_tree(t, len(names), cls)
        d.n_features_in_ = len(names)
        d.n_outputs_ = 1
        if cls:
            d.classes_ = np.array([0, 1])
            d.n_classes_ = 2
        m.estimators_.append(d)
    m.feature_names_in_ = np.array(names, dtype=object)
    m.n_features_in_ = len(names)
    m.n_outputs_ = 1
    if cls:
        m.classes_ = np.array([0, 1])
        m.n_classes_ = 2
    return m


def trained(rng, names):
    """A forest really trained by scikit-learn, depth-first or best-first."""
    F, D = rng.choice(KINDS)
    r = np.random.RandomState(rng.randrange(10 ** 6))
    n = rng.randint(20, 60)
    X = pd.DataFrame(r.randint(0, 6, size=(n, len(names))), columns=names)
    if rng.random() < .4:
        X[names[0]] = 1                      # never split on
    y = (X.iloc[:, -1] * X.iloc[:, 1 % len(names)] + r.randint(0, 8, n)).values
    if D is DecisionTreeClassifier:
        y = (y > np.median(y)).astype(int)
    kw = rng.choice([{}, {"max_depth": 3}, {"max_leaf_nodes": 6}, {"max_leaf_nodes": 9}, {"max_depth": 4, "max_features": 1}])
    return F(n_estimators=rng.randint(1, 5), random_state=rng.randrange(10 ** 6), **kw).fit(X, y)


def large(rng, names):
    """Few trees with hundreds of nodes, or very deep ones whose later features occur far down only."""
    if rng.random() < .4:
        r = np.random.RandomState(rng.randrange(10 ** 6))
        X = pd.DataFrame(r.rand(rng.choice([110, 180]), len(names)), columns=names)
        return ExtraTreesRegressor(1, random_state=rng.randrange(10 ** 6)).fit(X, r.rand(len(X)))
    trees = []
    for _ in range(rng.randint(1, 3)):
        splits, x, nodes, deep = [], 1, 1, rng.choice([rng.randint(14, 40)] * 4 + [150, 290])
        order = rng.sample(range(len(names)), len(names))
        for k in range(deep):
            v = order[min(len(order) - 1, k * len(order) // deep)] if rng.random() < .8 else order[0]
            splits.append((x, v))
            x = nodes + rng.choice([1, 2])
            nodes += 2
        t = grow(splits)
        trees.append(renumber(t, rng.choice([preorder(t), topo(rng, t)])))
    return forest_model(rng.choice(KINDS), trees, names)


def many(rng, names):
    """Hundreds of small trees."""
    trees = []
    for _ in range(rng.choice([130, 270])):
        splits, leaves, nodes = [], [1], 1
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            splits.append((leaves.pop(rng.randrange(len(leaves))), rng.randrange(min(len(names), 2 if rng.random() < .6 else 9))))
            leaves += [nodes + 1, nodes + 2]
            nodes += 2
        t = grow(splits)
        trees.append(renumber(t, topo(rng, t)))
    return forest_model(rng.choice(KINDS), trees, names)


def shape(model):
    out = []
    for d in model.estimators_:
        t = d.tree_
        out.append({"l": [int(x) + 1 if x >= 0 else 0 for x in t.children_left],
                    "r": [int(x) + 1 if x >= 0 else 0 for x in t.children_right],
                    "f": [int(x) + 1 if x >= 0 else 0 for x in t.feature]})
    return out


def names_for(rng, nf):
    pool = list(rng.choice(tab.NAME_POOLS))
    pool += ["col%d" % k for k in range(nf + 2)] if nf > len(pool) else []
    return rng.sample(pool, nf)


def record(model, obj, names, kw):
    idx = {nm: k + 1 for k, nm in enumerate(names)}
    e = {"trees": shape(model), "ovo": [], "imp": [], "err": "", "cols": 0}
    try:
        obj.fit(model, **kw)
        m = obj.method
        e["cols"] = 1 if list(obj.ovo.columns) == ["root_variable", "variable", m, "n_occurences"] else 0
        e["ovo"] = [[idx.get(a, 0), idx.get(b, 0), enc(v), enc(k)] for a, b, v, k in
                    obj.ovo[["root_variable", "variable", m, "n_occurences"]].values.tolist()]
        e["imp"] = [[idx.get(a, 0), enc(v)] for a, v in obj.feature_importance[["Feature", "Importance"]].values.tolist()]
    except Exception as x:
        e["err"] = type(x).__name__
    return e


def drive(job):
    rng = random.Random(job["seed"])
    nf = job["nf"] + rng.choice([0, 0, 1])
    obj = ConditionalMinimalDepthMethod()
    ev = []
    names = names_for(rng, nf)
    old = None
    for forest in job["hist"]:
        if rng.random() < .3:
            names = names_for(rng, nf)
        perm = rng.sample(range(nf), nf)
        if forest == "trained":
            model = trained(rng, names)
        elif forest == "large":
            model = large(rng, names)
        elif forest == "many":
            model = many(rng, names)
        else:
            trees = []
            mode = rng.choice(["pre", "creation", "random"])
            for sp in forest:
                t = grow([(x, perm[v - 1]) for x, v in sp])
                if mode == "pre":
                    t = renumber(t, preorder(t))
                elif mode == "random":       # any numbering with the root first and parents before children
                    t = renumber(t, topo(rng, t))
                trees.append(t)
            model = forest_model(rng.choice(KINDS), trees, names)
        if old is not None and type(old) is type(model) and rng.random() < .5:
            old.__dict__ = model.__dict__    # the same model object, trained again
            model = old
        old = model
        e = record(model, obj, names, {"show_progress": True} if rng.random() < .2 else {})
        ev.append(e)
        if e["err"]:
            break
    return {"id": job["id"], "asp": job["asp"], "nf": nf, "ev": ev, "_job": job}


def topo(rng, t):
    l, r, _ = t
    out, front = [], [0]
    while front:
        x = front.pop(rng.randrange(len(front)))
        out.append(x)
        if l[x] >= 0:
            front += [l[x], r[x]]
    return out
