"""Drives SejongOhMethod and PermutationImportance and records them for spec/Perm.tla."""
import itertools
import random
import warnings

import numpy as np
import pandas as pd

import tab
from common import enc
from session import table2, table3

warnings.filterwarnings("ignore")

from artemis._utilities.performance_metrics import Metric, RMSE, MSE, Accuracy  # noqa: E402
from artemis._utilities.domain import ProblemType  # noqa: E402
from artemis.importance_methods.model_agnostic import PermutationImportance  # noqa: E402
from artemis.interactions_methods.model_agnostic.performance_based import SejongOhMethod  # noqa: E402



class HitCount(Metric):
    """Metrics of the caller's own; classification metrics are to be maximised, the others minimised."""
    def __init__(self):
        super().__init__(ProblemType.CLASSIFICATION)

    def calculate(self, y_true, y_hat):
        return float(np.sum(np.ravel(y_true) == np.ravel(y_hat)))


class MAE(Metric):
    def __init__(self):
        super().__init__(ProblemType.REGRESSION)

    def calculate(self, y_true, y_hat):
        return np.abs(np.ravel(y_true) - np.ravel(y_hat)).mean()


class NegMAE(Metric):
    def __init__(self):
        super().__init__(ProblemType.CLASSIFICATION)

    def calculate(self, y_true, y_hat):
        return -np.abs(np.ravel(y_true) - np.ravel(y_hat)).mean()


class Excess(Metric):
    """Only predictions above the target are errors: the two arguments play different parts."""

    def __init__(self):
        super().__init__(ProblemType.REGRESSION)

    def calculate(self, y_true, y_hat):
        return np.maximum(np.ravel(y_hat) - np.ravel(y_true), 0).mean()


METRICS = {"Excess": Excess, "RMSE": RMSE, "MSE": MSE, "Accuracy": Accuracy, "HitCount": HitCount, "MAE": MAE, "NegMAE": NegMAE}


class PStub:
    def __init__(self, data, terms, den, cls, form):
        self.data, self.terms, self.den, self.cls = data, terms, den, cls
        self.form = form
        self.q = []
        self.lev = [len(v) for v in data.values]

    def predict(self, df):
        codes = self.data.codes(df)
        self.q.append([list(r) if r is not None else [0] * self.data.nf for r in codes])
        v = np.array([tab.BAD * self.den if r is None else tab.eval_terms(self.terms, self.lev, r) for r in codes], dtype=float)
        if self.cls:
            return tab.shaped((v > 0).astype(int), df, self.form)
        return tab.shaped(v / self.den, df, self.form)


def coarse_data(rng, n, nf):
    """Columns with few values, each several times."""
    names = rng.sample(rng.choice(tab.NAME_POOLS), nf)
    kinds = [rng.choice(["int", "float", "str", "cat", "f32", "i8"]) for _ in range(nf)]
    values = [tab.column_values(rng, k, 4) for k in kinds]
    cols = [rng.sample([i % 4 for i in range(n)], n) for _ in range(nf)]
    return tab.Data(names, values, kinds, [[cols[f][i] for f in range(nf)] for i in range(n)], tab.make_index(rng, n))


def unique_data(rng, n, nf):
    """Every column has distinct values, so a shuffle is visible and identifies its permutation."""
    names = rng.sample(rng.choice(tab.NAME_POOLS), nf)
    kinds = [rng.choice(["int", "float", "int", "dt", "f32", "i32"]) for _ in range(nf)]
    values = [tab.column_values(rng, k, n) for k in kinds]
    cols = [rng.sample(range(n), n) for _ in range(nf)]
    rows = [[cols[f][i] for f in range(nf)] for i in range(n)]
    return tab.Data(names, values, kinds, rows, tab.make_index(rng, n))


def changed(x, q):
    if len(q) != len(x):
        return None
    return frozenset(f + 1 for f in range(len(x[0])) if any(a[f] != b[f] for a, b in zip(x, q)))


def propose(x, q, ovo, imp, R):
    """Group the queries: triples per pair and repeat, singles per feature.  The specification verifies it."""
    out = propose_runs(x, q, ovo, imp)
    if out[3]:
        other = propose_blocks(x, q, ovo, imp, R)
        if other is not None:
            return other
    return out


def propose_blocks(x, q, ovo, imp, R):
    """The evaluations of a pair are together, but not those of a repeat: the k-th of each kind belong together."""
    ch = [changed(x, r) for r in q]
    pair_at = {frozenset(r[:2]): j for j, r in enumerate(ovo)}
    feat_at = {r[0]: j for j, r in enumerate(imp)}
    tri, one = [[] for _ in ovo], [[] for _ in imp]
    base = [k + 1 for k, c in enumerate(ch) if c == frozenset()]
    rest = [k for k, c in enumerate(ch) if c != frozenset()]
    if any(c is None for c in ch):
        return None
    p = 0
    while p < len(rest):
        block = rest[p:p + 3 * R]
        two = {ch[k] for k in block if len(ch[k]) == 2}
        if len(block) == 3 * R and len(two) == 1 and next(iter(two)) in pair_at:
            j = pair_at[next(iter(two))]
            f, g = frozenset([ovo[j][0]]), frozenset([ovo[j][1]])
            groups = [[k + 1 for k in block if ch[k] == c] for c in (f, g, f | g)]
            if all(len(z) == R for z in groups) and not tri[j]:
                tri[j] = [list(t) for t in zip(*groups)]
                p += 3 * R
                continue
        c = ch[rest[p]]
        if len(c) != 1 or next(iter(c)) not in feat_at:
            return None
        one[feat_at[next(iter(c))]].append(rest[p] + 1)
        p += 1
    return tri, one, base, ""


def propose_runs(x, q, ovo, imp):
    ch = [changed(x, r) for r in q]
    tri, one, base, err = [[] for _ in ovo], [[] for _ in imp], [], ""
    pair_at = {frozenset(r[:2]): j for j, r in enumerate(ovo)}
    feat_at = {r[0]: j for j, r in enumerate(imp)}
    rest = []
    for k, c in enumerate(ch):
        if c == frozenset():
            base.append(k + 1)
        else:
            rest.append(k)
    # pairs: the double shuffles in order, each with the nearest not yet used single shuffles of its features in the
    # same run of three consecutive evaluations
    used = set()
    idx = {k: p for p, k in enumerate(rest)}
    for k in rest:
        c = ch[k]
        if c is None or len(c) > 2:
            return tri, one, base, "a query changes other columns or rows"
        if len(c) == 2:
            if c not in pair_at:
                return tri, one, base, "a pair that was not asked for is shuffled"
            j = pair_at[c]
            f, g = ovo[j][0], ovo[j][1]
            best = None
            p = idx[k]
            for a in (p - 2, p - 1, p):      # runs of three containing k
                run = rest[max(0, a):a + 3]
                if a < 0 or len(run) < 3 or any(z in used for z in run):
                    continue
                cs = sorted(map(sorted, (ch[z] for z in run)))
                if cs == sorted([[f], [g], sorted([f, g])]):
                    best = run
                    break
            if best is None:
                return tri, one, base, "no matching single shuffles for a pair"
            used |= set(best)
            w = {ch[z]: z + 1 for z in best}
            tri[j].append([w[frozenset([f])], w[frozenset([g])], k + 1])
    for k in rest:
        if k in used:
            continue
        c = ch[k]
        if len(c) != 1 or next(iter(c)) not in feat_at:
            return tri, one, base, "an evaluation that was not asked for"
        one[feat_at[next(iter(c))]].append(k + 1)
    return tri, one, base, err


def drive(job):
    rng = random.Random(job["seed"])
    uniq = job["uniq"]
    # enough rows that a shuffle which happens to change nothing is practically impossible
    n = rng.randint(14, 15) if uniq else rng.randint(20, 22)
    if job["seed"] % 13 == 0:
        n = 49 if uniq else 48 + rng.randint(0, 40)
    nf = rng.choice([2, 3, 3])
    data = unique_data(rng, n, nf) if uniq else coarse_data(rng, n, nf)
    metric = rng.choice(["RMSE", "RMSE", "MSE", "Accuracy", "Accuracy", "HitCount", "MAE", "NegMAE", "Excess"])
    cls = metric in ("Accuracy", "HitCount")
    den = 1 if cls else rng.choice([1, 4])
    lev = [len(v) for v in data.values]
    terms = [{"v": [], "t": [rng.randint(-2, 2)]}]
    for f in range(nf):
        if rng.random() < .8:
            terms.append({"v": [f + 1], "t": [rng.randint(-9, 9) for _ in range(lev[f])]})
    for p in itertools.combinations(range(nf), 2):
        if rng.random() < .7:
            terms.append({"v": [p[0] + 1, p[1] + 1], "t": [rng.randint(-9, 9) for _ in range(lev[p[0]] * lev[p[1]])]})
    model = PStub(data, terms, den, cls, rng.choice(tab.FORMS))
    yi = [(1 if tab.eval_terms(terms, lev, r) + rng.randint(-6, 6) > 0 else 0) if cls else
          tab.eval_terms(terms, lev, r) + rng.randint(-4, 4) for r in data.rows]
    ynum = [v if cls else v / den for v in yi]
    ev = []
    objs = {}
    rowpos = {tuple(r): k for k, r in enumerate(data.rows)}
    for h in job["hist"]:
        key = (h["kind"], h["obj"])
        if key not in objs:
            seed = rng.choice([None, rng.randrange(1000)])
            seed = rng.randrange(1000) if seed is None and h["obj"] == 1 else seed
            objs[key] = (SejongOhMethod if h["kind"] == "fit" else PermutationImportance)(METRICS[metric](), random_state=seed)
        o = objs[key]
        if rng.random() < .4:       # a bystander with a metric of its own
            by = type(o)(METRICS[rng.choice(["RMSE", "MSE", "Accuracy", "HitCount"])](), random_state=1)
            if rng.random() < .5:
                (by.fit if h["kind"] == "fit" else by.importance)(model, data.X, np.array(ynum), n_repeat=1)
        y = {1: np.array(ynum), 2: pd.Series(ynum, index=data.X.index), 3: pd.Series(ynum)}[h["y"]]
        r2 = random.Random(h["fs"] * 31 + nf)
        fs = [f + 1 for f in r2.sample(range(nf), min(nf, 2 + h["fs"] % 2))]
        if h["none"]:
            fs = list(range(1, nf + 1))
        kw = {} if h["none"] else {"features": [data.names[f - 1] for f in fs]}
        if rng.random() < .15:
            kw["show_progress"] = True
        model.q = []
        e = {"kind": h["kind"], "fs": fs, "R": h["R"], "err": "", "hint": "", "tri": [], "one": [], "base": [], "q": [],
             "ovo": [], "imp": [], "x": data.rows, "y": yi}
        ev.append(e)
        try:
            if h["kind"] == "fit":
                if h["samp"]:
                    kw["n"] = n - h["n"] % 2 * 2
                o.fit(model, data.X, y, n_repeat=h["R"], **kw)
                xs = [list(r) if r else [0] * nf for r in data.codes(o.X_sampled)]
                ys = [int(round(float(v) * (1 if cls else den))) for v in np.asarray(o.y_sampled).tolist()]
                e["x"], e["y"] = xs, ys
                e["ovo"] = table3(o.ovo, data)
                e["imp"] = table2(o.feature_importance, data)
            else:
                e["imp"] = table2(o.importance(model, data.X, y, n_repeat=h["R"], **kw), data)
        except Exception as x:
            e["err"] = type(x).__name__
            break
        e["q"] = list(model.q)
        e["tri"], e["one"], e["base"], e["hint"] = propose(e["x"], e["q"], e["ovo"], e["imp"], h["R"])
        e["sampled"] = h["samp"]
    cases = []
    for k, e in enumerate(ev):
        cases.append({"id": "%s.%d" % (job["id"], k), "asp": job["asp"], "n": n, "nf": nf, "lev": lev, "rows": data.rows,
                      "y": yi, "terms": terms, "den": den, "cls": cls, "metric": metric, "uniq": uniq,
                      "sampled": e.pop("sampled", False), "ev": [e], "_job": job})
    return cases
