"""Concrete data sets and models for the abstract tables of spec/Tab.tla."""
import datetime as dt
import functools
import itertools
import random

import numpy as np
import pandas as pd

NAME_POOLS = [
    ["a", "b", "c", "d", "e"],
    ["x1", "x2", "x3", "x4", "x5"],
    ["c", "bc", "ab", "a", "b"],            # concatenations collide: a+bc = ab+c
    ["x-y", "x", "y-z", "z", "y"],          # joining with "-" collides
    ["B", "a", "b", "A", "C"],              # differ in case only
    ["feat 1", "Feature", "wartość", "Importance", "1"],
    ["z", "y", "x", "w", "v"],              # column order is not alphabetical
    ["size", "index", "values", "T", "shape"],   # clash with DataFrame attributes
    ["target", "prediction", "y", "id", "label"],
    ["Feature 1", "Feature 2", "Method", "Value", "variable"],   # the library's own column names
    ["Leaf", "depth", "gain", "interaction", "tree"],            # and those of its tree tables
]


def column_values(rng, kind, k):
    """k distinct values in increasing sort order."""
    if kind == "int":
        return sorted(rng.sample(range(-9, 40), k))
    if kind == "big":          # not representable as floats
        return [2 ** 53 + 1 + x for x in range(k)]
    if kind == "close":        # hardly different values
        return [1e6 + x / 1024 for x in range(k)] if rng.random() < .5 else [x * 2.0 ** -40 for x in range(k)]
    if kind == "float":
        return sorted(x / 8 for x in rng.sample(range(-60, 200), k))
    if kind == "str":
        return sorted(rng.sample(["u", "v", "lo", "hi", "A", "zz", "mid", "", "9", "10", "s1", "s2", "s3"] if rng.random() < .3 else
                                 ["u", "v", "lo", "hi", "A", "zz", "mid", "9", "10", "b", "s1", "s2", "s3", "s4"], k))
    if kind == "cat":
        return sorted(rng.sample(["red", "green", "blue", "black", "white", "pink", "cyan", "c1", "c2", "c3", "c4",
                                  "Zed"], k))
    if kind == "bool":
        return [False, True][:k] if k <= 2 else None
    if kind in ("f32", "f16"):
        return sorted(x / 8 for x in rng.sample(range(-60, 200), k))
    if kind in ("i8", "u8", "i32"):
        return sorted(rng.sample(range(0, 60), k))
    if kind == "dt":
        return sorted(pd.Timestamp(dt.date(2020, 1, 1)) + pd.Timedelta(days=d) for d in rng.sample(range(400), k))
    raise ValueError(kind)


DTYPES = {"f32": "float32", "f16": "float16", "i8": "int8", "u8": "uint8", "i32": "int32"}


class Data:
    """A DataFrame with its code table."""

    def __init__(self, names, values, kinds, rows, index):
        # compress: only values that occur count as levels
        nf = len(names)
        used = [sorted({r[f] for r in rows}) for f in range(nf)]
        self.values = [[values[f][c] for c in used[f]] for f in range(nf)]
        self.rows = [[used[f].index(r[f]) + 1 for f in range(nf)] for r in rows]
        self.names = list(names)
        self.kinds = list(kinds)
        self.n = len(rows)
        self.nf = nf
        cols = {}
        for f, nm in enumerate(names):
            v = [self.values[f][r[f] - 1] for r in self.rows]
            if kinds[f] == "cat":
                cols[nm] = pd.Categorical(v)
            elif kinds[f] == "str":
                cols[nm] = np.array(v, dtype=object)
            elif kinds[f] in DTYPES:
                cols[nm] = np.array(v, dtype=DTYPES[kinds[f]])
            else:
                cols[nm] = v
        self.X = pd.DataFrame(cols, columns=list(names))
        if index is not None:
            self.X.index = index
        self.decode = [{v: i + 1 for i, v in enumerate(self.values[f])} for f in range(nf)]
        self.num = [bool(k in ("int", "float", "bool", "big", "close") or k in DTYPES) for k in kinds]
        self.idx = {nm: f + 1 for f, nm in enumerate(names)}

    def spec(self):
        return {"n": self.n, "nf": self.nf, "lev": [len(v) for v in self.values], "rows": self.rows, "num": self.num}

    def codes(self, df):
        """Level codes of a queried frame (None for a row outside the table)."""
        if list(df.columns) != self.names:
            return [None] * len(df)
        for a, b in zip(df.dtypes, self.X.dtypes):
            # a model trained on categories or numbers does not take plain objects instead
            if a != b and (object in (a, b) or isinstance(a, pd.CategoricalDtype) or isinstance(b, pd.CategoricalDtype)):
                return [None] * len(df)
        cols = []
        for f, nm in enumerate(self.names):
            d = self.decode[f]
            col = df.iloc[:, f].tolist()
            out = []
            for v in col:
                try:
                    out.append(d.get(v))
                except TypeError:
                    out.append(None)
            cols.append(out)
        return [None if None in r else r for r in zip(*cols)]

    def row_code(self, r):
        if r is None:
            return -1
        acc = 0
        for f, v in enumerate(r):
            acc = acc * len(self.values[f]) + v - 1
        return acc


def make_index(rng, n):
    k = rng.randrange(9)
    if k == 0:
        ix = list(range(n))
        rng.shuffle(ix)
        return ix
    if k == 1:
        return ["r%d" % (n - i) for i in range(n)]
    if k == 2:
        return [rng.randrange(max(1, n // 2)) for _ in range(n)]      # duplicates
    if k == 3:
        return [100 + 3 * i for i in range(n)]
    if k == 4:
        return pd.date_range("2020-01-01", periods=n)
    if k == 5:
        return [rng.randrange(3 * n) / 2 for _ in range(n)]
    if k == 6:
        return pd.MultiIndex.from_tuples([(i % 2, n - i) for i in range(n)], names=["g", "i"])
    return None


def make_data(rng, nf=None, n=None, maxlev=4, kinds=None, names=None, plain=False, maxcells=None, full=False):
    nf = nf or rng.choice([2, 3, 3, 4])
    n = n or rng.choice([1] + 2 * list(range(2, 10)))
    pool = NAME_POOLS[0] if plain else rng.choice(NAME_POOLS)
    names = names or rng.sample(pool, nf)
    if kinds is None:
        style = rng.randrange(4)
        if style == 0:
            kinds = ["int"] * nf
        elif style == 1:
            kinds = [rng.choice(["float"] * 7 + ["close"]) for _ in range(nf)]
        else:
            kinds = [rng.choice(["int", "float", "str", "cat", "bool", "int", "str", "dt", "big", "close"] + list(DTYPES)) for _ in range(nf)]
    values, rows = [], []
    for f in range(nf):
        k = rng.choice([1, 2, 2, 3, 3, maxlev, maxlev])
        k = maxlev if full else min(k, maxlev)
        if kinds[f] == "bool":
            k = min(k, 2)
        values.append(column_values(rng, kinds[f], k))
    # some columns depend on others (correlated data), some rows are duplicated
    for i in range(n):
        if rows and rng.random() < 0.2:
            rows.append(list(rng.choice(rows)))
        else:
            rows.append([rng.randrange(len(values[f])) for f in range(nf)])
    if rng.random() < 0.3 and nf >= 2:
        for r in rows:
            r[1] = r[0] % len(values[1])
    return Data(names, values, kinds, rows, None if plain else make_index(rng, n))


def variant(rng, data, near=False):
    """Different data over the same columns: one cell changed, rows permuted, a row dropped, ..."""
    kind = 3 if near else rng.choice([0, 1, 2, 3, 3, 3, 4, 4, 5])
    vals = [list(v) for v in data.values]
    rows = [[c - 1 for c in r] for r in data.rows]
    names, kinds = list(data.names), list(data.kinds)
    if kind == 0 and data.n > 2:
        rows = rows[:-1]
    elif kind == 1:
        rows = rows + [list(rows[0])]
    elif kind == 2:
        names, kinds = names[::-1], kinds[::-1]
        vals = vals[::-1]
        rows = [r[::-1] for r in rows]
    elif kind == 4 and rows[::-1] != rows:  # the same rows in another order
        rows = rows[::-1]
    elif kind == 5:  # the same values under other names
        names = names[1:] + names[:1]
    else:
        done = False
        for r in rng.choice([rng.sample(rows, len(rows)), rows[::-1]]):
            for f in rng.sample(range(len(r)), len(r)):
                if len(vals[f]) > 1:
                    r[f] = (r[f] + 1) % len(vals[f])
                    done = True
                    break
            if done:
                break
        if not done:
            rows = rows + [list(rows[0])]
    idx = None if len(rows) != data.n else list(data.X.index)
    return Data(names, vals, kinds, rows, idx)


def make_terms(rng, data, style=None):
    """A model over the data's levels: integer tables over subsets of the features."""
    nf = data.nf
    lev = [len(v) for v in data.values]
    style = style if style is not None else rng.randrange(7)
    amp = rng.choice([3, 20, 100])

    def tab(v):
        size = 1
        for f in v:
            size *= lev[f]
        return {"v": [f + 1 for f in v], "t": [rng.randint(-amp, amp) for _ in range(size)]}

    terms = [{"v": [], "t": [rng.randint(-5, 30)]}]
    if style == 0:                                     # additive
        terms += [tab([f]) for f in range(nf)]
    elif style == 1:                                   # all pairs
        terms += [tab([f]) for f in range(nf)] + [tab(p) for p in itertools.combinations(range(nf), 2)]
    elif style == 2:                                   # one strong pair, an ignored feature maybe
        p = rng.sample(range(nf), 2)
        terms += [tab(p)] + [tab([f]) for f in range(nf) if rng.random() < .5]
    elif style == 3:                                   # full table
        terms += [tab(list(range(nf)))]
    elif style == 6:                                   # yes or no
        full = tab(list(range(nf)))
        terms = [dict(full, t=[x % 2 for x in full["t"]])]
    elif style == 4:                                   # constant, or a single effect
        if rng.random() < .5:
            terms += [tab([rng.randrange(nf)])]
    else:
        for _ in range(rng.randint(1, 4)):
            terms.append(tab(sorted(rng.sample(range(nf), rng.randint(1, nf)))))
    if data.n <= 9 and rng.random() < .12:             # small effects on a large level
        terms.append({"v": [], "t": [rng.choice([-1, 1]) * rng.randint(1000000, 1500000)]})
    return terms


def eval_terms(terms, lev, row):
    tot = 0
    for t in terms:
        i = 0
        for f in t["v"]:
            i = i * lev[f - 1] + row[f - 1] - 1
        tot += t["t"][i]
    return tot


BAD = 1e6 + 1          # prediction for a row that is not in the table


class Recorder:
    """Collects the model's queries: (source, length, row codes)."""

    def __init__(self):
        self.q = []
        self.fail_at = None      # raise on the n-th query from now on
        self.count = 0

    def reset(self, fail_at=None):
        self.q = []
        self.count = 0
        self.fail_at = fail_at


class ModelFailure(RuntimeError):
    pass


FORMS = ["array", "array", "array", "list", "series", "column", "bool"]


def shaped(y, df, form):
    """The same predictions as the caller's model or prediction function may return them."""
    if form == "list":
        return y.tolist()
    if form == "series":
        return pd.Series(y, index=df.index)
    if form == "column":
        return y.reshape(-1, 1)
    if form == "bool" and set(y.tolist()) <= {0, 1}:
        return y.astype(bool)
    return y


class Stub:
    """A deterministic model with separate tables per prediction source."""

    def __init__(self, datas, terms, den, rec, hasproba, out="float", form="array", decoys=()):
        # datas: all data sets this model may be asked about share values per column name
        self._datas, self._terms, self._den, self._rec, self._out = datas, terms, den, rec, out
        self._form = form
        if hasproba:
            self.predict_proba = self._proba
        # what else models offer or tell about themselves
        for name, value in decoys:
            setattr(self, name, value)

    def __repr__(self):                  # like scikit-learn's: the settings, not what was learnt
        return "Stub()"

    def get_params(self, deep=True):
        return {}

    def _eval(self, df, src):
        rec = self._rec
        rec.count += 1
        if rec.fail_at is not None and rec.count == rec.fail_at:
            raise ModelFailure("injected failure")
        d = self._datas["current"]
        data = self._datas["datas"][d]
        codes = data.codes(df)
        lev = [len(v) for v in data.values]
        rec.q.append((src, len(df), [data.row_code(r) for r in codes]))
        vals = [BAD * self._den if r is None else eval_terms(self._terms[src][d], lev, r) for r in codes]
        return np.array(vals, dtype=float) / self._den

    def predict(self, df):
        y = self._eval(df, "predict")
        if self._out == "int" and self._den == 1:
            y = y.astype(int)
        return shaped(y, df, self._form)

    def _proba(self, df):
        p = self._eval(df, "proba")
        return np.column_stack([1 - p, p, p * 0 + 7]) if self._out == "three" else np.column_stack([1 - p, p])


def custom_function(model, df):
    return shaped(model._eval(df, "custom"), df, model._form)


class CustomCallable:
    """A prediction function that is an object."""

    def __call__(self, model, df):
        return custom_function(model, df)

    def method(self, m, d):
        return custom_function(m, d)


def wrong_answers(df):
    """An output that no explanation asks for."""
    return np.arange(len(df)) * 131.0


DECOYS = [("n_classes_", 2), ("n_classes_", 3), ("classes_", np.array([0, 1])), ("classes_", np.array(["no", "yes"])),
          ("classes_", np.array([1, 0])), ("_estimator_type", "classifier"), ("_estimator_type", "regressor"),
          ("decision_function", wrong_answers), ("predict_log_proba", wrong_answers), ("score_samples", wrong_answers),
          ("transform", wrong_answers), ("predict_function", wrong_answers), ("objective", "binary:logistic")]
CUSTOM = [custom_function, custom_function, CustomCallable(), CustomCallable().method, functools.partial(custom_function),
          lambda m, d: custom_function(m, d)]
