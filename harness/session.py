"""Replays abstract session histories (spec/SessionGen.tla) into the real library and records them for
spec/Session.tla."""
import itertools
import random
import warnings

import numpy as np
import pandas as pd

from common import enc
import tab

warnings.filterwarnings("ignore")

from artemis._utilities.pd_calculator import PartialDependenceCalculator  # noqa: E402
from artemis.additivity import AdditivityMeter  # noqa: E402
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance  # noqa: E402
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod  # noqa: E402


def nfeat(data, name):
    return data.idx.get(name, 0) if isinstance(name, str) else 0


def table2(df, data):
    return [[nfeat(data, r[0]), enc(r[1])] for r in df.values.tolist()]


def table3(df, data):
    return [[nfeat(data, r[0]), nfeat(data, r[1]), enc(r[2])] for r in df.values.tolist()]


def observe(calc, data):
    s = [[enc(x) for x in calc.get_pd_single(nm)] for nm in data.names]
    m = [[enc(x) for x in calc.get_pd_minus_single(nm)] for nm in data.names]
    p = []
    for f, a in enumerate(data.names):
        row = []
        for g, b in enumerate(data.names):
            row.append([[enc(x) for x in r] for r in np.asarray(calc.get_pd_pairs(a, b)).tolist()] if f < g else [])
        p.append(row)
    return {"s": s, "p": p, "m": m}


def lookups(rng, calc, data):
    out = []
    for _ in range(3):
        f = rng.randrange(data.nf)
        vs = [rng.randrange(len(data.values[f])) for _ in range(rng.randint(1, 3))]
        res = calc.get_pd_single(data.names[f], [data.values[f][v] for v in vs])
        out += [{"f": [f + 1], "v": [v + 1], "o": enc(o)} for v, o in zip(vs, res)]
    if data.nf >= 2:
        for _ in range(4):
            f, g = rng.sample(range(data.nf), 2)
            vs = [(rng.randrange(len(data.values[f])), rng.randrange(len(data.values[g]))) for _ in range(rng.randint(1, 3))]
            res = calc.get_pd_pairs(data.names[f], data.names[g],
                                    [(data.values[f][v], data.values[g][w]) for v, w in vs])
            out += [{"f": [f + 1, g + 1], "v": [v + 1, w + 1], "o": enc(o)} for (v, w), o in zip(vs, res)]
    return out


class World:
    """The concrete objects behind one history."""

    def __init__(self, seed, ndata=1, nmodel=1, **opts):
        rng = self.rng = random.Random(seed)
        self.opts = opts
        dkw = {k: opts[k] for k in ("nf", "n", "maxlev", "kinds", "plain", "full") if k in opts}
        self.datas = [tab.make_data(rng, **dkw)]
        tries = 0
        while len(self.datas) < ndata:
            tries += 1
            d = tab.variant(rng, self.datas[0], opts.get("near", False) and tries < 20)
            if not any(list(d.X.columns) == list(x.X.columns) and d.rows == x.rows and d.values == x.values for x in self.datas):
                self.datas.append(d)
        self.rec = tab.Recorder()
        self.cur = {"current": 0, "datas": self.datas}
        self.models, self.mspec = [], []
        for _ in range(nmodel):
            den = rng.choice(opts.get("dens", [1, 1, 4, 64]))
            hasproba = opts.get("hasproba", rng.random() < .4)
            terms = {s: [tab.make_terms(rng, d, opts.get("style")) for d in self.datas]
                     for s in ("custom", "proba", "predict")}
            self.models.append(tab.Stub(self.cur, terms, den, self.rec, hasproba,
                                        rng.choice(["float", "int", "three"]), rng.choice(tab.FORMS),
                                        rng.sample(tab.DECOYS, rng.choice([0, 1, 3]))))
            self.mspec.append({"hasproba": hasproba, "den": den, **terms})
        self.extra = []          # samples that fits have drawn
        self.calcs = []          # (calculator, data no, model no, custom)
        self.objs = {}
        self.batch = self._batches()

    def _batches(self):
        d = self.datas[0]
        n = d.n
        lev = max(len(v) for v in d.values)
        return [1, n, n * lev, n * lev + 1, 3 * n * lev + self.rng.randint(0, 2 * n), 2000, self.opts.get("batch")]

    def subset(self, sel):
        """The concrete feature list for subset selector sel (1..6)."""
        nf = self.datas[0].nf
        r = random.Random(sel * 7919 + nf)
        size = {1: min(2, nf), 2: min(2, nf), 3: min(3, nf), 4: min(3, nf), 5: nf, 6: nf}[sel]
        return [f + 1 for f in r.sample(range(nf), size)]

    def obj(self, meth, no, norm):
        key = (meth, no)
        if key not in self.objs:
            rs = self.rng.randrange(10 ** 6)
            self.objs[key] = {"H": lambda: FriedmanHStatisticMethod(random_state=rs, normalized=norm),
                              "G": lambda: GreenwellMethod(random_state=rs), "I": PartialDependenceBasedImportance,
                              "A": lambda: AdditivityMeter(random_state=rs)}[meth]()
        o = self.objs[key]
        if meth == "H":
            if o.normalized != norm:
                o.normalized = norm
            if self.rng.random() < .3:      # a bystander
                FriedmanHStatisticMethod(normalized=not norm)
        return o


METHS = ["H", "G", "I", "A"]


def sampled(w, d, frame):
    """The rows a fit sampled, as another data set of the case (with the models over its levels); None if
    they are not rows of the data."""
    data = w.datas[d - 1]
    rows = data.codes(frame)
    if None in rows or any(rows.count(r) > [list(x) for x in data.rows].count(list(r)) for r in rows):
        return None
    sub = tab.Data(data.names, data.values, data.kinds, [[c - 1 for c in r] for r in rows], None)
    used = [sorted({r[f] for r in rows}) for f in range(data.nf)]
    lev = [len(v) for v in data.values]
    for m in w.mspec:
        for src in ("custom", "proba", "predict"):
            out = []
            for t in m[src][d - 1]:
                cells = itertools.product(*[used[f - 1] for f in t["v"]])
                new = []
                for cell in cells:
                    i = 0
                    for f, c in zip(t["v"], cell):
                        i = i * lev[f - 1] + c - 1
                    new.append(t["t"][i])
                out.append({"v": t["v"], "t": new})
            m[src].append(out)
    w.extra.append(sub)
    return sub


def results(o, meth, data):
    res = {"none": False}
    if meth in "HG":
        if o.ovo is None:
            return {"none": True}
        res["ovo"] = table3(o.ovo, data)
        if meth == "H":
            res["hasova"] = o.ova is not None
            res["ova"] = table2(o.ova, data) if o.ova is not None else []
    if meth in "HGI":
        if o.feature_importance is None:
            return {"none": True}
        res["imp"] = table2(o.feature_importance, data)
    if meth == "A":
        if o.additivity_index is None or o.full_result is None:
            return {"none": True}
        res["index"] = enc(o.additivity_index)
        fr = o.full_result
        known = [c for c in data.names if c in fr.columns]
        res["full"] = [[enc(x) for x in r] for r in fr[known].values.tolist()]
        res["cent"] = [enc(x) for x in fr["centered_prediction"].tolist()] if "centered_prediction" in fr.columns else []
    return res


def drive(job):
    """job: dict(id, seed, hist, asp, useobs, ndata, nmodel, nobj, opts) -> recorded case."""
    w = World(job["seed"], job.get("ndata", 1), job.get("nmodel", 1), **job.get("opts", {}))
    rng = random.Random(job["seed"] + 17)
    nobj = job.get("nobj", 1)
    ev = []
    useobs = job["useobs"]
    lastdata = {}
    for h in job["hist"]:
        if h["e"] == "calc":
            data = w.datas[h["d"] - 1]
            w.cur["current"] = w.datas.index(data)
            bs = w.batch[h["b"] - 1]
            w.rec.reset()
            kw = {}
            if h["custom"]:
                kw["predict_function"] = rng.choice(tab.CUSTOM)
            if not (bs == 2000 and rng.random() < .5):
                kw["batchsize"] = bs
            e = {"e": "calc", "d": h["d"], "m": h["m"], "custom": h["custom"], "bs": bs, "err": ""}
            e["obs"] = {}
            ev.append(e)
            try:
                c = PartialDependenceCalculator(w.models[h["m"] - 1], data.X, **kw)
                e["obs"] = observe(c, data) if useobs else {}
            except Exception as x:
                e["err"] = type(x).__name__
                break
            w.calcs.append((c, h["d"], h["m"], h["custom"]))
        elif h["e"] == "op":
            c, d, m, _ = w.calcs[h["k"] - 1]
            data = w.datas[d - 1]
            w.cur["current"] = w.datas.index(data)
            fs = w.subset(h["fs"])
            all_ = h["all"] or h["o"] != "pairs"
            if h["o"] == "pairs":
                ps = [list(p) for p in itertools.combinations(fs, 2)]
                rng.shuffle(ps)
                ps = [p if rng.random() < .5 else p[::-1] for p in ps]
                if h["none"]:
                    ps = [list(p) for p in itertools.combinations(range(1, data.nf + 1), 2)]
                    arg = None
                else:
                    arg = [(data.names[a - 1], data.names[b - 1]) for a, b in ps]
                o = {"op": "pairs", "ps": ps, "all": h["all"]}
                fn, a, kw = c.calculate_pd_pairs, ([] if arg is None else [arg]), {"all_combinations": h["all"]}
                if h["all"] and rng.random() < .5:
                    kw = {}
            else:
                if h["none"]:
                    fs, arg = list(range(1, data.nf + 1)), None
                else:
                    arg = [data.names[f - 1] for f in fs]
                o = {"op": h["o"], "fs": fs}
                fn = c.calculate_pd_single if h["o"] == "single" else c.calculate_pd_minus_single
                a, kw = ([] if arg is None else [arg]), {}
            if rng.random() < .1:
                kw["show_progress"] = True
            w.rec.reset(fail_at=rng.choice([1, 1, 2, 3]) if h["fault"] else None)
            err = ""
            try:
                fn(*a, **kw)
            except Exception as x:
                err = type(x).__name__
            fired = w.rec.fail_at is not None and w.rec.count >= w.rec.fail_at
            q = w.rec.q
            w.rec.reset()
            e = {"e": "op", "k": h["k"], "o": o, "fault": fired, "err": err, "lens": [x[1] for x in q],
                 "codes": sum((x[2] for x in q), []), "srcs": [x[0] for x in q]}
            e["obs"], e["looks"] = {}, []
            ev.append(e)
            if err and not fired:
                break
            try:
                e["obs"] = observe(c, data) if useobs else {}
                e["looks"] = lookups(rng, c, data) if useobs else []
            except Exception as x:
                e["err"], e["fault"] = "look-up:" + type(x).__name__, False
                break
        elif h["e"] == "fit":
            data = w.datas[h["d"] - 1]
            w.cur["current"] = w.datas.index(data)
            meth = h["meth"]
            o = w.obj(meth, h["obj"], h["norm"])
            fs = w.subset(h["fs"])
            if h["none"] or meth == "A":
                fs = list(range(1, data.nf + 1))
            k = h["k"]
            custom = h.get("custom", rng.random() < .4) if k == 0 else w.calcs[k - 1][3]
            kw = {}
            if k == 0:
                if custom:
                    kw["predict_function"] = rng.choice(tab.CUSTOM)
            else:
                kw["pd_calculator"] = w.calcs[k - 1][0]
                if custom and rng.random() < .5:
                    kw["predict_function"] = rng.choice(tab.CUSTOM)
            if meth != "A" and not h["none"]:
                kw["features"] = [data.names[f - 1] for f in fs]
            bs = w.batch[h["b"] - 1]
            if bs != 2000:
                kw["batchsize"] = bs
            if meth == "H":
                if not h["ova"] or rng.random() < .3:
                    kw["calculate_ova"] = h["ova"]
            X = data.X if rng.random() < .5 else data.X.copy()
            size = rng.randint(1, data.n) if k == 0 and not useobs and rng.random() < .25 else None
            if size is not None:
                kw["n"] = size
            if rng.random() < .15:
                kw["show_progress"] = True
            w.rec.reset()
            err = ""
            try:
                (o.importance if meth == "I" else o.fit)(w.models[h["m"] - 1], X, **kw)
            except Exception as x:
                err = type(x).__name__
            q = w.rec.q
            w.rec.reset()
            oid = METHS.index(meth) * nobj + h["obj"]
            e = {"e": "fit", "meth": meth, "k": k, "d": h["d"], "m": h["m"], "custom": custom, "fs": fs,
                 "norm": h["norm"], "ova": h["ova"], "bs": bs, "obj": oid, "err": err,
                 "lens": [x[1] for x in q], "codes": sum((x[2] for x in q), []), "srcs": [x[0] for x in q]}
            if size is not None and not err:
                sub = sampled(w, h["d"], o.X_sampled)
                if sub is None or sub.n != size:
                    e["err"] = err = "sample"
                else:
                    data, e["d"] = sub, len(w.datas) + len(w.extra)
            shown = lastdata.get(oid, data) if err else data
            try:
                e["res"] = results(o, meth, shown)
            except Exception as x:
                e["res"] = {"broken": type(x).__name__}
                e["err"] = e["err"] or "results:" + type(x).__name__
            if not err:
                lastdata[oid] = data
            e["obs"], e["looks"] = {}, []
            ev.append(e)
            if not err:
                try:
                    e["obs"] = observe(o.pd_calculator, data) if useobs else {}
                    e["looks"] = lookups(rng, o.pd_calculator, data) if useobs and k else []
                except Exception as x:
                    e["err"] = "look-up:" + type(x).__name__
    return {"id": job["id"], "asp": job["asp"], "useobs": useobs, "nobj": 4 * nobj,
            "datas": [d.spec() for d in w.datas + w.extra], "models": w.mspec, "ev": ev, "_job": job}
