"""Simulator of Python sessions (property C16).  Same command line and output protocol as sim/main.cpp:
  main.py gen    --world pysession --seed N
  main.py batch  --world pysession --start N --stride K --time S [--max M]
  main.py replay FILE
One plan = one session: models with generated data and options are created, sampled (alone, after noise, again on the
same object, or two at a time on two threads under a seeded scheduler that decides at every source line who runs),
predicted from, saved and loaded under storage faults.  Nothing here reads a clock except the batch loop."""
import gc, hashlib, json, os, random, resource, signal, struct, sys, threading, time, traceback, warnings

warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
from scipy.stats import gamma as gamma_dist, norm as norm_dist
import stochtree
from stochtree import BARTModel, BCFModel, JSONSerializer
from stochtree import Dataset, Residual, RNG, ForestSampler, ForestContainer, GlobalVarianceModel, LeafVarianceModel
from stochtree.utils import NotSampledError

PKG = os.path.dirname(os.path.abspath(stochtree.__file__))
SCRATCH = None


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Stats:
    def __init__(self):
        self.steps, self.probe, self.fault, self.states = 0, {}, {}, set()

    def p(self, k, n=1):
        self.probe[k] = self.probe.get(k, 0) + n

    def f(self, k):
        self.fault[k] = self.fault.get(k, 0) + 1


ST = Stats()


# ------------------------------------------------------------------ plans
def gen(seed, thorough=False):
    r = random.Random(seed)
    ops = []
    nm = r.choice([1, 2, 2, 3])
    law = r.random() < 0.33
    for i in range(nm):
        ops.append("op new m=%d %s" % (i, " ".join("%s=%s" % kv for kv in gen_model(r, law and i == 0, thorough).items())))
    todo = list(range(nm))
    live = []
    for _ in range(r.randint(3, 14 if thorough else 9)):
        c = r.random()
        if todo and (c < .45 or not live):
            if len(todo) >= 2 and r.random() < .35:
                a, b = todo.pop(0), todo.pop(0)
                ops.append("op co a=%d b=%d sched=%d rate=%g" % (a, b, r.getrandbits(30), r.choice([.01, .05, .3])))
                live += [a, b]
            else:
                a = todo.pop(0)
                ops.append("op sample m=%d" % a)
                live.append(a)
            continue
        m = r.choice(live)
        k = r.choice(["predict"] * 5 + ["noise"] * 3 + ["save"] * 4 + ["load"] * 2 + ["resample"] * 2 + ["bad"] * 2 + ["json"])
        if k == "predict":
            ops.append("op predict m=%d on=%s rows=%s s=%d" % (m, r.choice(["train", "test"]), r.choice(["all", "perm", "sub", "one"]), r.getrandbits(30)))
        elif k == "noise":
            ops.append("op noise what=%s s=%d" % (r.choice(["npseed", "npdraw", "pyrandom", "gc", "heap", "errstate"]), r.getrandbits(30)))
        elif k == "save":
            ops.append("op save m=%d how=%s fault=%s at=%g s=%d" % (m, r.choice(["file", "serializer"]), r.choice(["none", "none", "medium-full", "medium-full", "missing-directory", "is-directory", "full-device"]), r.random(), r.getrandbits(30)))
        elif k == "load":
            ops.append("op load m=%d how=%s fault=%s at=%g" % (m, r.choice(["file", "serializer"]), r.choice(["truncated", "missing", "is-directory", "other-document"]), r.random()))
        elif k == "resample":
            ops.append("op resample m=%d other=%d" % (m, r.choice(live)))
        elif k == "bad":
            ops.append("op bad m=%d what=%s" % (m, r.choice(["rows", "cols", "unsampled", "testcols", "negative-weights", "type"])))
        elif k == "json":
            ops.append("op json m=%d s=%d" % (m, r.getrandbits(30)))
    return "world pysession\nseed %d\n" % seed + "\n".join(ops) + "\n"


def gen_model(r, law, thorough):
    kind = r.choice(["bart", "bart", "bcf"]) if law else r.choice(["bart", "bart", "bcf", "bcf", "low"])
    a = dict(kind=kind, data=r.getrandbits(30), n=r.randint(20, 70), p=r.randint(1, 4), x=r.choice(["f8", "f8", "f4", "int", "forder", "strided", "readonly", "df", "df", "dfnum", "one"]),
             y=r.choice(["1d", "1d", "2d", "f4", "int", "strided"]), nt=r.choice([0, 0, 1, 2, 15]), yscale=r.choice([1, 1, 50, 0.01]))
    if r.random() < .2:
        a["dup"] = 1
    a["seed"] = r.choice([0, 1, r.getrandbits(31) - 1, r.randint(1, 1000)])
    if kind == "low":
        a["own"] = r.choice([0, 1, 1])
    g, b, m = r.randint(0, 3), r.choice([0, 0, 2]), r.choice([0, 1, 3, 4])
    if g + b + m == 0:
        m = 2
    if law:
        g, b, m = r.choice([(0, 0, 1), (1, 0, 0), (1, 1, 1), (1, 0, 1)])
        tot = 400 if not thorough else 1500
        g, b, m = g * tot // (g + b + m), b * tot // (g + b + m), m * tot // (g + b + m)
        a.update(n=r.randint(20, 30), law=1, x=r.choice(["f8", "f8", "one", "df"]))
        if r.random() < .33:     # many cheap moves of small trees over data frames with long categorical columns
            a.update(law=2, x=r.choice(["df"] * 5 + ["f8"]), lv=r.choice([3, 8, 12]))
            if a["x"] == "df" and r.random() < .7:
                a["only"] = r.choice([1, 1, 2, 3])
            g, b, m = 0, 0, 6000 if thorough else 2500
    if a["x"] == "df" and r.random() < .3:
        a["ign"] = r.choice([1, 1, 2, 3])
    a.update(num_gfr=g, num_burnin=b, num_mcmc=m)
    for k in ("keep_gfr", "keep_burnin"):
        if r.random() < .35:
            a[k] = 1
    if r.random() < .4:
        a["cutpoint_grid_size"] = r.choice([1, 2, 5, 100])
    if r.random() < .4:
        a["nu"] = r.choice([1.5, 4.0, 10.0])
    if r.random() < .3:
        a["lamb"] = r.choice([.01, .5, 2.0])
    if r.random() < .3:
        a["sigma2"] = r.choice([.05, .5, 1.0, 3.0])
    if r.random() < .3:
        a["q"] = r.choice([.5, .75, .99])
    if r.random() < .3:
        a["sample_sigma_global"] = 0
    if kind != "bcf":
        a["num_trees"] = r.choice([1, 1, 2, 3]) if law else r.randint(1, 8)
        a["basis"] = r.choice([0, 0, 1, 1]) if law else r.choice([0, 0, 0, 1, 1, 2, 3])
        a["btype"] = r.choice(["1d", "2d", "f4", "int", "strided", "readonly"])
        if r.random() < .3:
            a["sample_sigma_leaf"] = 0
        for k, v in (("alpha", [.3, .8, .99]), ("beta", [1.0, 1.5, 3.0]), ("min_samples_leaf", [1, 2, 10]), ("a_leaf", [1.5, 6.0]), ("b_leaf", [.05, .5]), ("sigma_leaf", [.02, .3])):
            if r.random() < .35:
                a[k] = r.choice(v)
    else:
        a["num_trees_mu"], a["num_trees_tau"] = r.randint(1, 6), r.randint(1, 5)
        a["z"] = r.choice(["bin", "bin", "bin", "binint", "binbool", "pm1", "cont", "multi"])
        a["z1d"] = r.choice([0, 1])
        a["pi"] = r.choice(["given", "given", "none"])
        a["propensity_covariate"] = r.choice(["mu", "tau", "both", "none"])
        if a["z"] == "multi" and a["pi"] == "none":
            a["propensity_covariate"] = "none"
        if r.random() < .3:
            a["adaptive_coding"] = 0
        if r.random() < .3:
            a["b_0"], a["b_1"] = r.choice([(0.0, 1.0), (-1.0, 1.0), (.2, .9)])
        if r.random() < .3:
            a["sample_sigma_leaf_mu"] = 0
        if r.random() < .4:
            a["sample_sigma_leaf_tau"] = 1
        if r.random() < .3:
            a["slt"] = r.choice(["float", "matrix"])
        for f in ("mu", "tau"):
            if r.random() < .3:
                a["keep_vars_" + f] = r.choice(["list", "array", "names", "namearray"])
            elif r.random() < .3:
                a["drop_vars_" + f] = r.choice(["list", "array", "names", "namearray"])
            for k, v in (("alpha", [.3, .8, .99]), ("beta", [1.0, 1.5, 3.0]), ("min_samples_leaf", [1, 2, 10]), ("a_leaf", [1.5, 6.0]), ("b_leaf", [.05, .5])):
                if r.random() < .25:
                    a[k + "_" + f] = r.choice(v)
        if r.random() < .25:
            a["sigma_leaf_mu"] = r.choice([.02, .3])
        if r.random() < .35:
            a["weights"] = r.choice(["uneven", "zero"])
    if law:
        for f in ("_mu", "_tau") if kind == "bcf" else ("",):
            if r.random() < .7:
                a["alpha" + f], a["beta" + f] = r.choice([.02, .5, .99]), r.choice([1.0, 5.0])
            if r.random() < .5:
                a["min_samples_leaf" + f] = r.choice([1, 2])
        if kind == "bcf":
            a.update(num_trees_mu=1, num_trees_tau=1, z=r.choice(["cont", "bin", "bin", "pm1"]), adaptive_coding=r.choice([0, 1, 1]), sample_sigma_global=0, sigma2=r.choice([.3, 1.0]), sigma_leaf_mu=r.choice([.1, .5]), slt="float")
            for k in ("b_0", "b_1"):
                a.pop(k, None)
            if a["adaptive_coding"] and a["z"] == "bin":
                a.update(num_gfr=0, num_burnin=0, num_mcmc=1500, sigma2=.3, n=r.randint(30, 60))
            if a["pi"] == "none":
                a["pi"] = "given"
        if a["law"] == 2:
            for f in ("_mu", "_tau") if kind == "bcf" else ("",):
                a.update({"alpha" + f: r.choice([.5, .8]), "beta" + f: r.choice([3.0, 5.0]), "min_samples_leaf" + f: 1})
            if kind == "bcf":
                a.update(propensity_covariate=r.choice(["mu", "mu", "tau", "tau", "both", "none"]), num_gfr=0, num_burnin=0, num_mcmc=m, sigma_leaf_mu=.02, sample_sigma_leaf_mu=0, sample_sigma_leaf_tau=0)
            else:
                a.update(num_trees=1, sample_sigma_leaf=0, sigma_leaf=.02)
    if not law:
        # about one model in twelve leaves the small sizes in one direction
        b = random.Random("large %s" % a["data"])
        if b.random() < .08:
            how = b.choice(["trees", "trees", "rows", "columns", "iterations"])
            if how == "trees":
                for k in (("num_trees_mu", "num_trees_tau") if kind == "bcf" else ("num_trees",)):
                    a[k] = b.choice([40, 110, 210, 300])
                a.update(num_gfr=b.choice([0, 1]), num_burnin=0, num_mcmc=b.choice([1, 2]), n=b.randint(20, 40))
            elif how == "rows":
                a.update(n=b.choice([300, 1030, 2000]), nt=b.choice([0, 400]), num_gfr=b.choice([0, 1]), num_mcmc=2)
            elif how == "columns":
                a.update(p=b.randint(10, 40))
            else:
                a.update(num_gfr=b.choice([0, 1, 12]), num_burnin=b.choice([0, 20]), num_mcmc=b.choice([30, 110]))
                for k in (("num_trees_mu", "num_trees_tau") if kind == "bcf" else ("num_trees",)):
                    a[k] = b.randint(1, 2)
    return a


def parse(text):
    ops = []
    seed = 0
    for line in text.splitlines():
        if line.startswith("op "):
            t = line.split()
            ops.append((t[1], dict(x.split("=", 1) for x in t[2:])))
        elif line.startswith("seed "):
            seed = int(line.split()[1])
    return seed, ops


def num(a, k, default=None):
    if k not in a:
        return default
    v = a[k]
    return float(v) if ("." in v or "e" in v) else int(v)


# ------------------------------------------------------------------ inputs of a model
def cols_of(kind, p):
    return 1 if kind == "one" else p


class Inputs:
    """data and options of one model, rebuilt identically from the attributes of its plan line"""

    def __init__(self, a):
        self.a = a
        rs = np.random.RandomState(int(a["data"]))
        n, p, nt = int(a["n"]), int(a["p"]), int(a["nt"])
        xk = a["x"]
        p = cols_of(xk, p)
        self.n, self.nt, self.xk = n, nt, xk
        tot = n + max(nt, 1)
        base = rs.rand(tot, p) * 4 - 2
        if xk == "int":
            base = np.floor(base * 3)
        if p > 1 and "dup" in a:
            base[:, 1] = base[:, 0]
        self.num = base
        self.frame = None
        if xk in ("df", "dfnum"):
            d = {}
            for j in range(p):
                d["v%d" % j] = base[:, j]
            if xk == "df":
                lv = list("zxywabcdefgh")
                d["u"] = pd.Categorical(rs.choice(lv[:int(a.get("lv", 3))], tot), categories=lv[:max(int(a.get("lv", 3)), rs.randint(3, 5))])
                d["o"] = pd.Categorical(rs.choice(["lo", "mid", "hi"], tot), categories=["lo", "mid", "hi"], ordered=True)
                d["b"] = rs.rand(tot) > .5
                d["i"] = rs.randint(-5, 6, tot)
                s = np.concatenate([["aa", "bb", "c"], rs.choice(["aa", "bb", "c"], tot - 3)])
                d["s"] = pd.array(s, dtype="string")
                if int(a.get("ign", 0)):     # columns of types the package announces to ignore
                    d["when"] = pd.Timestamp("2020-02-01") + pd.to_timedelta(rs.randint(0, 999, tot), unit="h")
                    if int(a["ign"]) > 1:
                        d["obj"] = np.array(rs.choice(["p", "q"], tot), dtype=object)
                    if int(a["ign"]) > 2:
                        d["gap"] = pd.to_timedelta(rs.randint(0, 999, tot), unit="h")
            names = list(d)
            rs.shuffle(names)
            if xk == "df" and int(a.get("only", 0)):
                names = (["u"] + [k for k in names if k != "u"])[:int(a["only"])]
            self.frame = pd.DataFrame({k: d[k] for k in names})
        sig = base[:, 0] + (base[:, -1] > 0)
        if self.frame is not None and "o" in self.frame:
            sig = sig + (self.frame["o"].cat.codes.to_numpy() == 2) * 1.0
        zk = a.get("z", "bin")
        zb = (rs.rand(tot) < 1 / (1 + np.exp(-base[:, 0]))) * 1.0
        zb[:2] = [0, 1]
        if nt >= 2:
            zb[n:n + 2] = [0, 1]
        zc = rs.rand(tot)
        zm = rs.rand(tot, 2)
        self.Z = {"bin": zb, "binint": zb.astype(int), "binbool": zb.astype(bool), "pm1": 2 * zb - 1, "cont": zc, "multi": zm}[zk]
        self.pi = np.clip(rs.rand(tot), .05, .95)
        self.W = rs.rand(tot, 3) + .5
        bt = a.get("btype", "2d")
        if bt == "int":
            self.W = np.floor(self.W * 4)
        noise = rs.randn(tot) * .5
        y = sig + noise
        if a["kind"] == "bcf":
            zz = self.Z[:, 0] if self.Z.ndim == 2 else self.Z
            y = y + zz * (1 + .5 * base[:, 0])
        y = y * float(a["yscale"])
        if a["y"] == "int":
            y = np.round(y / float(a["yscale"]) * 10)
        self.y = y[:n]
        self.wts = rs.rand(tot) + .2     # variance weights of the low-level sessions
        self.nb = int(a.get("basis", 0))

    # --- what the caller hands over
    def _x(self, rows):
        if self.frame is not None:
            return self.frame.iloc[rows].reset_index(drop=True) if True else None
        x = self.num[rows]
        k = self.xk
        if k == "f4":
            return x.astype(np.float32)
        if k == "int":
            return x.astype(np.int64)
        if k == "forder":
            return np.asfortranarray(x)
        if k == "strided":
            w = np.full((x.shape[0] * 2, x.shape[1] * 2), 7.5)
            w[::2, ::2] = x
            return w[::2, ::2]
        if k == "readonly":
            x = x.copy()
            x.flags.writeable = False
            return x
        if k == "one":
            return x[:, 0].copy()
        return x.copy()

    def _y(self):
        k, y = self.a["y"], self.y
        if k == "2d":
            return y[:, None].copy()
        if k == "f4":
            return y.astype(np.float32)
        if k == "int":
            return y.astype(np.int64)
        if k == "strided":
            w = np.full(2 * y.size, -3.5)
            w[::2] = y
            return w[::2]
        return y.copy()

    def _w(self, rows):
        w = self.W[rows, :self.nb]
        k = self.a.get("btype", "2d")
        if k == "1d" and self.nb == 1:
            return w[:, 0].copy()
        if k == "f4":
            return w.astype(np.float32)
        if k == "int":
            return w.astype(np.int64)
        if k == "strided":
            v = np.full((w.shape[0] * 2, w.shape[1] * 3), 9.5)
            v[::2, ::3] = w
            return v[::2, ::3]
        w = w.copy()
        if k == "readonly":
            w.flags.writeable = False
        return w

    def _z(self, rows):
        z = self.Z[rows].copy()
        if z.ndim == 1 and not int(self.a.get("z1d", 1)):
            z = z[:, None]
        return z

    def rows(self, which):
        return np.arange(self.n) if which == "train" else np.arange(self.n, self.n + self.nt)

    def pred_args(self, rows):
        """arguments of predict for the given data rows"""
        if self.a["kind"] == "bart":
            return (self._x(rows), self._w(rows)) if self.nb else (self._x(rows),)
        pi = self.pi[rows].copy() if self.pi_given() else None
        return (self._x(rows), self._z(rows), pi)

    def pi_given(self):
        return self.a.get("pi") == "given"

    def subset_names(self):
        return list(self.frame.columns) if self.frame is not None else None

    def num_orig(self):
        return self.frame.shape[1] if self.frame is not None else self.num.shape[1]

    def subset(self, f):
        """allowed original columns of forest f, and the option as handed over"""
        po = self.num_orig()
        rs = np.random.RandomState(int(self.a["data"]) % 100003 + (1 if f == "tau" else 2))
        keep = sorted(rs.choice(po, rs.randint(1, po + 1), replace=False).tolist())
        if self.frame is not None and all(self.frame.columns[j] in ("when", "obj", "gap") for j in keep):
            keep = list(range(po))
        for opt in ("keep_vars_", "drop_vars_"):
            if opt + f in self.a:
                form = self.a[opt + f]
                idx = keep if opt[0] == "k" else [j for j in range(po) if j not in keep]
                if not idx:
                    return set(range(po)), {}
                if form in ("names", "namearray") and self.frame is None:
                    form = "list"
                if form in ("names", "namearray"):
                    nm = [self.frame.columns[j] for j in idx]
                    val = nm if form == "names" else np.array(nm)
                else:
                    val = list(idx) if form == "list" else np.array(idx)
                return set(keep), {opt + f: val}
        return set(range(po)), {}

    def kwargs(self):
        a = self.a
        tr, te = self.rows("train"), self.rows("test")
        k = dict(X_train=self._x(tr), y_train=self._y(), random_seed=int(a["seed"]), num_gfr=int(a["num_gfr"]), num_burnin=int(a["num_burnin"]), num_mcmc=int(a["num_mcmc"]))
        for o in ("keep_gfr", "keep_burnin", "sample_sigma_global", "sample_sigma_leaf", "sample_sigma_leaf_mu", "sample_sigma_leaf_tau", "adaptive_coding"):
            if o in a:
                k[o] = bool(int(a[o]))
        for o in ("cutpoint_grid_size", "nu", "lamb", "sigma2", "q", "num_trees", "num_trees_mu", "num_trees_tau", "b_0", "b_1", "sigma_leaf", "sigma_leaf_mu"):
            if o in a:
                k[o] = num(a, o)
        for o in ("alpha", "beta", "min_samples_leaf", "a_leaf", "b_leaf"):
            for s in ("", "_mu", "_tau"):
                if o + s in a:
                    k[o + s] = num(a, o + s)
        if self.nt:
            k["X_test"] = self._x(te)
        if a["kind"] == "bart":
            if self.nb:
                k["basis_train"] = self._w(tr)
                if self.nt:
                    k["basis_test"] = self._w(te)
        else:
            k["Z_train"] = self._z(tr)
            if self.nt:
                k["Z_test"] = self._z(te)
            k["propensity_covariate"] = a["propensity_covariate"]
            if self.pi_given():
                k["pi_train"] = self.pi[tr].copy()
                if self.nt:
                    k["pi_test"] = self.pi[te].copy()
            if "slt" in a:
                d = self.Z.shape[1] if self.Z.ndim == 2 else 1
                k["sigma_leaf_tau"] = .2 if a["slt"] == "float" else .2 * np.eye(d) + .05
            for f in ("mu", "tau"):
                k.update(self.subset(f)[1])
            w = self.weights()
            if w is not None:
                k["variable_weights"] = w
        return k

    def weights(self):
        if "weights" not in self.a:
            return None
        po = self.num_orig()
        w = np.linspace(1, 2, po)
        if self.a["weights"] == "zero" and po > 1:
            # a zero weight on the last column, unless a forest may use only that one
            ok = all(self.subset(f)[0] - {po - 1} or self.a["propensity_covariate"] in (f, "both") for f in ("mu", "tau"))
            if ok:
                w[po - 1] = 0
        return w

    # --- the simulator's own reading of the data
    def processed(self, rows):
        """float matrix of covariates as documented, and the original column of each of its columns"""
        if self.frame is None:
            x = self.num[rows]
            if self.xk == "f4":
                x = x.astype(np.float32).astype(float)
            return x, list(range(x.shape[1]))
        out, orig = [], []
        for j, nme in enumerate(self.frame.columns):
            col = self.frame[nme].iloc[rows]
            if nme in ("when", "obj", "gap"):
                continue
            if isinstance(col.dtype, pd.CategoricalDtype):
                if col.dtype.ordered:
                    out.append(col.cat.codes.to_numpy().astype(float))
                    orig.append(j)
                else:
                    for c in col.cat.categories:
                        out.append((col.to_numpy() == c) * 1.0)
                        orig.append(j)
            elif isinstance(col.dtype, pd.StringDtype):
                for c in sorted(set(self.frame[nme].iloc[:self.n].tolist())):
                    out.append(np.array([v == c for v in col.tolist()]) * 1.0)
                    orig.append(j)
            else:
                out.append(col.to_numpy().astype(float))
                orig.append(j)
        return np.column_stack(out), orig

    def own_y(self):
        return np.asarray(self._y(), dtype=np.float64).reshape(-1) if self.a["y"] != "f4" else self._y().astype(np.float64)

    def own_w(self, rows):
        return np.asarray(self._w(rows), dtype=float).reshape(len(rows), -1)


# ------------------------------------------------------------------ the simulator's own reading of a model
def dump(container):
    s = JSONSerializer()
    lab = s.add_forest(container)
    return json.loads(s.json_cpp.DumpJson())["forests"][s.forest_labels[-1]]


def leaf_ids(t, X):
    left, right, feat, thr = t["left"], t["right"], t["split_index"], t["threshold"]
    ids = np.zeros(X.shape[0], dtype=int)
    stack = [(0, np.arange(X.shape[0]))]
    while stack:
        nid, rows = stack.pop()
        if left[nid] == -1:
            ids[rows] = nid
            continue
        go = X[rows, feat[nid]] <= thr[nid]
        stack.append((left[nid], rows[go]))
        stack.append((right[nid], rows[~go]))
    return ids


def leaf_values(t, ids, dim):
    if dim == 1:
        return np.asarray(t["leaf_value"], dtype=float)[ids][:, None]
    v = np.asarray(t["leaf_vector"], dtype=float)
    b = np.asarray(t["leaf_vector_begin"])[ids].astype(int)
    return np.stack([v[b + k] for k in range(dim)], axis=1)


def raw_tree(t, X, dim):
    return leaf_values(t, leaf_ids(t, X), dim)


def raw_forest(c, s, X):
    """[rows, dim] sum of leaf values of retained sample s"""
    f = c["forest_%d" % s]
    dim = c["output_dimension"]
    r = np.zeros((X.shape[0], dim))
    for k in range(f["num_trees"]):
        r += raw_tree(f["tree_%d" % k], X, dim)
    return r


def reachable(t):
    out, st = [], [0]
    while st:
        x = st.pop()
        out.append(x)
        if t["left"][x] != -1:
            st += [t["left"][x], t["right"][x]]
    return out


def close(a, b, scale):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-8 * scale)


def digest_arrays(named):
    h = hashlib.sha256()
    for k in sorted(named):
        v = named[k]
        h.update(k.encode())
        if isinstance(v, np.ndarray):
            h.update(str(v.shape).encode())
            h.update(np.ascontiguousarray(v, dtype=np.float64).tobytes())
        else:
            h.update(repr(v).encode())
    return h.hexdigest()[:16]


RESULTS = ["y_hat_train", "y_hat_test", "mu_hat_train", "mu_hat_test", "tau_hat_train", "tau_hat_test", "global_var_samples", "leaf_scale_samples",
           "leaf_scale_mu_samples", "leaf_scale_tau_samples", "b0_samples", "b1_samples", "y_bar", "y_std"]


def containers(m, kind):
    return {"f": m.forest_container} if kind == "bart" else {"mu": m.forest_container_mu, "tau": m.forest_container_tau}


def results(m, inp):
    named = {}
    a = inp.a
    for k in RESULTS:
        if k.endswith("_test") and not inp.nt:
            continue
        if k == "global_var_samples" and not int(a.get("sample_sigma_global", 1)):
            continue
        if k.startswith("leaf_scale") and not getattr(m, k.replace("leaf_scale", "sample_sigma_leaf").replace("_samples", ""), False):
            continue
        if k in ("b0_samples", "b1_samples") and not getattr(m, "adaptive_coding", False):
            continue
        if hasattr(m, k):
            named[k] = np.asarray(getattr(m, k))
    for k, c in containers(m, a["kind"]).items():
        named["json_" + k] = json.dumps(dump(c), sort_keys=True)
    return named


def kept(a):
    g, b, m = int(a["num_gfr"]), int(a["num_burnin"]), int(a["num_mcmc"])
    if m > 0:
        idx = list(range(g + b, g + b + m))
        if int(a.get("keep_gfr", 0)) and g > 0:
            idx = list(range(g)) + idx
        elif int(a.get("keep_burnin", 0)) and b > 0 and not int(a.get("keep_gfr", 0)):
            idx = list(range(g, g + b)) + idx
        elif int(a.get("keep_burnin", 0)) and b > 0:
            idx = list(range(g, g + b)) + idx
        return idx
    return list(range(g)) if g > 0 else list(range(b))


def freeze(v):
    if isinstance(v, pd.DataFrame):
        return ("df", list(v.columns), [str(t) for t in v.dtypes], list(v.index), v.to_csv())
    if isinstance(v, np.ndarray):
        return ("nd", v.dtype.str, v.shape, v.strides, v.tobytes(), v.flags.writeable)
    return repr(v)


# ------------------------------------------------------------------ law: values drawn by a session against their posteriors
def dkw(us, what):
    us = np.sort(np.asarray(us))
    n = us.size
    if n == 0:
        return
    if us[0] < 1e-13 or us[-1] > 1 - 1e-13:
        bad = us[0] if us[0] < 1e-13 else us[-1]
        raise Violation("law-" + what, "a drawn value has posterior distribution function value %.3g (over %d draws)" % (bad, n))
    i = np.arange(1, n + 1)
    d = max(np.max(i / n - us), np.max(us - (i - 1) / n))
    eps = np.sqrt(np.log(2e13) / (2 * n))
    ST.p("law-" + what, n)
    if d > eps:
        raise Violation("law-" + what, "%d draws deviate from their posteriors by %.3f in distribution (limit %.3f)" % (n, d, eps))


class Events:
    """events whose exact probability is known given everything before them (Freedman's inequality)"""

    def __init__(self):
        self.e = {}

    def add(self, k, hit, p):
        x = self.e.setdefault(k, [0.0, 0.0, 0.0, 0, 0])
        p = min(1.0, max(0.0, p))
        x[0] += (1.0 if hit else 0.0) - p
        x[1] += p * (1 - p)
        x[2] += p
        x[3] += 1
        x[4] += bool(hit)

    def judge(self, what):
        for k in sorted(self.e):
            d, v, ex, n, hits = self.e[k]
            ST.p("law-tree-moves", n)
            if 100 * np.exp(-d * d / (2 * (1.05 * v + 1e-9 + abs(d) / 3))) < 1e-13:
                raise Violation("law-tree-moves", "%s%s: %d times in %d steps, exact expectation %.1f" % (what, k, hits, n, ex))


def shape_of(t):
    """nodes in a fixed order: (leaf, feature, threshold)"""
    out, st = [], [0]
    while st:
        x = st.pop()
        if t["left"][x] == -1:
            out.append(None)
        else:
            out.append((t["split_index"][x], t["threshold"][x]))
            st += [t["right"][x], t["left"][x]]
    return out


def mcmc_law(ev, old, new, X, w, part, s2, tau, alpha, beta, m, wts):
    """one Metropolis-Hastings step of a tree with scalar leaves: exact probabilities of growing (per feature) and pruning"""
    n, p = X.shape
    rows = {0: np.arange(n)}
    depth, parent, leaves, inner = {0: 0}, {0: None}, [], []
    st = [0]
    while st:
        x = st.pop()
        if old["left"][x] == -1:
            leaves.append(x)
            continue
        inner.append(x)
        go = X[rows[x], old["split_index"][x]] <= old["threshold"][x]
        for c, q in ((old["left"][x], rows[x][go]), (old["right"][x], rows[x][~go])):
            rows[c], depth[c], parent[c] = q, depth[x] + 1, x
            st.append(c)
    isleaf = set(leaves)
    lps = [x for x in inner if old["left"][x] in isleaf and old["right"][x] in isleaf]
    can = {x: rows[x].size >= 2 * m for x in leaves}
    if not lps and not any(can.values()):
        return
    pg = 1.0 if not lps else .5 if any(can.values()) else 0.0

    def lml(a, b):
        return -.5 * np.log1p(tau * a) + .5 * b * b / (1 / tau + a)

    def suff(r):
        return np.sum(w[r] ** 2) / s2, np.sum(w[r] * part[r]) / s2

    def prior(d):
        return alpha * (1.0 + d) ** -beta
    L = len(leaves)
    prune = 0.0
    for k in lps:
        pp, pc = prior(depth[k]), prior(depth[k] + 1)
        ratio = np.log(1 - pp) - np.log(pp) - 2 * np.log(1 - pc) + np.log(.5 if L > 2 else 1.0) - np.log(L - 1.0) - np.log(1 - pg) + np.log(len(lps))
        ratio += lml(*suff(rows[k])) - lml(*suff(rows[old["left"][k]])) - lml(*suff(rows[old["right"][k]]))
        prune += (1 - pg) / len(lps) * np.exp(min(0.0, ratio))
    grow = np.zeros(p)
    deep = 0.0
    if pg > 0:
        for k in leaves:
            R = rows[k]
            if R.size < 2 * m:
                continue
            pp, pc = prior(depth[k]), prior(depth[k] + 1)
            A, B = suff(R)
            base = lml(A, B)
            q = parent[k]
            lpn = len(lps) + 1 - (q is not None and old["left"][q] in isleaf and old["right"][q] in isleaf)
            other = any(can[x] for x in leaves if x != k)
            for v in range(p):
                if wts[v] <= 0:
                    continue
                o = R[np.argsort(X[R, v], kind="stable")]
                xs = X[o, v]
                if not xs[-1] > xs[0]:
                    continue
                ln = np.arange(1, o.size)
                rn = o.size - ln
                gap = xs[1:] - xs[:-1]
                ok = (gap > 0) & (ln >= m) & (rn >= m)
                if not ok.any():
                    continue
                a = (np.cumsum(w[o] ** 2) / s2)[:-1][ok]
                b = (np.cumsum(w[o] * part[o]) / s2)[:-1][ok]
                ppn = np.where((ln >= 2 * m) | (rn >= 2 * m) | other, .5, 1.0)[ok]
                ratio = np.log(pp) + 2 * np.log(1 - pc) - np.log(1 - pp) + np.log(ppn) - np.log(lpn) - np.log(pg) + np.log(L) + lml(a, b) + lml(A - a, B - b) - base
                pr = pg / L * wts[v] / np.sum(wts) * np.sum(gap[ok] / (xs[-1] - xs[0]) * np.exp(np.minimum(0.0, ratio)))
                grow[v] += pr
                if depth[k] > 0:
                    deep += pr
    so, sn = shape_of(old), shape_of(new)
    gf, gd = None, False
    if len(sn) > len(so):
        for i, q in enumerate(sn):
            if i >= len(so) or q != so[i]:
                gf, gd = q[0] if q else None, i > 0
                break
    g = len(sn) > len(so)
    ev.add("growing", g, float(grow.sum()))
    ev.add("growing below the root", g and gd, deep)
    ev.add("pruning", len(sn) < len(so), prune)
    for v in range(p):
        ev.add("growing on column %d" % v, g and gf == v, float(grow[v]))
    for u in np.unique(wts):
        q = np.flatnonzero(wts == u)
        if 1 < len(q) < p:
            ev.add("growing on the columns of weight %.4g" % u, bool(g and gf in q), float(grow[q].sum()))


def own_calibration(inp, Xp, r, a):
    nu = num(a, "nu", 3)
    q = num(a, "q", .9)
    n = r.size
    B = np.c_[np.ones(n), Xp]
    coef, _, rank, _ = np.linalg.lstsq(B, r, rcond=None)
    s2 = np.sum((r - B @ coef) ** 2) / n if rank < n else np.var(r)
    lamb = num(a, "lamb", s2 * gamma_dist.ppf(1 - q, nu) / nu)
    return nu, lamb, num(a, "sigma2", s2)


def ig_pit(x, shape, scale):
    """P(IG(shape, scale) <= x)"""
    return gamma_dist.sf(scale / x, shape)


def leaf_stats(c, s):
    f = c["forest_%d" % s]
    L, S = 0, 0.0
    for k in range(f["num_trees"]):
        t = f["tree_%d" % k]
        for x in reachable(t):
            if t["left"][x] == -1:
                L += 1
                S += t["leaf_value"][x] ** 2
    return L, S


# ------------------------------------------------------------------ one model of a session
class Model:
    def __init__(self, a):
        self.a, self.inp, self.kind = a, Inputs(a), a["kind"]
        self.obj, self.done, self.ref, self.res = None, False, None, None

    def fresh(self):
        return BARTModel() if self.kind == "bart" else BCFModel()

    def run_sample(self, obj):
        """the real sampling call; the caller's inputs must come out as they went in"""
        kw = self.inp.kwargs()
        before = {k: freeze(v) for k, v in kw.items()}
        try:
            obj.sample(**kw)
        except Exception as e:
            raise Violation("sample-fails", "%s.sample raised %s: %s" % (type(obj).__name__, type(e).__name__, str(e).splitlines()[0][:200] if str(e) else ""))
        for k, v in kw.items():
            if freeze(v) != before[k]:
                raise Violation("input-modified", "sampling changed the caller's %s" % k)

    def reference(self):
        """digest of the same sampling done alone in a process that has done nothing else"""
        if self.ref is not None:
            return self.ref
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                signal.alarm(0)
                if self.kind == "low":
                    d = digest_arrays(low_level(self.inp, plain=True))
                else:
                    o = self.fresh()
                    self.run_sample(o)
                    d = digest_arrays(results(o, self.inp))
                os.write(wfd, d.encode())
            except Violation as v:
                os.write(wfd, ("E" + v.cls + " " + v.msg)[:2000].encode())
            except BaseException as e:
                os.write(wfd, ("E" + "harness " + repr(e))[:2000].encode())
            finally:
                os._exit(code)
        os.close(wfd)
        out = b""
        while True:
            b = os.read(rfd, 4096)
            if not b:
                break
            out += b
        os.close(rfd)
        _, st = os.waitpid(pid, 0)
        out = out.decode()
        if not out:
            raise Violation("process-dies", "sampling alone in a fresh process ended it (status %d)" % st)
        if out[0] == "E":
            c, m = out[1:].split(" ", 1)
            if c == "harness":
                raise RuntimeError(m)
            raise Violation(c, m + " (alone in a fresh process)")
        self.ref = out
        return out

    def accept(self, how):
        """checks after a completed sampling"""
        self.res = results(self.obj, self.inp)
        d = digest_arrays(self.res)
        ref = self.reference()
        if d != ref:
            raise Violation("not-reproducible", "sampling %s gives another result than the same sampling alone in a fresh process (%s, %s)" % (how, d, ref))
        self.done = True
        self.check_model()
        return d

    def check_model(self):
        a, inp, m = self.a, self.inp, self.obj
        total = int(a["num_gfr"]) + int(a["num_burnin"]) + int(a["num_mcmc"])
        idx = kept(a)
        tr, te = inp.rows("train"), inp.rows("test")
        Xp, orig = inp.processed(tr)
        Xt, _ = inp.processed(te)
        y = inp.own_y()
        ybar, ystd = float(np.mean(y)), float(np.std(y))
        scale = abs(ybar) + 20 * ystd
        if a["y"] == "f4":
            scale *= 1000    # the mean and standard deviation of single-precision outcomes are rounded to single precision
        cs = {k: dump(c) for k, c in containers(m, self.kind).items()}
        for k, c in cs.items():
            if c["num_samples"] != total:
                raise Violation("sample-count", "forest %s retains %d samples after %d iterations" % (k, c["num_samples"], total))
        if self.kind == "bart":
            nb = inp.nb
            c = cs["f"]
            self.structure(c, Xp, int(a.get("num_trees", 200)), num(a, "min_samples_leaf", 5), {j for j in range(Xp.shape[1])}, max(1, nb), "")
            fits = {}

            def fit(s, X, rows):
                r = raw_forest(c, s, X)
                return (r * inp.own_w(rows)).sum(axis=1) if nb else r[:, 0]
            self.same("y_hat_train", m.y_hat_train, np.stack([fit(s, Xp, tr) * ystd + ybar for s in idx], axis=1), scale)
            if inp.nt:
                self.same("y_hat_test", m.y_hat_test, np.stack([fit(s, Xt, te) * ystd + ybar for s in idx], axis=1), scale)
            self.law_bart(c, Xp, tr, (y - ybar) / ystd, ystd, total, fit)
        else:
            Z = np.asarray(inp.Z, dtype=float).reshape(len(inp.Z), -1)
            pc = a["propensity_covariate"]
            Xm, Xmt = Xp, Xt
            if pc != "none":
                if inp.pi_given():
                    ptr, pte = inp.pi[tr], inp.pi[te]
                else:
                    pm = m.bart_propensity_model
                    ptr = np.mean(pm.y_hat_train, axis=1)
                    pte = np.mean(pm.y_hat_test, axis=1) if inp.nt else None
                Xm = np.c_[Xp, ptr]
                if inp.nt:
                    Xmt = np.c_[Xt, pte]
            w = inp.weights()
            for f in ("mu", "tau"):
                allow = {j for j in range(Xp.shape[1]) if orig[j] in inp.subset(f)[0] and (w is None or w[orig[j]] > 0)}
                if pc in (f, "both"):
                    allow.add(Xp.shape[1])
                self.structure(cs[f], Xm, int(a["num_trees_" + f]), num(a, "min_samples_leaf_" + f, 5), allow, Z.shape[1] if f == "tau" else 1, f)
            adaptive = int(a.get("adaptive_coding", 1)) and Z.shape[1] == 1 and np.unique(Z[tr]).size == 2
            if adaptive:
                b0, b1 = np.asarray(m.b0_samples), np.asarray(m.b1_samples)
                if b0.shape != (total,) or b1.shape != (total,):
                    raise Violation("sample-count", "coding parameters have shapes %s %s after %d iterations" % (b0.shape, b1.shape, total))
            for which, X, rows in (("train", Xm, tr), ("test", Xmt, te)):
                if which == "test" and not inp.nt:
                    continue
                mu, tau, out = [], [], []
                for s in idx:
                    f0 = raw_forest(cs["mu"], s, X)[:, 0] * ystd + ybar
                    t = raw_forest(cs["tau"], s, X) * ystd
                    full = f0 + ((t[:, 0] * (b0[s] * (1 - Z[rows, 0]) + b1[s] * Z[rows, 0])) if adaptive else (t * Z[rows]).sum(axis=1))
                    tau.append(t * (b1[s] - b0[s]) if adaptive else t)
                    mu.append(full - (tau[-1] * Z[rows]).sum(axis=1))
                    out.append(full)
                sc = scale * 10
                self.same("tau_hat_" + which, getattr(m, "tau_hat_" + which), np.stack(tau, axis=1), sc)
                self.same("mu_hat_" + which, getattr(m, "mu_hat_" + which), np.stack(mu, axis=1), sc)
                self.same("y_hat_" + which, getattr(m, "y_hat_" + which), np.stack(out, axis=1), sc)
            self.law_bcf(cs, Xm, tr, Xp, (y - ybar) / ystd, ystd, total, Z, adaptive)

    def same(self, what, got, want, scale):
        got = np.asarray(got)
        if got.shape != want.shape:
            raise Violation("prediction-shape", "%s has shape %s instead of %s" % (what, got.shape, want.shape))
        if not close(got, want, scale):
            d = np.abs(got - want)
            raise Violation("prediction-differs", "%s differs from the sum of the sampled terms by %.3g" % (what, np.nanmax(d)))

    def structure(self, c, X, ntrees, minleaf, allow, dim, nm):
        if c["output_dimension"] != dim:
            raise Violation("dimension", "forest %s has %d outputs instead of %d" % (nm, c["output_dimension"], dim))
        for s in range(c["num_samples"]):
            f = c["forest_%d" % s]
            if f["num_trees"] != ntrees or sum(k.startswith("tree_") for k in f) != ntrees:
                raise Violation("tree-count", "a sample of forest %s has %d trees instead of %d" % (nm, f["num_trees"], ntrees))
            sig = 0
            for k in range(ntrees):
                t = f["tree_%d" % k]
                nodes = reachable(t)
                if len(nodes) == 1:
                    continue
                sig = sig * 31 + len(nodes)
                used = {t["split_index"][x] for x in nodes if t["left"][x] != -1}
                if not used <= allow:
                    raise Violation("excluded-variable", "forest %s splits on processed column %s, which is excluded or has weight zero" % (nm, sorted(used - allow)))
                cnt = np.bincount(leaf_ids(t, X), minlength=len(t["left"]))
                for x in nodes:
                    if t["left"][x] == -1 and cnt[x] < minleaf:
                        raise Violation("small-leaf", "forest %s, sample %d, tree %d has a leaf with %d training rows (minimum %s)" % (nm, s, k, cnt[x], minleaf))
            ST.states.add(hash((nm, sig)) & 0xffffffff)

    def law_bart(self, c, Xp, tr, r, ystd, total, fit):
        a, inp, m = self.a, self.inp, self.obj
        nu, lamb, s2 = own_calibration(inp, Xp, r, a)
        nb = inp.nb
        nt = c["num_trees"]
        tau = num(a, "sigma_leaf", np.var(r) / nt)
        al, bl = num(a, "a_leaf", 3), num(a, "b_leaf", np.var(r) / nt)
        sg = int(a.get("sample_sigma_global", 1))
        sl = int(a.get("sample_sigma_leaf", 1)) and nb <= 1
        w = inp.own_w(tr)[:, 0] if nb else np.ones(len(tr))
        us, ut, ul, ev = [], [], [], Events()
        for s in range(total):
            res = r - fit(s, Xp, tr)
            if nb <= 1 and nt == 1 and s2 > 1e-12 and 0 < s and s >= int(a["num_gfr"]):
                mcmc_law(ev, c["forest_%d" % (s - 1)]["tree_0"], c["forest_%d" % s]["tree_0"], Xp, w, r, s2, tau, num(a, "alpha", .95), num(a, "beta", 2.0), num(a, "min_samples_leaf", 5), np.ones(Xp.shape[1]))
            if nb <= 1 and s2 > 1e-12:
                t = c["forest_%d" % s]["tree_%d" % (nt - 1)]
                ids = leaf_ids(t, Xp)
                part = res + np.asarray(t["leaf_value"])[ids] * w
                for x in np.unique(ids):
                    q = ids == x
                    prec = np.sum(w[q] ** 2) / s2 + 1 / tau
                    ul.append(norm_dist.cdf((t["leaf_value"][x] - np.sum(w[q] * part[q]) / s2 / prec) * np.sqrt(prec)))
            if sg:
                s2 = m.global_var_samples[s] / ystd ** 2
                us.append(ig_pit(s2, (nu + r.size) / 2, (nu * lamb + np.sum(res ** 2)) / 2))
            if sl:
                L, S = leaf_stats(c, s)
                tau = m.leaf_scale_samples[s]
                ut.append(ig_pit(tau, (al + L) / 2, (bl + S) / 2))
        dkw(us, "error-variance")
        dkw(ut, "leaf-variance")
        dkw(ul, "leaf-values")
        ev.judge("")

    def law_bcf(self, cs, Xm, tr, Xp, r, ystd, total, Z, adaptive):
        a, inp, m = self.a, self.inp, self.obj
        nu, lamb, s2 = own_calibration(inp, Xp, r, a)
        us, um, ut, ub = [], [], [], []
        Zt = Z[tr]
        b0, b1 = num(a, "b_0", -.5), num(a, "b_1", .5)
        bas = [Zt] * (total + 1)   # the treatment basis in force at every iteration
        if adaptive:
            bas = [(1 - Zt) * u + Zt * v for u, v in zip([b0] + list(m.b0_samples), [b1] + list(m.b1_samples))]
        self.law_bcf_moves(cs, Xm, r, total, bas, inp.num_orig())
        for s in range(total):
            if adaptive and int(a.get("law", 0)) and not int(a.get("sample_sigma_global", 1)):
                s2, mu0, t0 = num(a, "sigma2"), raw_forest(cs["mu"], s, Xm)[:, 0], raw_forest(cs["tau"], s, Xm)[:, 0]
                for k, b in ((0, m.b0_samples[s]), (1, m.b1_samples[s])):
                    q = Zt[:, 0] == k
                    prec = np.sum(t0[q] ** 2) / s2 + 2
                    ub.append(norm_dist.cdf((b - np.sum(t0[q] * (r - mu0)[q]) / s2 / prec) * np.sqrt(prec)))
            if int(a.get("sample_sigma_global", 1)):
                res = r - raw_forest(cs["mu"], s, Xm)[:, 0] - (raw_forest(cs["tau"], s, Xm) * bas[s]).sum(axis=1)
                us.append(ig_pit(m.global_var_samples[s] / ystd ** 2, (nu + r.size) / 2, (nu * lamb + np.sum(res ** 2)) / 2))
            if int(a.get("sample_sigma_leaf_mu", 1)):
                L, S = leaf_stats(cs["mu"], s)
                um.append(ig_pit(m.leaf_scale_mu_samples[s], (num(a, "a_leaf_mu", 3) + L) / 2, (num(a, "b_leaf_mu", np.var(r) / int(a["num_trees_mu"])) + S) / 2))
            if int(a.get("sample_sigma_leaf_tau", 0)) and Z.shape[1] == 1:
                L, S = leaf_stats(cs["tau"], s)
                ut.append(ig_pit(m.leaf_scale_tau_samples[s], (num(a, "a_leaf_tau", 3) + L) / 2, (num(a, "b_leaf_tau", np.var(r) / (2 * int(a["num_trees_tau"]))) + S) / 2))
        dkw(ub, "coding")
        dkw(us, "error-variance-bcf")
        dkw(um, "leaf-variance-mu")
        dkw(ut, "leaf-variance-tau")

    def law_bcf_moves(self, cs, Xm, r, total, bas, p):
        """tree moves of single-tree forests whose variances and basis are known at every step"""
        a, inp, m = self.a, self.inp, self.obj
        if not int(a.get("law", 0)):
            return
        s2, w0 = num(a, "sigma2"), inp.weights()
        w0 = np.ones(p) / p if w0 is None else w0
        orig = np.asarray(inp.processed(inp.rows("train"))[1])     # original column of every processed one; indicators share its weight
        for f in ("mu", "tau"):
            ev, ul = Events(), []
            wts = np.zeros(Xm.shape[1])
            keep = inp.subset(f)[0]
            for j, o in enumerate(orig):
                if o in keep:
                    wts[j] = w0[o] / np.sum(orig == o)
            if a["propensity_covariate"] in (f, "both"):
                wts[len(orig):] = 1.0 / p
            raw = {g: [raw_forest(cs[g], s, Xm) for s in range(total)] for g in ("mu", "tau")}
            for s in range(1, total):
                w = bas[s][:, 0] if f == "tau" else np.ones(inp.n)
                part = r - ((raw["tau"][s - 1] * bas[s]).sum(axis=1) if f == "mu" else raw["mu"][s][:, 0])
                tau = num(a, "sigma_leaf_mu") if f == "mu" else .2
                if int(a.get("sample_sigma_leaf_" + f, 1 if f == "mu" else 0)):
                    tau = getattr(m, "leaf_scale_%s_samples" % f)[s - 1]
                new = cs[f]["forest_%d" % s]["tree_0"]
                if s >= int(a["num_gfr"]):
                    mcmc_law(ev, cs[f]["forest_%d" % (s - 1)]["tree_0"], new, Xm, w, part, s2, tau, num(a, "alpha_" + f, .95 if f == "mu" else .25), num(a, "beta_" + f, 2.0 if f == "mu" else 3.0), num(a, "min_samples_leaf_" + f, 5), wts)
                ids = leaf_ids(new, Xm)
                for x in np.unique(ids):
                    q = ids == x
                    prec = np.sum(w[q] ** 2) / s2 + 1 / tau
                    ul.append(norm_dist.cdf((new["leaf_value"][x] - np.sum(w[q] * part[q]) / s2 / prec) * np.sqrt(prec)))
            ev.judge("forest %s: " % f)
            dkw(ul, "leaf-values-" + f)

    # --- later operations
    def unchanged(self, after):
        d = digest_arrays(results(self.obj, self.inp))
        if d != self.ref:
            raise Violation("model-changed", "the model's samples or reported results changed after %s" % after)

    def predict(self, on, rows, s):
        inp = self.inp
        if on == "test" and not inp.nt:
            on = "train"
        base = inp.rows(on)
        rs = np.random.RandomState(s)
        k = base.size
        sel = {"all": np.arange(k), "perm": rs.permutation(k), "sub": np.sort(rs.choice(k, rs.randint(1, k + 1), replace=False)), "one": rs.randint(0, k, 1)}[rows]
        args = inp.pred_args(base[sel])
        before = [freeze(v) for v in args]
        calls = [("predict", self.obj.predict)] + ([("predict_tau", self.obj.predict_tau)] if self.kind == "bcf" else [])
        y = inp.own_y()
        scale = (abs(np.mean(y)) + 20 * np.std(y)) * 10
        for nm, f in calls:
            try:
                got = f(*args)
            except Exception as e:
                raise Violation("predict-fails", "%s on %s rows of the %s set raised %s: %s" % (nm, rows, on, type(e).__name__, str(e)[:200]))
            if self.kind == "bart":
                pairs = [("y_hat_" + on, got)]
            elif nm == "predict":
                pairs = [("tau_hat_" + on, got[0]), ("mu_hat_" + on, got[1]), ("y_hat_" + on, got[2])]
            else:
                pairs = [("tau_hat_" + on, got)]
            for k2, g in pairs:
                want = np.asarray(self.res[k2])[sel]
                g = np.asarray(g)
                if g.shape != want.shape:
                    raise Violation("prediction-shape", "%s gives %s of shape %s, sampling reported %s" % (nm, k2, g.shape, want.shape))
                if not close(g, want, scale):
                    raise Violation("predict-differs", "%s of %s rows differs from the reported %s by %.3g" % (nm, rows, k2, np.nanmax(np.abs(g - want))))
        for v, b in zip(args, before):
            if freeze(v) != b:
                raise Violation("input-modified", "predicting changed the caller's data")
        ST.p("predict-" + self.kind)
        self.unchanged("predicting")

    def bad(self, what):
        inp = self.inp
        args = list(inp.pred_args(inp.rows("train")))
        if what == "unsampled":
            o = self.fresh()
            try:
                o.predict(*args)
            except NotSampledError:
                ST.p("refused-unsampled")
                return
            except Exception as e:
                raise Violation("refusal", "predicting from an unsampled model raised %s" % type(e).__name__)
            raise Violation("refusal", "predicting from an unsampled model did not fail")
        kw = inp.kwargs()
        o = self.fresh()

        def cut(v, k):
            return v.iloc[:k] if isinstance(v, pd.DataFrame) else v[:k]
        if what == "rows":
            kw["y_train"] = cut(kw["y_train"], inp.n - 1)
        elif what == "cols" and inp.xk != "one":
            x = args[0]
            args[0] = pd.concat([x, x.iloc[:, :1].rename(columns=lambda c: c + "x")], axis=1) if isinstance(x, pd.DataFrame) else np.c_[x, x[:, :1]]
            try:
                self.obj.predict(*args)
            except Exception:
                ST.p("refused-cols")
                self.unchanged("a refused prediction")
                return
            raise Violation("refusal", "predicting from covariates with one column too many did not fail")
        elif what == "testcols" and inp.nt and inp.xk != "one":
            x = kw["X_test"]
            kw["X_test"] = pd.concat([x, x.iloc[:, :1].rename(columns=lambda c: c + "x")], axis=1) if isinstance(x, pd.DataFrame) else np.c_[x, x[:, :1]]
        elif what == "negative-weights" and self.kind == "bcf":
            kw["variable_weights"] = np.full(inp.num_orig(), -1.0)
        elif what == "type":
            kw["X_train"] = [[1.0]]
        else:
            return
        try:
            o.sample(**kw)
        except Exception:
            ST.p("refused-" + what)
            if o.is_sampled():
                raise Violation("refusal", "a model whose sampling was refused says it is sampled")
            self.unchanged("a refused sampling of another model")
            return
        raise Violation("refusal", "sampling with invalid input (%s) did not fail" % what)


# ------------------------------------------------------------------ low-level sessions (Dataset / Residual / ForestSampler)
# A sampler the user writes from the package's building blocks: several forests (own or shared datasets, constant or
# regression leaves), changing bases, initial constants, reloads in the middle.  What is left of the outcome after every
# step is read through a variance draw with a huge prior shape (its value is then the sum of squares).
def own_sampler(inp, plain=False):
    a = inp.a
    tr = inp.rows("train")
    X = np.ascontiguousarray(inp.processed(tr)[0])
    n = inp.n
    y = inp.own_y()
    y = (y - y.mean()) / y.std()
    h = random.Random("own %s" % a["data"])
    rs = np.random.RandomState(h.getrandbits(31))

    def mat(m, how=None):
        """the same values as the user may hold them"""
        how = how or ("c" if plain else h2.choice(["c", "f", "step", "ro"]))
        m = np.asarray(m, dtype=float)
        if how == "f":
            return np.asfortranarray(m)
        if how == "step":
            big = np.full((2 * m.shape[0],) + m.shape[1:], 11.5)
            big[::2] = m
            return big[::2]
        m = m.copy()
        m.setflags(write=how != "ro")
        return m
    h2 = random.Random("kinds %s" % a["data"])      # kinds of arrays do not influence the history
    rng = RNG(int(a["seed"]))
    gv, lv = GlobalVarianceModel(), LeafVarianceModel()
    res = Residual(mat(y))
    ft = np.zeros(X.shape[1], dtype=int)
    vw = mat(np.repeat(1 / X.shape[1], X.shape[1]))
    nf = h.choice([1, 1, 2, 2, 3])
    w = rs.rand(n) + .5 if h.random() < .3 else None
    share = h.random() < .4

    class Term:
        pass
    T = []
    for k in range(nf):
        t = Term()
        t.nb, t.nt = h.choice([0, 0, 1, 1, 2]), h.randint(1, 5)
        t.dim, t.lm = max(1, t.nb), min(t.nb, 2)
        t.W = np.round(rs.randn(n, t.nb), 3) if t.nb else None
        t.fc = ForestContainer(t.nt, t.dim, t.nb == 0)
        t.scale = np.eye(t.dim) * num(a, "sigma_leaf", .2)
        t.fit, t.ns, t.old, t.pre, t.ds = np.zeros(n), 0, [], False, None
        T.append(t)
    for t in T:
        host = next((u for u in T if u.nb), t) if share and not t.nb else t    # a constant-leaf forest may use a dataset with a basis
        if host.ds is None:
            host.ds = Dataset()
            host.ds.add_covariates(mat(X))
            if host.nb:
                host.ds.add_basis(mat(host.W))
            if w is not None:
                host.ds.add_variance_weights(mat(w))
        t.ds = host.ds
        t.fs = ForestSampler(t.ds, ft, t.nt, n, float(num(a, "alpha", .95)), float(num(a, "beta", 2.0)), int(num(a, "min_samples_leaf", 5)))

    def expect(what):
        got = gv.sample_one_iteration(res, RNG(17), 1e12, 0.0) * (1e12 + n)
        want = float(np.sum((y - sum(t.fit for t in T)) ** 2))
        if not abs(got - want) <= 1e-4 * want + 1e-9:
            raise Violation("residual", "after %s the outcome that is left has sum of squares %.6g; outcome minus fitted terms has %.6g" % (what, got, want))

    def refit(t):
        c = dump(t.fc)
        r = raw_forest(c, c["num_samples"] - 1, X)
        t.fit = (r * t.W).sum(axis=1) if t.nb else r[:, 0]
        return c
    for t in T:
        root = round(h.random() - .5, 2) if h.random() < .5 else .1 if t.dim > 1 else None
        if root is not None:
            t.root = v = root + np.arange(t.dim)
            t.fc.set_root_leaves(0, mat(v) if t.dim > 1 else root)
            t.fs.update_residual(t.ds, res, t.fc, t.nb > 0, 0, False)
            t.fit, t.pre = t.nt * (t.W @ v if t.nb else np.full(n, root)), True
            expect("initialising a forest at a constant")
    s2, draws = 1.0, []
    for i in range(h.randint(5, 22)):
        t = h.choice(T)
        what = h.choices(["forest", "s2", "tau", "basis", "reload", "look"], [9, 2, 2, 3, 2, 1])[0]
        gfr, how, newW = h.random() < .4, h.choice(["file", "used", "document"]), np.round(rs.randn(n, max(1, t.nb)), 3)
        if what == "forest":
            t.fs.sample_one_iteration(t.fc, t.ds, res, rng, ft, int(num(a, "cutpoint_grid_size", 100)), mat(t.scale), vw, s2, t.lm, gfr, t.pre)
            t.ns += 1
            c = refit(t)
            if c["num_samples"] != t.ns:
                raise Violation("sample-count", "%d retained samples after %d steps" % (c["num_samples"], t.ns))
            txt = [json.dumps(c["forest_%d" % s], sort_keys=True) for s in range(t.ns)]
            if txt[:-1] != t.old:
                raise Violation("retained", "a sampling step changed samples retained before")
            t.old = txt
            expect("a grow-from-root step" if gfr else "an MCMC step")
        elif what == "s2":
            s2 = gv.sample_one_iteration(res, rng, num(a, "nu", 3), num(a, "lamb", .5))
            draws.append(s2)
        elif what == "tau" and t.dim == 1 and t.ns:
            v = lv.sample_one_iteration(t.fc, rng, num(a, "a_leaf", 3), num(a, "b_leaf", .1), t.ns - 1)
            draws.append(v)
            t.scale = np.array([[v]])
        elif what == "basis" and t.nb:
            t.W = newW
            live = t.ns or t.pre
            if live:
                t.fs.update_residual(t.ds, res, t.fc, True, max(0, t.ns - 1), True)
            t.ds.update_basis(mat(t.W))
            if live:
                t.fs.update_residual(t.ds, res, t.fc, True, max(0, t.ns - 1), False)
            if t.ns:
                refit(t)
            elif t.pre:
                t.fit = t.nt * (t.W @ t.root)
            expect("a change of the leaf basis")
            ST.p("own-basis")
        elif what == "reload" and not plain and t.ns:
            f = os.path.join(SCRATCH, "own.json")
            if how == "document":
                j = JSONSerializer()
                j.add_forest(t.fc)
                c2 = j.get_forest_container("forest_0")
            else:
                t.fc.save_to_json_file(f)
                c2 = ForestContainer(t.nt, t.dim, t.nb == 0)
                if how == "used":
                    c2.set_root_leaves(0, np.full(t.dim, 9.0) if t.dim > 1 else 9.0)
                c2.load_from_json_file(f)
                os.unlink(f)
            if dump(c2) != dump(t.fc):
                raise Violation("load-differs", "a forest container read back is not the one that was saved")
            t.fc = c2
            ST.p("own-reload")
        elif what == "look" and not plain and t.ns:
            t.fc.predict(t.ds)
            t.fc.predict_raw(t.ds)
            expect("predicting")
    if not all(np.isfinite(draws)) or any(d <= 0 for d in draws):
        raise Violation("variance", "a sampled variance is not a positive number")
    out = dict(draws=np.array(draws))
    for k, t in enumerate(T):
        if t.ns:
            p = t.fc.predict(t.ds)
            if p.shape != (n, t.ns) or not close(p[:, -1], t.fit, 60):
                raise Violation("prediction-differs", "a forest's newest predictions differ from the sum of the leaf values")
            c = dump(t.fc)
            for s in range(t.ns):
                if not close(t.fc.predict_raw_single_forest(t.ds, s), raw_forest(c, s, X), 20):
                    raise Violation("prediction-differs", "predict_raw_single_forest differs from the sum of the leaf values")
            out["json%d" % k] = json.dumps(c, sort_keys=True)
            out["fit%d" % k] = t.fit
    if not plain:
        ST.p("own-sampler")
    return out


def low_level(inp, plain=False):
    a = inp.a
    if int(num(a, "own", 0)):
        return own_sampler(inp, plain)
    tr = inp.rows("train")
    Xp, _ = inp.processed(tr)
    n = inp.n
    if inp.frame is None and not plain:
        X = inp._x(tr)
    else:
        X = np.ascontiguousarray(Xp)
    y = inp.own_y()
    r = (y - y.mean()) / y.std()
    w = inp.wts[tr]
    if not plain:
        big = np.full(2 * n, 11.5)
        big[::2] = r
        r = big[::2]
        big = np.full(3 * n, 11.5)
        big[::3] = w
        w = big[::3]
    nb = inp.nb
    ds = Dataset()
    ds.add_covariates(X)
    if nb:
        W = inp._w(tr) if not plain else np.ascontiguousarray(inp.own_w(tr))
        ds.add_basis(W)
    if int(a["data"]) % 2:
        ds.add_variance_weights(w)
    res = Residual(r)
    ft = np.zeros(Xp.shape[1], dtype=int)
    nt = int(a.get("num_trees", 5))
    fs = ForestSampler(ds, ft, nt, n, float(num(a, "alpha", .95)), float(num(a, "beta", 2.0)), int(num(a, "min_samples_leaf", 5)))
    fc = ForestContainer(nt, max(1, nb), nb == 0)
    rng = RNG(int(a["seed"]))
    gv, lv = GlobalVarianceModel(), LeafVarianceModel()
    s2, sl = 1.0, num(a, "sigma_leaf", .2)
    vw = np.repeat(1 / Xp.shape[1], Xp.shape[1])
    if not plain:
        vw = np.repeat(vw, 2)[::2]
    if nb > 1:
        scale = np.asfortranarray(np.eye(nb) * sl + .03 * np.arange(nb)[:, None] * np.arange(nb)[None, :])
        if plain:
            scale = np.ascontiguousarray(scale)
    else:
        scale = np.array([[sl]])
    root = .03
    fc.set_root_leaves(0, np.full(nb, root) if nb > 1 else root)
    fs.update_residual(ds, res, fc, nb > 0, 0, False)
    total = int(a["num_gfr"]) + int(a["num_burnin"]) + int(a["num_mcmc"])
    vs, ls = [], []
    for i in range(total):
        fs.sample_one_iteration(fc, ds, res, rng, ft, int(num(a, "cutpoint_grid_size", 100)), scale, vw, s2, 0 if not nb else 1 if nb == 1 else 2, i < int(a["num_gfr"]), True)
        s2 = gv.sample_one_iteration(res, rng, num(a, "nu", 3), num(a, "lamb", .5))
        vs.append(s2)
        if nb <= 1:
            sl = lv.sample_one_iteration(fc, rng, num(a, "a_leaf", 3), num(a, "b_leaf", .1), i)
            ls.append(sl)
            scale[0, 0] = sl
    pred, raw = fc.predict(ds), fc.predict_raw(ds)
    single = np.stack([fc.predict_raw_single_forest(ds, i) for i in range(total)], axis=1)
    out = dict(pred=pred, raw=raw, single=single, vs=np.array(vs), ls=np.array(ls), json=json.dumps(dump(fc), sort_keys=True))
    if plain:
        return out
    c = dump(fc)
    if c["num_samples"] != total:
        raise Violation("sample-count", "%d samples after %d iterations" % (c["num_samples"], total))
    own = np.stack([raw_forest(c, s, Xp) for s in range(total)], axis=1)
    Wf = inp.own_w(tr) if nb else np.ones((n, 1))
    ownp = (own * Wf[:, None, :]).sum(axis=2)
    if raw.shape != own.shape or single.shape != own.shape or pred.shape != ownp.shape:
        raise Violation("prediction-shape", "predict %s raw %s single %s, expected %s and %s" % (pred.shape, raw.shape, single.shape, ownp.shape, own.shape))
    if not close(raw, own, 20) or not close(single, own, 20) or not close(pred, ownp, 60):
        raise Violation("prediction-differs", "predict, predict_raw or predict_raw_single_forest differ from the sum of the leaf values")
    # the session's residual is only visible through the variance draws: y - fits in the units handed over
    rr = (y - y.mean()) / y.std()
    us = []
    for s in range(total):
        us.append(ig_pit(vs[s], (num(a, "nu", 3) + n) / 2, (num(a, "nu", 3) * num(a, "lamb", .5) + np.sum((rr - ownp[:, s]) ** 2)) / 2))
    dkw(us, "error-variance-low")
    # a changed basis changes predictions and nothing else
    if nb:
        W2 = inp.own_w(tr)[::-1].copy()
        ds.update_basis(W2)
        p2 = fc.predict(ds)
        if not close(p2, (own * W2[:, None, :]).sum(axis=2), 60):
            raise Violation("prediction-differs", "after update_basis the predictions are not those of the new basis")
        ds.update_basis(inp._w(tr))
        if not np.array_equal(fc.predict(ds), pred):
            raise Violation("prediction-differs", "restoring the basis does not restore the predictions")
    ST.p("low-level")
    return out


# ------------------------------------------------------------------ seeded line-level scheduler of two sampling calls
class LineScheduler:
    def __init__(self, seed, rate):
        self.r, self.rate, self.cv, self.turn = random.Random(seed), rate, threading.Condition(), 0
        self.alive, self.switches = {0, 1}, 0

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line" and self.r.random() < self.rate:
                self.give(me)
            return local

        def start(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(PKG):
                return local
            return None
        return start

    def give(self, me):
        with self.cv:
            o = 1 - me
            if o not in self.alive:
                return
            self.turn = o
            self.switches += 1
            self.cv.notify_all()
            while self.turn != me and o in self.alive:
                self.cv.wait()
            self.turn = me

    def begin(self, me):
        with self.cv:
            while self.turn != me and (1 - me) in self.alive:
                self.cv.wait()

    def end(self, me):
        with self.cv:
            self.alive.discard(me)
            self.turn = 1 - me
            self.cv.notify_all()


def run_pair(a, b, seed, rate):
    sc = LineScheduler(seed, rate)
    err = [None, None]

    def body(me, mod):
        sc.begin(me)
        sys.settrace(sc.tracer(me))
        try:
            mod.run_sample(mod.obj)
        except BaseException as e:
            err[me] = e
        finally:
            sys.settrace(None)
            sc.end(me)
    ts = [threading.Thread(target=body, args=(i, m)) for i, m in enumerate((a, b))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ST.f("thread-switch") if sc.switches else None
    ST.fault["thread-switch"] = ST.fault.get("thread-switch", 0) + max(0, sc.switches - 1)
    for e in err:
        if e is not None:
            raise e


# ------------------------------------------------------------------ storage
def save_to(path, mod, how):
    if how == "file":
        for k, c in containers(mod.obj, mod.kind).items():
            c.save_to_json_file(path + k)
    else:
        s = JSONSerializer()
        for k, c in containers(mod.obj, mod.kind).items():
            s.add_forest(c)
        s.json_cpp.SaveFile(path + "all")


def load_into(path, mod, how, targets):
    if how == "file":
        for k in targets:
            targets[k].load_from_json_file(path + k)
    else:
        s = JSONSerializer()
        s.json_cpp.LoadFile(path + "all")
        for i, k in enumerate(targets):
            targets[k].forest_container_cpp.LoadFromJson(s.json_cpp, "forest_%d" % i)


def files_of(mod, how):
    return list(containers(mod.obj, mod.kind)) if how == "file" else ["all"]


def blank(mod):
    res = {}
    for k, c in containers(mod.obj, mod.kind).items():
        d = dump(c)
        res[k] = ForestContainer(d["num_trees"], d["output_dimension"], d["is_leaf_constant"])
    return res


def check_loaded(mod, targets, what):
    for k, c in containers(mod.obj, mod.kind).items():
        if json.dumps(dump(targets[k]), sort_keys=True) != mod.res["json_" + k]:
            raise Violation("saved-differs", "%s: the loaded forest is not the one that was saved" % what)
    # a model restored from the loaded forests predicts what the original predicts
    inp = mod.inp
    args = inp.pred_args(inp.rows("train"))
    old = containers(mod.obj, mod.kind)
    try:
        if mod.kind == "bart":
            mod.obj.forest_container = targets["f"]
        else:
            mod.obj.forest_container_mu, mod.obj.forest_container_tau = targets["mu"], targets["tau"]
        got = mod.obj.predict(*args)
    except Exception as e:
        raise Violation("predict-fails", "predicting from the restored model raised %s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        if mod.kind == "bart":
            mod.obj.forest_container = old["f"]
        else:
            mod.obj.forest_container_mu, mod.obj.forest_container_tau = old["mu"], old["tau"]
    want = mod.obj.predict(*args)
    if mod.kind == "bart":
        got, want = (got,), (want,)
    for g, w in zip(got, want):
        if not np.array_equal(np.asarray(g), np.asarray(w)):
            raise Violation("saved-differs", "the restored model predicts differently")


def op_save(mod, a, tag):
    how, fault = a["how"], a["fault"]
    d = os.path.join(SCRATCH, "s%s" % tag)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "m")
    names = files_of(mod, how)
    lim = None
    if fault == "medium-full":
        save_to(path, mod, how)
        size = os.path.getsize(path + names[-1])
        for nme in names:
            os.unlink(path + nme)
        at = int(size * float(a["at"]))
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
    elif fault == "missing-directory":
        path = os.path.join(d, "nowhere", "m")
    elif fault == "is-directory":
        os.makedirs(path + names[-1])
    elif fault == "full-device":
        os.symlink("/dev/full", path + names[-1])
    failed = None
    try:
        if lim:
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, lim[1]))
        save_to(path, mod, how)
    except Exception as e:
        failed = e
    finally:
        if lim:
            resource.setrlimit(resource.RLIMIT_FSIZE, lim)
    if fault != "none":
        ST.f("save-" + fault)
        if failed is None:
            # the medium kept less than the document
            raise Violation("silent-save-failure", "saving (%s) to a failing medium (%s) raised no error" % (how, fault))
        mod.unchanged("a failed save")
        # once the fault has cleared, a retry succeeds
        path = os.path.join(d, "again")
        try:
            save_to(path, mod, how)
        except Exception as e:
            raise Violation("save-fails", "saving again after the fault cleared raised %s" % type(e).__name__)
    elif failed is not None:
        raise Violation("save-fails", "saving raised %s: %s" % (type(failed).__name__, str(failed)[:200]))
    t = blank(mod)
    try:
        load_into(path, mod, how, t)
    except Exception as e:
        raise Violation("load-fails", "loading a saved model raised %s: %s" % (type(e).__name__, str(e)[:200]))
    check_loaded(mod, t, "save and load (%s)" % how)
    ST.p("save-load-" + how)
    mod.unchanged("saving")


def op_load(mod, a, tag):
    how, fault = a["how"], a["fault"]
    d = os.path.join(SCRATCH, "l%s" % tag)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "m")
    save_to(path, mod, how)
    names = files_of(mod, how)
    last = path + names[-1]
    good = open(last, "rb").read()
    if fault == "truncated":
        end = len(good.rstrip()) - 1
        open(last, "wb").write(good[:int(end * float(a["at"]))])
    elif fault == "missing":
        os.unlink(last)
    elif fault == "is-directory":
        os.unlink(last)
        os.makedirs(last)
    elif fault == "other-document":
        open(last, "wb").write(b'{"forests": {}, "num_forests": 0}')
    targets = dict(containers(mod.obj, mod.kind))
    # the target is a model in use: the loaded names go into the last container
    key = names[-1] if how == "file" else list(targets)[-1]
    ST.f("load-" + fault)
    try:
        if how == "file":
            targets[key].load_from_json_file(last)
        else:
            s = JSONSerializer()
            s.json_cpp.LoadFile(last)
            targets[key].forest_container_cpp.LoadFromJson(s.json_cpp, "forest_%d" % (len(targets) - 1))
    except Exception:
        mod.unchanged("a failed load")
        if os.path.isdir(last):
            os.rmdir(last)
        open(last, "wb").write(good)
        t = blank(mod)
        load_into(path, mod, how, t)
        check_loaded(mod, t, "load after a failed load")
        return
    raise Violation("silent-load-failure", "loading (%s) a damaged document (%s) raised no error" % (how, fault))


def op_json(mod, a, tag):
    """fields of a serializer come back as they were put in, whatever was put in before or after"""
    rs = np.random.RandomState(int(a["s"]))
    s = JSONSerializer()
    want = {}
    for i in range(rs.randint(1, 8)):
        key, sub = "k%d" % rs.randint(3), [None, "f%d" % rs.randint(2)][rs.randint(2)]
        t = rs.choice(["scalar", "bool", "str", "nvec", "svec"])
        v = {"scalar": float(rs.randn() * 10.0 ** rs.randint(-200, 200)), "bool": bool(rs.randint(2)), "str": "".join(rs.choice(list('ab"\\/\u00e9 \n'), rs.randint(0, 6))),
             "nvec": rs.randn(2 * rs.randint(0, 5))[::2], "svec": [str(x) for x in rs.rand(rs.randint(0, 3))]}[t]
        if sub is None and ("f0" in key):
            continue
        add = {"scalar": s.add_scalar, "bool": s.add_boolean, "str": s.add_string, "nvec": s.add_numeric_vector, "svec": s.add_string_vector}[t]
        if want.get((key, sub), (t,))[0] != t:
            continue
        if t == "nvec" and v.size == 1:
            continue    # a vector of one number is squeezed to a scalar by numpy
        add(key, v, sub) if sub else add(key, v)
        want[(key, sub)] = (t, v)
        if rs.rand() < .3 and mod.done:
            for c in containers(mod.obj, mod.kind).values():
                s.add_forest(c)
    p = os.path.join(SCRATCH, "j%s" % tag)
    s.json_cpp.SaveFile(p)
    s2 = JSONSerializer()
    s2.json_cpp.LoadFile(p)
    for ser, nm in ((s, "in memory"), (s2, "after saving and loading")):
        for (key, sub), (t, v) in want.items():
            get = {"scalar": ser.get_scalar, "bool": ser.get_boolean, "str": ser.get_string, "nvec": ser.get_numeric_vector, "svec": ser.get_string_vector}[t]
            try:
                g = get(key, sub) if sub else get(key)
            except Exception as e:
                raise Violation("json-field", "reading back a %s field %s raised %s: %s" % (t, nm, type(e).__name__, str(e)[:100]))
            ok = np.array_equal(g, v) if t == "nvec" else g == v
            if not ok:
                raise Violation("json-field", "a %s field reads back as %r instead of %r %s" % (t, g, v, nm))
    ST.p("json-fields", len(want))


# ------------------------------------------------------------------ a session
KEEP = []


def noise(a):
    rs = random.Random(int(a["s"]))
    w = a["what"]
    if w == "npseed":
        np.random.seed(rs.getrandbits(31))
    elif w == "npdraw":
        np.random.rand(rs.randint(1, 50))
    elif w == "pyrandom":
        random.seed(rs.getrandbits(31))
    elif w == "gc":
        gc.collect()
    elif w == "heap":
        KEEP.append([np.full(rs.randint(1, 5000), np.nan) for _ in range(rs.randint(1, 40))])
        if len(KEEP) > 3:
            KEEP.pop(0)
    elif w == "errstate":
        np.seterr(all=rs.choice(["ignore", "warn"]))
    ST.p("noise-" + w)


def run(text):
    """-> (ok, cls, msg, hash, steps)"""
    _, ops = parse(text)
    models, hist, steps = {}, hashlib.sha256(), 0
    st0 = np.random.get_state()
    try:
        for i, (op, a) in enumerate(ops):
            if op == "new":
                models[int(a["m"])] = Model(a)
                continue
            if op == "noise":
                noise(a)
                steps += 1
                continue
            if op == "co":
                ms = [models.get(int(a["a"])), models.get(int(a["b"]))]
                if None in ms or ms[0] is ms[1] or any(m.kind == "low" for m in ms):
                    op, ms = "seq", [m for m in ms if m is not None]
                if op == "co":
                    for m in ms:
                        m.reference()
                        m.obj = m.fresh()
                    run_pair(ms[0], ms[1], int(a["sched"]), float(a["rate"]))
                    for m in ms:
                        hist.update(m.accept("on a thread interleaved with another sampling").encode())
                    ST.p("co-sample")
                    steps += 2
                    continue
                for m in ms:
                    sample_one(m, hist)
                    steps += 1
                continue
            m = models.get(int(a["m"]))
            if m is None:
                continue
            if op == "sample":
                sample_one(m, hist)
                steps += 1
                continue
            if m.kind == "low" or not m.done:
                continue
            steps += 1
            if op == "predict":
                m.predict(a["on"], a["rows"], int(a["s"]))
            elif op == "save":
                op_save(m, a, i)
            elif op == "load":
                op_load(m, a, i)
            elif op == "json":
                op_json(m, a, i)
            elif op == "bad":
                m.bad(a["what"])
            elif op == "resample":
                o = models.get(int(a["other"]))
                if o is not None and o is not m and o.kind == m.kind:
                    o.reference()
                    o.run_sample(m.obj)      # the same object sampled with the other model's data and options...
                    if digest_arrays(results(m.obj, o.inp)) != o.ref:
                        raise Violation("not-reproducible", "sampling on an object used before gives another result than on a fresh one")
                m.run_sample(m.obj)          # ... and with its own again
                m.accept("again on the same object")
                ST.p("resample")
            hist.update(op.encode())
        for m in models.values():
            if m.done:
                m.unchanged("the session")
        return True, "", "", hist.hexdigest()[:16], steps
    except Violation as v:
        return False, v.cls, v.msg.replace("\n", " "), hist.hexdigest()[:16], steps
    finally:
        np.random.set_state(st0)
        np.seterr(all="warn")
        KEEP.clear()
        gc.collect()
        clear_scratch()


def sample_one(m, hist):
    ref = m.reference()
    if m.kind == "low":
        try:
            d = digest_arrays(low_level(m.inp))
        except Violation:
            raise
        except Exception as e:
            raise Violation("sample-fails", "a low-level session raised %s: %s" % (type(e).__name__, str(e)[:200]))
        if d != ref:
            raise Violation("not-reproducible", "a low-level session with strided or converted inputs differs from the one with plain arrays")
        hist.update(d.encode())
        return
    m.obj = m.fresh()
    m.run_sample(m.obj)
    hist.update(m.accept("in this session").encode())
    ST.p("sample-" + m.kind)


def clear_scratch():
    for root, ds, fs in os.walk(SCRATCH, topdown=False):
        for f in fs:
            os.unlink(os.path.join(root, f))
        for x in ds:
            p = os.path.join(root, x)
            os.unlink(p) if os.path.islink(p) else os.rmdir(p)


def main():
    global SCRATCH
    mode = sys.argv[1]
    o, pos = {}, []
    i = 2
    while i < len(sys.argv):
        if sys.argv[i] == "--thorough":
            o["--thorough"] = "1"
            i += 1
        elif sys.argv[i].startswith("--"):
            o[sys.argv[i]] = sys.argv[i + 1]
            i += 2
        else:
            pos.append(sys.argv[i])
            i += 1
    thorough = "--thorough" in o
    if mode == "gen":
        sys.stdout.write(gen(int(o["--seed"]), thorough))
        return 0
    base = os.environ.get("SIM_TMP") or os.environ.get("TMPDIR") or "/tmp"
    SCRATCH = os.path.join(base, "py-%d" % os.getpid())
    os.makedirs(SCRATCH)
    # the library reports errors on stdout/stderr as well; keep the protocol's stream apart
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        if mode == "replay":
            signal.alarm(int(o.get("--limit", 120)))
            ok, cls, msg, h, steps = run(open(pos[0]).read())
            out.write("HASH %s\n" % h)
            out.write("PASS\n" if ok else "FAIL %s %s %s\n" % (o.get("--prop", "C16"), cls, msg))
            out.flush()
            return 0 if ok else 1
        t0 = time.time()
        seed, stride = int(o["--start"]), int(o["--stride"])
        maxn = int(o.get("--max", 10 ** 9))
        n = 0
        while n < maxn and time.time() - t0 < float(o["--time"]):
            out.write("S %d\n" % seed)
            out.flush()
            signal.alarm(int(o.get("--limit", 120)))
            ok, cls, msg, h, steps = run(gen(seed, thorough))
            signal.alarm(0)
            ST.steps += steps
            out.write("H %d %s %d\n" % (seed, h, steps))
            if not ok:
                out.write("F %d %s %s %s\n" % (seed, o.get("--prop", "C16"), cls, msg))
                out.flush()
            n += 1
            seed += stride
        out.write("J %s\n" % json.dumps(dict(runs=n, steps=ST.steps, probe=ST.probe, fault=ST.fault, wall=time.time() - t0, states=["%x" % s for s in ST.states])))
        out.flush()
        return 0
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        clear_scratch()
        os.rmdir(SCRATCH)


if __name__ == "__main__":
    sys.exit(main())
