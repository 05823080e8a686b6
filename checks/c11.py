"""Model language of the structural equation models: formula and options -> parameter matrices."""
import re
import numpy as np
from symx.harness import harness
from pystatsm.pysem2.sem import SEM
from pystatsm.pysem2.formula import FormulaParser
from .c10 import build, sym, theta, X, XG

HARNESSES = []
FUNCTIONS = ["pystatsm.pysem2.formula.FormulaParser.*", "pystatsm.pysem2.model_builder.ModelBuilder.*", "pystatsm.pysem2.model_matrices.ModelMatrixMapper.*",
             "pystatsm.pysem2.variable_ordering.VariableOrder.*", "pystatsm.pysem2.param_table.ParameterTable.*",
             "pystatsm.pysem2.model_base.{FixedValueManager,ParameterMapping,ModelBase}.*", "pystatsm.pysem2.indexers.*",
             "pystatsm.pysem2.model_specification.ModelSpecification.{transform_theta_to_free,transform_free_to_group_free,group_free_to_par,par_to_model_mats}"]
BOUNDS = "the formulas, options and group settings listed in the check (4 observed variables, up to 3 latent variables, 1 or 2 groups), every parameter vector"
ASSUMPTIONS = ["the set of formulas is fixed; for each, the map from parameter vector to matrices is decided for all parameter values"]
VARS = ["x1", "x2", "x3", "x4"]


def oracle(formula, fix_first=True, fix_lv_var=False, fix_lv_mean=True, lvx_cov=True, y_cov=True):
    """entries of the six matrices by variable name: a parameter key (label or (a, rel, b)), a number, or ('cov', a, b) / ('mean', a) of the sample"""
    terms = []
    for line in formula.split("\n"):
        line = line.split("#")[0]
        if not line.strip():
            continue
        rel = "=~" if "=~" in line else "~~" if "~~" in line else "~"
        lhs, rhs = line.split(rel)
        for a in lhs.split("+"):
            for b in rhs.split("+"):
                mod = None
                if "*" in b:
                    mod, b = [t.strip() for t in b.split("*")]
                terms.append([a.strip(), rel, b.strip(), mod])
    lat = {a for a, r, b, m in terms if r == "=~"}
    names = {v for a, r, b, m in terms for v in (a, b)} - {"1"}
    obs = names - lat
    outc = {a for a, r, b, m in terms if r == "~" and b != "1"}
    pred = {b for a, r, b, m in terms if r == "~" and b != "1"}
    ind = {b for a, r, b, m in terms if r == "=~"}
    lav = lat | outc | pred
    exo_obs = {v for v in pred if v in obs and v not in outc | ind}
    out = {}

    def val(mod, key):
        if mod is None:
            return key
        try:
            return float(mod)
        except ValueError:
            return mod
    for a in sorted(lat):
        ts = [t for t in terms if t[0] == a and t[1] == "=~"]
        fixed = [t for t in ts if t[3] is not None and not isinstance(val(t[3], None), str)]
        for i, t in enumerate(ts):
            v = val(t[3], (a, "=~", t[2]))
            ff = fix_first if isinstance(fix_first, bool) else fix_first.get(a, True)
            if i == 0 and ff and not fixed:
                v = 1.0
            out[("B", t[2], a) if t[2] in lav else ("L", t[2], a)] = v
    for v in lav - lat:
        out["L", v, v] = 1.0
    for a, r, b, m in terms:
        if r == "~" and b != "1":
            out["B", a, b] = val(m, (a, "~", b))

    def put_cov(a, b, v):
        k = "F" if a in lav and b in lav else "P"
        out[k, a, b] = out[k, b, a] = v

    def has(a, b):
        return any(r == "~~" and {x, y} == {a, b} for x, r, y, m in terms)
    for a, r, b, m in terms:
        if r == "~~":
            put_cov(a, b, val(m, (a, "~~", b)))
    for v in names:
        if not has(v, v):
            put_cov(v, v, ("cov", v, v) if v in exo_obs else 1.0 if v in lat and fix_lv_var else (v, "~~", v))
    pure_end = (outc - pred)
    exo_lat = lat - ind - outc
    for grp, how in ((exo_obs, "s"), (exo_lat, "f" if lvx_cov else None), (pure_end, "f" if y_cov else None)):
        if how:
            for a in grp:
                for b in grp:
                    if a < b and not has(a, b):
                        put_cov(a, b, ("cov", a, b) if how == "s" else (a, "~~", b))
    for v in names:
        k = "b" if v in lav else "a"
        t = [m for a, r, b, m in terms if a == v and r == "~" and b == "1"]
        if t:
            out[k, "0", v] = val(t[0], (v, "~", "1"))
        else:
            out[k, "0", v] = ("mean", v) if v in exo_obs else 0.0 if v in lat and fix_lv_mean else (v, "~", "1")
    return out, obs, lav


def canon(key):
    return (frozenset((key[0], key[2])), "~~") if isinstance(key, tuple) and key[1] == "~~" else key


def check(name, formula, groups=False, shared=None, obs_order=None, lav_order=None, cols=VARS, **opts):
    kw = dict(model_builder_kws=opts) if opts else {}
    if groups:
        kw["shared"] = shared or [True] * 6
    if obs_order:
        kw["obs_order"] = obs_order
    if lav_order:
        kw["lav_order"] = lav_order
    m = build(formula, groups=groups, cols=cols, **kw)

    @harness(HARNESSES, name, points=1)
    def h(S):
        mm = sym(S, m)
        ref, obs, lav = oracle(formula, **opts)
        S.true("observed variables", set(mm.obs_order) == obs)
        S.true("latent variables", set(mm.lav_order) == lav)
        if obs_order:
            S.true("requested order of observed variables", list(mm.mat_labels[0][0]) == list(obs_order))
        if lav_order:
            S.true("requested order of latent variables", list(mm.mat_labels[1][0]) == list(lav_order))
        th = theta(S, mm)
        where = {}
        for j, t in enumerate(mm.theta_names):
            where[t] = j
        S.true("parameter names are distinct", len(where) == len(th))
        used = set()
        free = mm.transform_theta_to_free(th)
        S.eq("expanding and reducing the parameters", mm.transform_free_to_theta(free), th)
        S.eq("as many bounds as parameters", len(mm.bounds), len(th))
        for g in range(mm.n_groups):
            mats = mm.group_free_to_model_mats(mm.transform_free_to_group_free(free, g), g)
            d = (XG[XG.g == (3, 5)[g]] if groups else X)
            sc, sm = d[VARS].cov(ddof=0), d[VARS].mean()
            for i, (k, M) in enumerate(zip("LBFPab", mats)):
                rows, cols_ = mm.mat_labels[0][i], mm.mat_labels[1][i]
                S.eq("shape of " + k, np.array(M.shape), np.array([len(rows), len(cols_)]))
                for r, rn in enumerate(rows):
                    for c, cn in enumerate(cols_):
                        v = ref.get((k, rn, cn), 0.0)
                        if isinstance(v, tuple) and v[0] == "cov":
                            v = float(sc.loc[v[1], v[2]])
                        elif isinstance(v, tuple) and v[0] == "mean":
                            v = float(sm[v[1]])
                        if not isinstance(v, float):
                            js = [where[t] for t in names_for(v, g if groups and shared and not shared[i] else None) if t in where]
                            S.true("parameter %s has one position" % (v,), len(js) == 1)
                            if len(js) != 1:
                                continue
                            used.add(js[0])
                            b = mm.bounds[js[0]]
                            isvar = isinstance(v, tuple) and v[1] == "~~" and v[0] == v[2]
                            if isinstance(v, tuple):
                                S.true("bounds of " + mm.theta_names.iloc[js[0]], (b[0] == 0 if isvar else b[0] is None or b[0] != b[0]) and (b[1] is None or b[1] != b[1]))
                            v = th[js[0]]
                        S.eq("%s[%s,%s]" % (k, rn, cn), M[r, c], v, tol=1e-12)
        S.true("every parameter is used", used == set(range(len(th))))


def names_for(v, g):
    pre = "" if g is None else "%d " % g
    if isinstance(v, str):
        return [pre + v]
    a, r, b = v
    return [pre + "%s %s %s" % (a, r, b)] + ([pre + "%s %s %s" % (b, r, a)] if r == "~~" and a != b else [])


check("one-factor", "f =~ x1 + x2 + x3")
check("one-factor.fixed-later", "f =~ x1 + 1.5*x2 + x3 # comment\n\n  f ~~ x*f")
check("one-factor.free-first", "f =~ x1 + x2 + x3\nf ~~ 1*f", fix_first=False)
check("one-factor.unit-variance", "f =~ x1 + x2 + x3", fix_first=False, fix_lv_var=True)
check("one-factor.latent-mean", "f =~ x1 + x2 + x3\nx1 ~ 0*1", fix_lv_mean=False)
check("two-factors", "f =~ x1 + x2\ng =~ x3 + x4")
check("two-factors.uncorrelated", "f =~ x1 + x2\ng =~ x3 + x4", lvx_cov=False)
check("two-factors.first-per-factor", "f =~ x1 + x2\ng =~ x3 + x4\nf ~~ 1*f", fix_first=dict(f=False))
check("two-factors.regression", "f =~ x1 + x2\ng =~ x3 + x4\ng ~ f\nx1 ~~ x3 + r*x4")
check("two-factors.labels", "f =~ x1 + a*x2\ng =~ x3 + a*x4\nx1 ~~ v*x1\nx2 ~~ v*x2\nx3 ~ m*1\nx4 ~ m*1")
check("second-order", "f =~ x1 + x2\ng =~ x3 + x4\nh =~ f + g")
check("second-order.label", "f =~ x1 + a*x2\ng =~ x3 + x4\nh =~ f + a*g")
check("shared-left", "f =~ x1 + x2\ng =~ x3 + x4\nx1 + x2 ~ 1\nx1 + x2 ~~ x3")
check("regression", "x2 ~ x1")
check("regression.two-outcomes", "x3 + x4 ~ x1 + b*x2")
check("regression.two-outcomes.uncorrelated", "x3 + x4 ~ x1 + x2", y_cov=False)
check("mediation", "x3 ~ x1 + x2\nx4 ~ x3 + x1")
check("mediation.fixed", "x3 ~ 0.5*x1 + x2\nx4 ~ c*x3 + c*x1\nx4 ~~ 2*x4")
check("mimic", "f =~ x1 + x2\nf ~ x3 + x4")
check("latent-predictor", "f =~ x1 + x2\nx3 ~ f + x4")
check("indicator-outcome", "f =~ x1 + x2\nx2 ~ x3")
check("indicator-predictor", "f =~ x1 + x2 + x3\nx4 ~ x3")
check("orders", "f =~ x1 + x2\ng =~ x3 + x4\ng ~ f", obs_order=["x3", "x1", "x4", "x2"], lav_order=["g", "f"])
check("orders.swapped", "x3 ~ x1 + x2\nx4 ~ x3 + x1", obs_order=["x4", "x2", "x3", "x1"], lav_order=["x1", "x3", "x2", "x4"])
check("columns", "x3 ~ x1 + x2", cols=["x3", "x4", "x2", "x1"])
T, N = True, False
check("groups.shared", "f =~ x1 + x2\nf ~ x3", groups=True)
check("groups.free", "f =~ x1 + x2\nf ~ x3", groups=True, shared=[N] * 6)
check("groups.loadings", "f =~ x1 + a*x2\ng =~ x3 + a*x4", groups=True, shared=[T, T, N, N, N, N])
check("groups.covariances", "f =~ x1 + a*x2\ng =~ x3 + a*x4", groups=True, shared=[N, T, T, N, T, N])
check("groups.means", "x3 ~ x1 + x2\nx4 ~ x3 + x1\nx4 ~ k*1", groups=True, shared=[T, T, T, T, N, N])
check("groups.paths", "x3 ~ x1 + b*x2\nx4 ~ b*x3 + x1", groups=True, shared=[T, N, T, N, T, T])
