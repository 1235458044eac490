#!/usr/bin/env python3
"""C34: what the scripts' plotting functions draw against the data they are given."""
import os
import warnings

import numpy as np
import pandas as pd

from common import ensure, ev, extension, main
from c30 import mod
from c31 import auc, judge, youden


def figures(f, *a, **k):
    """The figures a call opens."""
    import matplotlib.pyplot as plt
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f(*a, **k)
    return [plt.figure(n) for n in plt.get_fignums()]


def one(f, *a, **k):
    fs = figures(f, *a, **k)
    ensure(len(fs) == 1, f"{f.__name__} opens {len(fs)} figures")
    return fs[0]


def xy(line):
    return np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)


def drawn(what, line, x, y, tol=1e-9):
    gx, gy = xy(line)
    x, y = np.asarray(x, float), np.asarray(y, float)
    ensure(gx.shape == x.shape and gy.shape == y.shape, f"{what}: {len(gx)} points drawn, expected {len(x)}")
    for n, g, w in (("abscissa", gx, x), ("ordinate", gy, y)):
        bad = ~(np.abs(g - w) <= tol * max(1.0, np.abs(w).max(initial=0)))
        if bad.any():
            i = int(np.argmax(bad))
            ensure(False, f"{what}: {n} of point {i} of {len(g)} is {g[i]}, expected {w[i]}")
    return 2 * len(gx)


def statistics(c, most=60):
    n = 2 * (10 + c.rng.randrange(most))
    sep = c.rng.choice([0.0, 0.5, 2.0, 5.0])
    scale, off = 10 ** c.rng.uniform(-1, 1), c.rng.uniform(-90, 90)
    h0, h1 = off + scale * c.np.normal(size=n), off + scale * (sep + c.np.normal(size=n))
    if c.rng.random() < 0.3:
        h0, h1 = np.round(h0 / scale, 1) * scale, np.round(h1 / scale, 1) * scale
    return h0, h1


def regression(lam, h0, h1):
    """The evaluation's own table, if it can be had."""
    f = getattr(lam, "__log_regress", None)
    if f is None:
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(np.array(h0), np.array(h1))


def table(c, h0, h1):
    """A table as a regression makes it: half of the statistics, in order of probability."""
    x, y = np.concatenate((h0, h1)), np.repeat([0.0, 1.0], (len(h0), len(h1)))
    i = c.np.permutation(len(x))[: len(h0)]
    if y[i].min() == y[i].max():
        i = np.arange(0, len(x), 2)
    x, y = x[i], y[i]
    p = 1 / (1 + np.exp(-c.rng.choice([-1, 1]) * (x - x.mean()) / (x.std() or 1)))
    o = np.argsort(p, kind="stable")
    x, y, p = x[o], y[o], p[o]
    t = np.array([(p[y > 0.5] >= v).mean() for v in p])
    f = np.array([(p[y < 0.5] >= v).mean() for v in p])
    return pd.DataFrame({"x": x, "y": y, "proba": p, "tpr": t, "fpr": f, "youden_j": t - f}, index=i[o])


def cols(df):
    return {k: list(df[k]) for k in df.columns}


def labelled(fig):
    """The axes that say they show the area and Youden's J."""
    by = {("AUC" in x.get_ylabel(), "Youden" in x.get_ylabel()): x for x in fig.axes}
    ensure({(True, False), (False, True)} <= set(by), f"axes are labelled {[x.get_ylabel() for x in fig.axes]}")
    return by[True, False], by[False, True]


def ratios(c, n):
    return 10 ** (np.sort(c.np.uniform(-40, 10, size=n)) / 10)


def areas(dfs):
    return [auc(np.asarray(d["y"]) > 0.5, d["proba"]) for d in dfs], [youden(np.asarray(d["y"]) > 0.5, d["proba"]) for d in dfs]


def roc_curves(c):
    """One curve of the two rates per table."""
    lam = mod("lambdas")
    k = 1 + c.rng.randrange(4)
    obs = [statistics(c) for _ in range(k)]
    dfs = [table(c, *o) for o in obs]
    c.desc(f"{k} tables of {[len(d) for d in dfs]} rows")
    for d, o in zip(dfs, obs):
        judge("table", cols(d), *o)
    ax = one(lam.plot_multi_roc_curve, dfs, label="ROC").axes[0]
    ls = ax.get_lines()
    ensure(len(ls) == k, f"{len(ls)} curves drawn for {k} tables")
    for i, (l, d) in enumerate(zip(ls, dfs)):
        c.ev(drawn(f"ROC curve {i}", l, d["fpr"], d["tpr"]))
    ensure("True" in ax.get_ylabel() and "False" in ax.get_xlabel(), f"axes are labelled {ax.get_xlabel()!r} and {ax.get_ylabel()!r}")


def curves(c):
    """Areas and Youden's J over the signal to noise ratio in decibels."""
    lam = mod("lambdas")
    k = 1 + c.rng.randrange(5)
    snrs = ratios(c, k)
    db = 10 * np.log10(snrs)
    many = [[statistics(c, 25) for _ in range(k)] for _ in range(1 + c.rng.randrange(3))]
    which = c.idx % 4
    dfs = [[table(c, *o) for o in m] for m in many]
    a, j = zip(*(areas(m) for m in dfs))
    c.desc(f"{['areas', 'both', 'detectors', 'modulations'][which]}: {len(many)} sets of {k} ratios {db.round(1).tolist()}")
    if which == 0:
        own = [regression(lam, *o) for o in many[0]]
        ls = one(lam.plot_auc_vs_snr, [h for h, _ in many[0]], [h for _, h in many[0]], snrs).axes[0].get_lines()
        ensure(len(ls) == 1, f"{len(ls)} curves")
        if own[0] is not None:
            c.ev(drawn("areas", ls[0], db, areas(own)[0]))
    elif which == 1:
        x, y = labelled(one(lam.plot_youden_j_and_auc_vs_snr, dfs[0], snrs))
        c.ev(drawn("Youden's J", y.get_lines()[0], db, j[0]))
        c.ev(drawn("areas", x.get_lines()[0], db, a[0]))
    elif which == 2:
        ds = [lam.DetectorTestResults(name=f"detector {i}", detect_fn=None, lr=d) for i, d in enumerate(dfs)]
        xa, xj = labelled(one(lam.plot_multi_youden_j_and_auc_vs_snr, ds, snrs, title="T"))
        for n, x, w in (("areas", xa, a), ("Youden's J", xj, j)):
            by = {l.get_label(): l for l in x.get_lines()}
            ensure(set(by) == {d.name for d in ds} and len(x.get_lines()) == len(ds), f"{n}: curves {sorted(by)}")
            ensure(x.get_legend() is not None, f"{n}: no legend")
            for i, d in enumerate(ds):
                c.ev(drawn(f"{n} of {d.name}", by[d.name], db, w[i]))
    else:
        # This one takes the ratios from the script's globals.
        ms = []
        for i, d in enumerate(dfs):
            m = lam.ModulationTestResults(name=f"modulation {i}", tx_func=None)
            for e in m.detectors:
                e.lr = d if e.name == "MaxCut" else [table(c, *statistics(c, 10)) for _ in d]
            ms.append(m)
        vars(lam._m)["snrs"] = snrs
        x = one(lam.plot_youden_j_with_multiple_modulations, ms, "MaxCut").axes[0]
        by = {l.get_label(): l for l in x.get_lines()}
        ensure(set(by) == {m.name for m in ms} and len(x.get_lines()) == len(ms), f"curves {sorted(by)}")
        for i, m in enumerate(ms):
            c.ev(drawn(f"Youden's J of {m.name}", by[m.name], db, j[i]))


def threshold(c):
    """The densities under both hypotheses and a threshold of largest J."""
    lam = mod("lambdas")
    h0, h1 = statistics(c)
    given = c.rng.random() < 0.5
    df = table(c, h0, h1) if given else regression(lam, h0, h1)
    c.desc(f"{len(h0)} statistics, the table {'given' if given else 'to be made'}")
    ax = one(lam.plot_best_lambda, h0, h1, *([df] if given else [])).axes[0]
    ls = ax.get_lines()
    ensure(len(ls) == 3, f"{len(ls)} lines drawn, expected two densities and the threshold")
    lo, hi = min(h0.min(), h1.min()), max(h0.max(), h1.max())
    dens, mark = [], None
    for l in ls:
        x, y = xy(l)
        if len(x) == 2:
            ensure(x[0] == x[1], f"the threshold is drawn from {x[0]} to {x[1]}")
            mark = x[0]
        else:
            ensure(abs(x[0] - lo) < 1e-9 * max(1, abs(lo)) and abs(x[-1] - hi) < 1e-9 * max(1, abs(hi)) and (np.diff(x) > 0).all(),
                   f"a density is drawn from {x[0]} to {x[-1]}, the statistics range from {lo} to {hi}")
            dens.append((x, y))
    ensure(mark is not None and len(dens) == 2, "no threshold drawn")
    t = cols(df) if df is not None else {"x": list(h0) + list(h1), "youden_j": [0.0] * (len(h0) + len(h1))}
    best = [v for v, q in zip(t["x"], t["youden_j"]) if q >= max(t["youden_j"]) - 1e-12]
    ensure(any(abs(mark - v) < 1e-9 * max(1, abs(v)) for v in best), f"the threshold is drawn at {mark}, the best are {best[:4]}")

    def fits(y, x, h):
        # Outside its own range a set has no density; everywhere else one of a histogram of 128 bins.
        d, e = np.histogram(h, bins=128)
        d = d / d.sum() / np.diff(e)
        q = np.searchsorted(e, x)
        edge = np.minimum(np.abs(x - e[np.clip(q, 0, 128)]), np.abs(x - e[np.clip(q - 1, 0, 128)])) < 1e-9 * max(1.0, np.abs(e).max())
        w = np.where((q > 0) & (q <= 128), d[np.clip(q - 1, 0, 127)], 0)
        return bool((edge | (np.abs(y - w) <= 1e-6 * d.max())).all())

    (x, a), (_, b) = dens
    ensure((fits(a, x, h0) and fits(b, x, h1)) or (fits(a, x, h1) and fits(b, x, h0)), "the curves are not the two sets' densities")
    c.ev(2 * len(x) + 1)


def spectra(c):
    """The correlation surfaces and the cycle-frequency profile."""
    s = mod("ssca")
    rows, cs = 5 + c.rng.randrange(70), 2 * (3 + c.rng.randrange(60)) + 1
    z = c.np.normal(size=(rows, cs)) + 1j * c.np.normal(size=(rows, cs))
    z *= 10 ** c.rng.uniform(-3, 3)
    which = c.idx % 5
    c.desc(f"{['triangle', 'diamond', 'triangle log', 'diamond log', 'profile'][which]} of {rows} by {cs}")
    if which == 4:
        l = c.np.normal(size=cs) * 10
        ax = one(s.plot_lambda, l).axes[0]
        c.ev(drawn("profile", ax.get_lines()[0], np.linspace(0, 1, cs), l))
        return
    import mpl_toolkits.mplot3d.axes3d as a3
    seen = []
    plain = a3.Axes3D.plot_surface

    def watch(self, x, y, z, *a, **k):
        seen.append((np.array(x), np.array(y), np.array(z)))
        return plain(self, x, y, z, *a, **k)

    a3.Axes3D.plot_surface = watch
    try:
        one(s.plot_ssca_triangle if which % 2 == 0 else s.plot_ssca_diamond, z, log=which >= 2)
    finally:
        a3.Axes3D.plot_surface = plain
    ensure(len(seen) == 1, f"{len(seen)} surfaces drawn")
    x, y, got = seen[0]
    n = cs // 2 + 1 if which % 2 == 0 else cs
    want = np.abs(z[:, :n])
    ensure(got.shape == want.shape and x.shape == y.shape == got.shape, f"surface of {got.shape} over {x.shape} and {y.shape}, expected {want.shape}")
    if which >= 2:
        # Whatever the base of the logarithm.
        w = np.log(want)
        k = np.ptp(got) / np.ptp(w)
        want = k * w
    e = np.abs(got - want).max()
    ensure(e <= 1e-9 * max(np.abs(want).max(), 1e-300), f"the surface is off by {e}")
    ensure((y == y[:, :1]).all() and np.allclose(y[:, 0], np.linspace(-0.5, 0.5, rows)), "frequencies do not range from -1/2 to 1/2")
    lo, hi = (0, 1) if which % 2 == 0 else (-1, 1)
    ensure((x == x[:1]).all() and {round(float(x[0, 0]), 9), round(float(x[0, -1]), 9)} == {float(lo), float(hi)} and np.allclose(np.diff(x[0]), (x[0, -1] - x[0, 0]) / (n - 1)),
           f"cycle frequencies range from {x[0, 0]} to {x[0, -1]}")
    c.ev(got.size)


def chirps(c):
    """The chirp plots: the falling sweep above the rising one, over one period."""
    m = mod("chirp")
    name = ["plot_chirp", "plot_chirp_py", "plot_chirp_scipy"][c.idx % 3]
    c.desc(name)
    ax = one(getattr(m, name)).axes
    ensure(len(ax) == 2 and all(len(a.get_lines()) == 1 for a in ax), f"{name}: not one curve in each of two axes")
    n = 1500
    t = np.arange(n) / 150 if name != "plot_chirp_scipy" else np.linspace(0, 10, n)
    fun = np.cos
    if name == "plot_chirp_py":
        t, fun = np.linspace(0, 10, n), np.sin
    for a, (f0, f1) in zip(ax, ((6, 1), (1, 6))):
        c.ev(drawn(f"{name} from {f0} to {f1} Hz", a.get_lines()[0], np.linspace(0, 10, n), fun(2 * np.pi * (f0 + (f1 - f0) * t / 20) * t), 1e-7))


if __name__ == "__main__":
    os.environ.setdefault("MPLBACKEND", "agg")
    extension()
    main("C34", [
        ("roc-curves", 60, 800, roc_curves),
        ("curves", 120, 1600, curves),
        ("threshold", 80, 1000, threshold),
        ("spectra", 60, 600, spectra),
        ("chirps", 3, 3, chirps),
    ])
