#!/usr/bin/env python3
"""C22: the detectors, through the extension module, against their definitions."""
import math

import numpy as np

from common import close, ensure, extension, main, ssca_def


def db(x):
    return 10 * math.log10(x)


def near(what, got, want, tol=1e-6):
    ensure(isinstance(got, float), f"{what}: a {type(got).__name__}, expected a float")
    ensure(abs(got - want) <= tol, f"{what}: {got}, expected {want}")


def signal(c, n):
    """A real signal of some kind."""
    k = c.rng.randrange(6)
    t = np.arange(n)
    a = 10 ** c.rng.uniform(-4, 4)
    if k == 0:
        x = c.np.normal(size=n)
    elif k == 1:
        x = np.cos(2 * np.pi * c.rng.uniform(0.01, 0.49) * t) + 0.1 * c.np.normal(size=n)
    elif k == 2:
        b = np.repeat(c.np.choice([-1.0, 1.0], n // 16 + 1), 16)[:n]
        x = b * np.cos(2 * np.pi * 0.13 * t) + 0.01 * c.np.normal(size=n)
    elif k == 3:
        x = c.np.normal(size=n) + 3.0
    elif k == 4:
        x = np.zeros(n)
        x[c.rng.randrange(n)] = 1.0
        x += 1e-3 * c.np.normal(size=n)
    else:
        x = np.cumsum(c.np.normal(size=n)) / 10
    return a * x, f"kind={k} a={a:.3g} n={n}"


def give(c, x):
    """As a list, an array, or a strided view."""
    k = c.rng.randrange(4)
    if k == 0:
        return x.tolist()
    if k == 1:
        y = np.zeros(2 * len(x))
        y[::2] = x
        return y[::2]
    return x


def energy(c):
    kom = extension()
    n = c.rng.choice([1, 2, 3, 10, 1000, 1 + c.rng.randrange(5000)])
    if c.idx % 100 == 7:
        n = 1 + c.rng.randrange(1_500_000)
    x, d = signal(c, n)
    if not np.any(x):
        x[0] = 1.0
    c.desc(d)
    before = x.copy()
    e = float(np.sum(x * x))
    near("energy detector", kom.energy_detector(give(c, x)), db(e))
    near("energy detector of the negated signal", kom.energy_detector(give(c, -x)), db(e))
    near("energy detector of the signal with silence added", kom.energy_detector(np.concatenate((x, np.zeros(c.rng.randrange(50))))), db(e))
    got = kom.avg_energy(give(c, x))
    ensure(abs(got - e / n) <= 1e-9 * (e / n), f"average energy {got}, expected {e / n}")
    ensure((x == before).all(), "the caller's array was changed")
    c.ev(4)


def from_signal(c):
    kom = extension()
    n = 4160 + c.rng.choice([0, 0, 1, c.rng.randrange(2000)])
    x, d = signal(c, n)
    c.desc(d)
    sx = ssca_def(x, 4096, 64)
    p = np.abs(sx) ** 2
    mc = db(p.max())
    near("max-cut", kom.max_cut_detector(give(c, x)), mc, 1e-5)
    # The division by a cell near zero amplifies rounding: take it from the module's own estimate too.
    own = kom.ssca(give(c, x))
    ensure(own.shape == (4096, 64), f"shape {own.shape}, expected (4096, 64)")
    close("estimate", own, sx, 1e-9 * np.sqrt(p.max()) + 1e-300)
    po = np.abs(own) ** 2
    ratio = po.sum(axis=0) / po[0]
    near("DCS", kom.dcs_detector(give(c, x)), db(ratio.max()), 1e-4)
    near("DCS of the estimate", kom.dcs_detector_sxf(own), db(ratio.max()), 1e-6)
    near("max-cut of the estimate", kom.max_cut_detector_sxf(own), mc, 1e-5)
    # Against the independent estimate, where that is well conditioned.
    col = int(ratio.argmax())
    if p[0, col] > 1e-16 * p.max():
        near("DCS against the definition", kom.dcs_detector(x), db((p.sum(axis=0) / p[0]).max()), 1e-2)
    near("max-cut of the negated signal", kom.max_cut_detector(-x), mc, 1e-5)
    near("DCS of the negated signal", kom.dcs_detector(-x), db(ratio.max()), 1e-4)
    near("max-cut of the doubled signal", kom.max_cut_detector(2 * x), mc + 40 * math.log10(2), 1e-5)
    c.ev(sx.size + 9)


def estimates(c):
    kom = extension()
    r, k = 1 + c.rng.randrange(40), 1 + c.rng.randrange(40)
    a = 10 ** c.rng.uniform(-5, 5)
    x = a * (c.np.normal(size=(r, k)) + 1j * c.np.normal(size=(r, k)))
    how = c.rng.choice(["C", "F", "strided", "transposed"])
    if how == "F":
        y = np.asfortranarray(x)
    elif how == "strided":
        z = np.zeros((2 * r, 3 * k), complex)
        z[::2, ::3] = x
        y = z[::2, ::3]
    elif how == "transposed":
        y = np.ascontiguousarray(x.T).T
    else:
        y = x
    c.desc(f"{r}x{k} a={a:.3g} {how}")
    p = np.abs(x) ** 2
    near("max-cut", kom.max_cut_detector_sxf(y), db(p.max()))
    near("DCS", kom.dcs_detector_sxf(y), db((p.sum(axis=0) / p[0]).max()))
    near("DCS of the scaled estimate", kom.dcs_detector_sxf(3.0 * y), db((p.sum(axis=0) / p[0]).max()))
    near("max-cut of the rotated estimate", kom.max_cut_detector_sxf(1j * y), db(p.max()))
    # One dominant cell anywhere decides the max-cut.
    i, j = c.rng.randrange(r), c.rng.randrange(k)
    y = y.copy()
    y[i, j] = 1e3 * a * np.exp(2j * np.pi * c.rng.random()) * 10
    near(f"max-cut with a peak at ({i}, {j})", kom.max_cut_detector_sxf(y), db(abs(y[i, j]) ** 2))
    c.ev(5)


def sizes(c):
    """ssca() with other sizes and with the mapped output."""
    kom = extension()
    np_ = c.rng.choice([2, 4, 8, 16])
    n = np_ * c.rng.choice([2, 4, 8]) 
    x, d = signal(c, n + np_ + c.rng.randrange(10))
    c.desc(f"N={n} Np={np_} {d}")
    sx = ssca_def(x, n, np_)
    scale = np.abs(sx).max() + 1e-300
    base = kom.ssca(give(c, x), n, np_) if c.rng.random() < 0.5 else kom.ssca(s=give(c, x), n=n, np=np_, map_output=False)
    close("estimate", base, sx, 1e-9 * scale)
    mapped = kom.ssca(give(c, x), n, np_, True)
    ensure(mapped.shape == (np_ + 1, 2 * n + 1), f"mapped shape {mapped.shape}")
    near("max-cut of the mapped estimate", kom.max_cut_detector_sxf(mapped), db((np.abs(mapped) ** 2).max()), 1e-5)
    c.ev(sx.size + 1)


def degenerate(c):
    """Silence and samples that are no numbers: minus infinity, infinity or NaN, and no exception."""
    kom = extension()
    n = 4160 + c.rng.choice([0, 1, c.rng.randrange(200)])
    how = c.rng.choice(["silence", "nan", "inf", "late", "huge", "constant", "one"])
    x = np.zeros(n)
    if how == "nan":
        x = c.np.normal(size=n)
        x[c.rng.randrange(4096)] = np.nan
    elif how == "inf":
        x = c.np.normal(size=n)
        x[c.rng.randrange(4096)] = c.rng.choice([np.inf, -np.inf])
    elif how == "late":
        x[c.rng.randrange(4159, n):] = 1.0
    elif how == "huge":
        x = c.np.normal(size=n) * 1e200
    elif how == "constant":
        x += c.rng.uniform(-9, 9)
    elif how == "one":
        x[c.rng.randrange(n)] = 1.0
    c.desc(f"{how} n={n}")
    own = np.asarray(kom.ssca(give(c, x)))
    got = [kom.energy_detector(give(c, x)), kom.max_cut_detector(give(c, x)), kom.dcs_detector(give(c, x)),
           kom.max_cut_detector_sxf(own), kom.dcs_detector_sxf(own)]
    ensure(all(isinstance(v, float) for v in got), f"{how}: the detectors gave {got}")
    names = "energy", "max-cut", "DCS", "max-cut of the estimate", "DCS of the estimate"
    if how == "silence":
        ensure(got[0] == got[1] == got[3] == -np.inf, f"silence: {dict(zip(names, got))}")
    if how in ("silence", "nan"):
        ensure(not any(math.isfinite(v) for v in got), f"{how}: {dict(zip(names, got))}")
    same = lambda a, b: a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-5
    ensure(same(got[1], got[3]), f"{how}: max-cut gives {got[1]} of the signal, {got[3]} of its estimate")
    ensure(same(got[2], got[4]) or how in ("constant", "one", "late"), f"{how}: DCS gives {got[2]} of the signal, {got[4]} of its estimate")
    if how in ("constant", "one"):
        p = (np.abs(own) ** 2).max()
        ensure(same(got[1], db(p) if p > 0 else -np.inf), f"{how}: max-cut gives {got[1]}, the estimate peaks at {p}")
    c.ev(5)


def holes(c):
    """Estimates with silent columns, silent first cells and cells that are no numbers."""
    kom = extension()
    r, k = 2 + c.rng.randrange(20), 2 + c.rng.randrange(20)
    x = c.np.normal(size=(r, k)) + 1j * c.np.normal(size=(r, k))
    dead = c.np.random(k) < 0.5
    how = c.rng.choice(["columns", "first", "all"])
    c.desc(f"{r}x{k} {how} {int(dead.sum())}")
    if how == "columns":
        # 0/0 is no ratio: the largest of the others is the answer.
        x[:, dead] = 0
    elif how == "first":
        x[0, dead] = 0
    else:
        x[:] = 0
    p = np.abs(x) ** 2
    top = p.max()
    got = kom.max_cut_detector_sxf(x)
    ensure(got == -math.inf if top == 0 else abs(got - db(top)) <= 1e-6, f"max-cut gives {got}, the peak is {top}")
    got = kom.dcs_detector_sxf(x)
    if how == "first" and dead.any():
        ensure(got == math.inf, f"DCS gives {got} for a column whose first cell is silent")
    elif how == "columns" and not dead.all():
        near("DCS", got, db((p.sum(axis=0)[~dead] / p[0][~dead]).max()))
    elif not (p[0] > 0).any():
        ensure(not math.isfinite(got), f"DCS gives {got} for a silent estimate")
    c.ev(2)


main("C22", [
    ("degenerate", 84, 1500, degenerate),
    ("holes", 1000, 15000, holes),
    ("energy", 1500, 20000, energy),
    ("from-signal", 60, 1500, from_signal),
    ("estimates", 1500, 20000, estimates),
    ("sizes", 600, 8000, sizes),
])
