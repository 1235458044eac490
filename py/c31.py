#!/usr/bin/env python3
"""C31: the detector evaluation (kom_py/lambdas.py) against rank statistics of what it saw."""
import json
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from common import V, ensure, ev, extension, main
from c30 import SCRIPTS, mod

RUNNER = r'''
import ast, os, pickle, sys, warnings
warnings.simplefilter("ignore")
path, attempts, points, lo, hi, ext, dest, seed = sys.argv[1:]
sys.argv = [path]
sys.path[:0] = [os.path.dirname(path), ext]
tree = ast.parse(open(path, encoding="utf-8").read())
def const(v):
    return ast.Constant(v)
class Small(ast.NodeTransformer):
    def target(self, n):
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target
        return t.id if isinstance(t, ast.Name) else None
    def assign(self, n):
        t = self.target(n)
        if t == "NUM_ATTEMPTS" and isinstance(n.value, ast.Constant):
            n.value = ast.copy_location(const(int(attempts)), n.value)
        if t == "snrs" and n.value is not None:
            for x in ast.walk(n.value):
                if isinstance(x, ast.Call) and getattr(x.func, "attr", "") == "linspace" and len(x.args) == 3:
                    x.args = [const(float(lo)), const(float(hi)), const(int(points))]
        return n
    visit_Assign = visit_AnnAssign = assign
tree = ast.fix_missing_locations(Small().visit(tree))
sys.stdout = open(os.devnull, "w")
m = sys.modules["__main__"].__dict__
m["__file__"] = path
import numpy
numpy.random.seed(int(seed))
exec(compile(tree, path, "exec"), m)
out = []
for r in m.get("results", []):
    for d in r.detectors:
        for i, lr in enumerate(d.lr):
            out.append(dict(modulation=r.name, detector=d.name, snr=float(m["snrs"][i]), h0=list(map(float, d.h0s[i])), h1=list(map(float, d.h1s[i])),
                            lr={k: [float(v) for v in lr[k]] for k in lr.columns}))
pickle.dump(out, open(dest, "wb"))
'''


def youden(y, s):
    """The largest |TPR - FPR| of any threshold on the scores."""
    y, s = np.asarray(y, bool), np.asarray(s, float)
    t = np.unique(s)
    return max([0.0] + [abs((s[y] >= v).mean() - (s[~y] >= v).mean()) for v in t]) if y.any() and not y.all() else 0.0


def auc(y, s):
    y, s = np.asarray(y, bool), np.asarray(s, float)
    d = s[y][:, None] - s[~y][None, :]
    return (d > 0).mean() + 0.5 * (d == 0).mean()


def judge(what, lr, h0, h1):
    """A regression's table against the statistics it was made from."""
    if not {"x", "y", "proba", "tpr", "fpr", "youden_j"} <= set(lr):
        return 0
    n = len(lr["x"])
    ensure(n == len(h0), f"{what}: {n} tested statistics, expected half of {2 * len(h0)}")
    ours = sorted([(float(v), 0.0) for v in h0] + [(float(v), 1.0) for v in h1])
    theirs = sorted(zip(map(float, lr["x"]), map(float, lr["y"])))
    it = iter(ours)
    ensure(all(any(a == b for b in it) for a in theirs), f"{what}: a tested statistic was not observed, or under the other hypothesis")
    p = np.asarray(lr["proba"], float)
    ensure(((p >= 0) & (p <= 1)).all() and (np.diff(p) >= 0).all(), f"{what}: the table is not in order of probability")
    y, tpr, fpr = np.asarray(lr["y"]) > 0.5, np.asarray(lr["tpr"], float), np.asarray(lr["fpr"], float)
    if y.any() and not y.all():
        # Row by row: the rates of a detector that fires from this probability on.
        for i in range(n):
            a, b = (p[y] >= p[i]).mean(), (p[~y] >= p[i]).mean()
            ensure(abs(tpr[i] - a) < 1e-9, f"{what}: true positive rate of row {i} is {tpr[i]}, expected {a}")
            ensure(abs(fpr[i] - b) < 1e-9, f"{what}: false positive rate of row {i} is {fpr[i]}, expected {b}")
    j = np.asarray(lr["youden_j"], float)
    ensure(np.allclose(j, tpr - fpr, atol=1e-9), f"{what}: Youden's J is not the difference of the rates")
    return n


def regress(c):
    """Generated detector statistics through the regression, AUC and Youden's J."""
    lam = mod("lambdas")
    f = getattr(lam, "__log_regress", None)
    if f is None:
        return
    n = 2 * (10 + c.rng.randrange(60))
    sep = c.rng.choice([0.0, 0.5, 2.0, 10.0])
    scale, off = 10 ** c.rng.uniform(-1, 1), c.rng.uniform(-90, 90)
    h0, h1 = off + scale * c.np.normal(size=n), off + scale * (sep + c.np.normal(size=n))
    if c.rng.random() < 0.3:
        h0, h1 = h1, h0
    if c.rng.random() < 0.3:
        # Statistics that repeat, some or all of them.
        q = scale * c.rng.choice([0.1, 1, 1e3])
        h0, h1 = np.round(h0 / q) * q, np.round(h1 / q) * q
    c.desc(f"n={n} separation={sep} values={len(set(h0) | set(h1))} scale={scale:.3g} offset={off:.3g}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        df = f(np.array(h0), np.array(h1))
        df2, lr = f(np.array(h0), np.array(h1), return_lr=True)
    ensure(df.equals(df2), "the table depends on whether the regression is asked for")
    t = {k: list(df[k]) for k in df.columns}
    c.ev(judge("table", t, h0, h1))
    ensure(np.allclose(lr.predict_proba(np.array(t["x"]).reshape(-1, 1))[:, 1], t["proba"]), "the regression returned is not the table's")
    a, y = getattr(lam, "__auc", None), getattr(lam, "__youden_j", None)
    if a:
        ensure(abs(a(df) - auc(t["y"], t["proba"])) < 1e-9, f"AUC {a(df)}, by ranks {auc(t['y'], t['proba'])}")
    if y:
        ensure(abs(y(df) - youden(t["y"], t["proba"])) < 1e-9, f"Youden's J {y(df)}, by ranks {youden(t['y'], t['proba'])}")
        if sep == 10.0 and len(set(t["proba"])) == len(t["proba"]):
            ensure(y(df) > 0.99 and (not a or a(df) > 0.999 or a(df) < 0.001), f"separate hypotheses: J {y(df)}")
    b = getattr(lam, "__best_threshold", None)
    if b:
        x = b(df)
        i = int(np.argmax(t["youden_j"]))
        ensure(abs(t["youden_j"][list(t["x"]).index(x)] - t["youden_j"][i]) < 1e-12, f"the best threshold {x} does not have the largest J")
    c.ev(6)


def modulations(c):
    """The transmitters under test give the library's waveform, long enough for the detectors."""
    lam = mod("lambdas")
    hs = getattr(lam, "harness", None)
    if not hs:
        return
    h = hs[c.idx % len(hs)]
    m = c.bits(120 + c.rng.randrange(40))
    c.desc(f"{h.name} {len(m)} bits")
    fs, sr, f = int(lam.SAMPLE_RATE), int(lam.SYMBOL_RATE), float(lam.CARRIER_FREQ)
    got = np.asarray(h.tx_func(m), float)
    sps = fs // sr
    want = {
        "BPSK": lambda: ev("tx_bpsk", [fs, sr], [f], m),
        "CDMA": lambda: ev("tx_cdma_bpsk", [fs, sr], [f], m),
        "BFSK": lambda: ev("tx_bfsk", [fs, sr], [f * 0.8, f], m),
        "OFDM": lambda: ev("tx_ofdm", [8, 6, fs, sr], [f], m),
        "FH-CSS": lambda: ev("tx_fh_css", [fs, sr, 8], [2e3, 1e4], m),
        "CSK": lambda: np.repeat(ev("tx_csk", bits=m), sps),
        "DCSK": lambda: np.repeat(ev("tx_dcsk", bits=m), sps),
        "FH-OFDM-DCSK": lambda: ev("tx_fh_ofdm_dcsk", [fs, sr], [f], m),
    }.get(h.name)
    ensure(got.ndim == 1 and np.isfinite(got).all() and len(got) > 0, f"{h.name}: shape {got.shape}")
    if want:
        w = want()
        ensure(got.shape == w.shape, f"{h.name}: {got.shape} samples, the library {w.shape}")
        e = np.abs(got - w).max()
        ensure(e < 1e-9 * max(1, np.abs(w).max()), f"{h.name}: off the library's waveform by {e}")
    for d in h.detectors:
        n0 = c.rng.uniform(0.01, 3)
        x = got + n0 * c.np.normal(size=len(got))
        if len(x) >= 4160:
            v = d.detect_fn(list(x))
            w = {"Radiometer": lambda: np.sum(x ** 2), "MaxCut": lambda: 10 * np.log10(np.max((lambda z: z[::2] ** 2 + z[1::2] ** 2)(ev("ssca", [4096, 64, 0], signal=x)[2:])))}.get(d.name)
            ensure(np.isfinite(v), f"{d.name} gives {v}")
            if d.name == "MaxCut":
                w = w()
                ensure(abs(v - w) < 1e-6, f"MaxCut of {h.name} is {v}, expected {w}")
            c.ev()
    c.ev(len(got))


def whole(c):
    """The whole evaluation on a few points: every table matches its statistics, loud signals are detected."""
    if not os.path.exists(f"{SCRIPTS}/lambdas.py"):
        return
    att, pts, lo, hi = 12, 2, -25.0, 0.0
    c.desc(f"{att} attempts at {pts} ratios of {lo} to {hi} dB")
    with tempfile.TemporaryDirectory() as d:
        try:
            p = subprocess.run([sys.executable, "-c", RUNNER, f"{SCRIPTS}/lambdas.py", str(att), str(pts), str(lo), str(hi), f"{V}/target/ext", f"{d}/out", str(c.rng.randrange(1 << 30))],
                               cwd=d, capture_output=True, text=True, timeout=140, check=False)
        except subprocess.TimeoutExpired:
            return
        ensure(p.returncode == 0, f"lambdas.py fails: {' / '.join(p.stderr.strip().splitlines()[-3:])[-400:]}")
        out = pickle.load(open(f"{d}/out", "rb"))
    ensure(len({(o["modulation"], o["detector"], o["snr"]) for o in out}) == len(out), f"{len(out)} tables, some twice")
    for o in out:
        what = f"{o['modulation']}, {o['detector']} at {10 * np.log10(o['snr']):.0f} dB"
        att = len(o["h0"])
        ensure(len(o["h1"]) == att, f"{what}: {att} and {len(o['h1'])} statistics")
        c.ev(judge(what, o["lr"], o["h0"], o["h1"]))
        if o["snr"] > 0.9:
            y = youden([0] * att + [1] * att, o["h0"] + o["h1"])
            ensure(y > 0.6, f"{what}: the detector tells signal from noise with J {y} only")
        c.ev()


if __name__ == "__main__":
    os.environ.setdefault("MPLBACKEND", "agg")
    extension()
    main("C31", [
        ("whole", 1, 3, whole),
        ("regress", 600, 8000, regress),
        ("modulations", 160, 2000, modulations),
    ])
