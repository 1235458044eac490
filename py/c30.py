#!/usr/bin/env python3
"""C30: the Python scripts' modems and helpers against the library and their definitions."""
import ast
import contextlib
import glob
import importlib
import inspect
import io
import json
import math
import os
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from common import TIER, V, Wrong, close, ensure, ev, extension, main, same_bits, show, ssca_def

SCRIPTS = "/repo/kom_py"
KEY = [True, True, False, False] * 4


def mod(name):
    """A script, imported as a module (nothing under its main guard runs)."""
    if SCRIPTS not in sys.path:
        sys.path.insert(0, SCRIPTS)
        extension()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = importlib.import_module(name)
    ensure(os.path.realpath(m.__file__).startswith(os.path.realpath(SCRIPTS)), f"imported {m.__file__}")
    return Guard(m)


class Guard:
    """A script's functions, watched for changes to the arguments they are given."""

    def __init__(self, m):
        self._m = m

    def __getattr__(self, name):
        v = getattr(self._m, name)
        if not inspect.isfunction(v):
            return v

        def f(*a, **k):
            held = [x for x in list(a) + list(k.values()) if isinstance(x, (list, np.ndarray))]
            keep = [x.copy() for x in held]
            out = v(*a, **k)
            for x, y in zip(held, keep):
                if isinstance(x, list):
                    same = len(x) == len(y) and all(p is q or p == q for p, q in zip(x, y))
                else:
                    same = x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes()
                ensure(same, f"{name} changes an argument it is given")
            return out

        f.__name__ = name
        return f


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def tol(fs, n):
    return 1e-8 + 1e-11 * n


def waveform(c):
    """Transmitters: the library's samples (QPSK up to one constant gain)."""
    psk = mod("psk")
    m = c.bits(c.msg_len(90))
    fs, sr, sps = c.rates(30)
    f = c.carrier(fs)
    c.desc(f"fs={fs} sr={sr} f={f} msg={show(m)}")
    arg = c.rng.choice([list, tuple, np.array])(m)
    got = psk.tx_bpsk(arg, fs, sr, f)
    close("tx_bpsk", got, ev("tx_bpsk", [fs, sr], [f], m), tol(fs, len(m) * sps))
    got = np.asarray(psk.tx_qpsk(m, fs, sr, f), float)
    # The library leaves the last bit of an odd message out; the scripts pad it with a zero.
    want = ev("tx_qpsk", [fs, sr], [f], m + [False] * (len(m) % 2))
    # The constant gain: the ratio of the two for another message at another carrier.
    ref = np.asarray(psk.tx_qpsk([True] * 8, 1000, 100, 0.0), float)
    g = float(ref @ ref) / float(ref @ ev("tx_qpsk", [1000, 100], [0.0], [True] * 8))
    ensure(g > 0, f"tx_qpsk: gain {g}")
    close("tx_qpsk over its gain", got / g, want, tol(fs, len(m) * sps))
    bb = np.asarray(psk.tx_baseband_bpsk(m), complex)
    w = ev("tx_baseband_bpsk", bits=m)
    close("tx_baseband_bpsk", bb, w[::2] + 1j * w[1::2], 1e-12)
    same_bits("rx_baseband_bpsk", psk.rx_baseband_bpsk(list(bb)), m)
    q = np.asarray(psk.tx_baseband_qpsk(m), complex)
    w = ev("tx_baseband_qpsk", bits=m + [False] * (len(m) % 2))
    w = w[::2] + 1j * w[1::2]
    ensure(q.shape == w.shape, f"tx_baseband_qpsk: {q.shape} symbols, expected {w.shape}")
    if len(w):
        g = abs(q[0]) / abs(w[0])
        close("tx_baseband_qpsk over its gain", q / g, w, 1e-9)
        back = psk.rx_baseband_qpsk(list(q * c.rng.uniform(0.1, 9)))
        same_bits("rx_baseband_qpsk", back, m + [False] * (len(m) % 2))
    c.ev(2 * len(want) + len(bb) + len(q) + 2)


def recover(c):
    """Receivers: each side's messages come back from either side's transmitter."""
    psk = mod("psk")
    m = c.bits(1 + c.rng.randrange(100))
    sps = 1 + c.rng.randrange(30)
    sr = c.rng.choice([1, 3, 100, 256, 900, 4801])
    fs = sps * sr
    amp = 10 ** c.rng.uniform(-6, 6)
    f = c.rng.choice([c.rng.uniform(0, fs / 2), c.rng.randrange(sps + 1) * sr / 2])
    f = min(f, fs / 2)
    c.desc(f"fs={fs} sr={sr} f={f} amp={amp:.3g} msg={show(m)}")
    e = np.cos(2 * np.pi * f * np.arange(len(m) * sps) / fs).reshape(-1, sps) ** 2
    if e.sum(axis=1).min() > 1e-3:
        mine = np.asarray(psk.tx_bpsk(m, fs, sr, f))
        theirs = ev("tx_bpsk", [fs, sr], [f], m)
        same_bits("script to script, bpsk", psk.rx_bpsk(list(mine * amp), fs, sr, f), m)
        same_bits("library to script, bpsk", psk.rx_bpsk(theirs * amp, fs, sr, f), m)
        same_bits("script to library, bpsk", ev("rx_bpsk", [fs, sr], [f], signal=mine * amp), m)
        # A signal that ends inside a symbol: the whole symbols are decided.
        cut = c.rng.randrange(1, len(mine) + 1)
        same_bits("cut, bpsk", psk.rx_bpsk(list(mine[:cut]), fs, sr, f), m[: cut // sps])
        c.ev(3 * len(m) + cut // sps)
    if sps > 1:
        h = 1 + c.rng.randrange(sps - 1)
        f = h * sr / 2
        c.desc(f"qpsk f={f}")
        want = m + [False] * (len(m) % 2)
        mine = np.asarray(psk.tx_qpsk(m, fs, sr, f))
        theirs = ev("tx_qpsk", [fs, sr], [f], want)
        same_bits("script to script, qpsk", psk.rx_qpsk(list(mine * amp), fs, sr, f), want)
        same_bits("library to script, qpsk", psk.rx_qpsk(theirs * amp, fs, sr, f), want)
        same_bits("script to library, qpsk", ev("rx_qpsk", [fs, sr], [f], signal=mine * amp), want)
        cut = c.rng.randrange(1, len(mine) + 1)
        same_bits("cut, qpsk", psk.rx_qpsk(list(mine[:cut]), fs, sr, f), want[: cut // sps * 2])
        c.ev(3 * len(want) + cut // sps)


def spread(c):
    cdma = mod("cdma")
    m = c.bits(1 + c.rng.randrange(40))
    spc = 2 + c.rng.randrange(6)
    sr = c.rng.choice([1, 100, 1000])
    fs = 16 * spc * sr
    f = c.rng.choice([c.rng.uniform(0, fs / 2), c.rng.randrange(8 * spc + 1) * sr])
    c.desc(f"fs={fs} sr={sr} f={f} msg={show(m)}")
    e = np.cos(2 * np.pi * f * np.arange(len(m) * 16 * spc) / fs).reshape(-1, 16 * spc) ** 2
    mine = np.asarray(quiet(cdma.tx_bpsk_cdma, m, fs, sr, f))
    theirs = ev("tx_cdma_bpsk_key", [fs, sr, 16], [f], KEY + m)
    close("tx_bpsk_cdma", mine, theirs, tol(fs, len(mine)))
    c.ev(len(mine))
    if e.sum(axis=1).min() > 1e-3:
        amp = 10 ** c.rng.uniform(-6, 6)
        same_bits("script to script", quiet(cdma.rx_bpsk_cdma, list(mine * amp), fs, sr, f), m)
        same_bits("library to script", quiet(cdma.rx_bpsk_cdma, theirs * amp, fs, sr, f), m)
        same_bits("script to library", ev("rx_cdma_bpsk_key", [fs, sr], [f], KEY, mine * amp), m)
        # Another spread signal on an orthogonal key, much stronger, does not matter.
        other = [i % 2 == 0 for i in range(16)]
        loud = ev("tx_cdma_bpsk_key", [fs, sr, 16], [f], other + c.bits(len(m)))
        if 2 * f % sr == 0 and f in (0, fs / 2):
            same_bits("with a loud neighbour", quiet(cdma.rx_bpsk_cdma, mine + 100 * loud, fs, sr, f), m)
            c.ev(len(m))
        c.ev(3 * len(m))


def spectral(c):
    ssca = mod("ssca")
    np_ = 2 * (1 + c.rng.randrange(8))
    n = np_ + 1 + c.rng.randrange(60)
    kind = c.rng.choice(["noise", "tone", "bpsk"])
    i = np.arange(n + np_ + c.rng.randrange(9))
    if kind == "noise":
        s = c.np.normal(size=len(i))
    elif kind == "tone":
        s = np.cos(2 * np.pi * c.rng.uniform(0, 0.5) * i)
    else:
        s = np.cos(2 * np.pi * c.rng.uniform(0, 0.5) * i) * np.repeat(c.np.choice([-1, 1], len(i)), 4)[: len(i)]
    c.desc(f"{kind} n={n} np={np_}")
    want = ssca_def(s, n, np_, np.hamming)
    got = ssca.ssca(c.rng.choice([list, np.array])(s), n, np_, map_output=False)
    t = 1e-9 * max(1.0, np.abs(want).max())
    close("ssca", got, want, t)
    m = ssca.ssca(list(s), n, np_, map_output=True)
    ensure(m.shape == (np_ + 1, 2 * n + 1), f"mapped: shape {m.shape}")
    full = np.zeros((np_ + 1, 2 * n + 1), complex)
    for q in range(n):
        for k in range(np_):
            fr, a = k / (2 * np_) - q / (2 * n), k / np_ + q / n
            full[int(np_ * (fr + 0.5)), int(n * a)] = want[q, k]
    close("mapped ssca", m, full, t)
    lib = ev("ssca", [n, np_, 0], signal=s)
    if lib is not None:
        ensure(tuple(lib[:2]) == got.shape, f"the library's estimate is {lib[:2]}, the script's {got.shape}")
    # The two detectors' statistics of the estimate.
    z = c.np.normal(size=(n, np_)) + 1j * c.np.normal(size=(n, np_))
    for x in (want, z, z.real.astype(complex)):
        p = x.real ** 2 + x.imag ** 2
        close("max_cut", ssca.max_cut(x), 10 * np.log10(p.max(axis=1)), 1e-9)
        if (p[0] > 1e-20).all():
            close("dcs", ssca.dcs(x), 10 * np.log10(p.sum(axis=0) / p[0]), 1e-9)
    c.ev(2 * got.size + 3 * (n + np_))


def helpers(c):
    u = mod("util")
    c.desc(f"#{c.idx}")
    r = c.rng
    for x in [r.randrange(1, 1 << r.randrange(1, 200)) for _ in range(20)] + [1 << r.randrange(100), (1 << r.randrange(2, 100)) - 1, (1 << r.randrange(1, 100)) + 1, 1 + c.idx]:
        f, n = u.floor_power_of_2(x), u.next_power_of_2(x)
        ensure(f & (f - 1) == 0 and f <= x < 2 * f, f"floor_power_of_2({x}) = {f}")
        ensure(n & (n - 1) == 0 and n >= x > n // 2, f"next_power_of_2({x}) = {n}")
    ensure(u.floor_power_of_2(0) == 0 and u.next_power_of_2(0) == 1, "powers of two around 0")
    y = r.uniform(0, 1e6)
    f = u.floor_power_of_2(y)
    ensure(f == 0 and y < 1 or f <= y < 2 * f, f"floor_power_of_2({y}) = {f}")
    d = c.np.uniform(-200, 200, 50)
    close("db(undb(x))", u.db(u.undb(d)), d, 1e-9)
    close("undb", u.undb(d) / 10 ** (d / 10), np.ones(50), 1e-9)
    ensure(abs(u.db(100.0) - 20) < 1e-12 and abs(u.undb(30.0) - 1000) < 1e-9, "decibels of 100, power of 30 dB")
    p = 10 ** c.np.uniform(-12, 12, 50)
    close("undb(db(x))/x", u.undb(u.db(p)) / p, np.ones(50), 1e-9)
    x = list(c.np.normal(size=r.randrange(0, 40)))
    for y in (x, np.array(x), np.arange(len(x)), np.array(x) * 1j):
        close("fftshift", u.fftshift(y), np.fft.fftshift(np.array(y)), 0)
    m = c.bits(r.randrange(30))
    ensure(list(u.bitz_to_nrz(m)) == [1 if b else -1 for b in m], "bitz_to_nrz")
    ensure([u.bit_to_nrz(b) for b in m] == [1 if b else -1 for b in m], "bit_to_nrz")
    n = 1 + r.randrange(6)
    fill = r.choice([None, False, 7])
    ch = [tuple(t) for t in u.chunk(m, n, fillvalue=fill)]
    ensure(len(ch) == -(-len(m) // n) and all(len(t) == n for t in ch), f"chunk: {len(ch)} of {len(m)} in {n}s")
    flat = [b for t in ch for b in t]
    ensure(flat[: len(m)] == m and all(b is fill for b in flat[len(m):]), "chunk: other items")
    s = r.choice([r.randrange(1, 365 * 86400) + r.choice([0, 0.25, 0.99]), r.randrange(1, 40 * 365 * 86400), r.randrange(1, 100) * 31557600 + r.choice([0, 1, 3600, 86400])])
    t = u.secs_to_str(s)
    tot, num = 0, ""
    for w in t:
        if w.isdigit():
            num += w
        elif w != ":":
            tot += int(num) * {"s": 1, "m": 60, "h": 3600, "d": 86400, "Y": 31557600}[w]
            num = ""
    ensure(tot == int(s), f"secs_to_str({s}) = {t}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        with u.timeit("label"):
            pass
    ensure("label" in out.getvalue(), "timeit prints no label")
    c.ev(200 + len(x) + len(m))


def channel(c):
    """willie.py, ber.py and ber_theory.py: noise, energy, error counting."""
    w, b, bt = mod("willie"), mod("ber"), mod("ber_theory")
    n = 30000
    s = 10 ** c.rng.uniform(-3, 3)
    sig = c.np.normal(size=n) * 5
    c.desc(f"sigma={s:.4g}")

    def unit(what, x):
        x = np.asarray(x) / s
        ensure(x.shape == (n,) and abs(x.mean()) < 6.5 / math.sqrt(n), f"{what}: mean {x.mean()}")
        ensure(abs((x * x).mean() - 1) < 6.5 * math.sqrt(2 / n), f"{what}: variance {(x * x).mean()} instead of 1")
        ensure(abs((x[1:] * x[:-1]).mean()) < 7 / math.sqrt(n), f"{what}: correlated")
        return x

    unit("willie.awgn", np.asarray(w.awgn(sig, s)) - sig)
    z = np.asarray(w.awgn_iq(sig + 1j, s)) - sig - 1j
    i, q = unit("awgn_iq, real axis", z.real), unit("awgn_iq, imaginary axis", z.imag)
    for what, x, y in (("with the imaginary", i, q), ("with itself", i, i)):
        r = np.abs(np.fft.irfft(np.fft.rfft(x, 2 * n) * np.conj(np.fft.rfft(y, 2 * n))))
        if x is y:
            r[0] = 0
        ensure(r.max() < 7.5 * math.sqrt(n), f"awgn_iq: the real axis is correlated {what}, at lag {int(r.argmax())}")
    k = c.rng.choice([0.5, 1, 3])
    for m in (b, bt):
        unit(f"{m.__name__}.noise_sig", (np.asarray(m.noise_sig(list(sig), s, k)) - sig) / k)
    e = float(w.avg_energy(sig))
    close("avg_energy", [e], ev("avg_energy", signal=sig)[:1], 1e-9 * e)
    close("avg_energy_iq", [w.avg_energy_iq(z)], [np.mean(np.abs(z) ** 2) / 2], 1e-9 * s * s)
    a = c.rng.uniform(-9, 9)
    close("scale", w.scale(list(sig[:50]), a), a * sig[:50], 1e-12)
    for m in (b, bt):
        x = c.bits(1 + c.rng.randrange(60))
        y = c.bits(1 + c.rng.randrange(60))
        l = min(len(x), len(y))
        ensure(abs(m.ber(x, y) - sum(p != q for p, q in zip(x, y)) / l) < 1e-12, f"{m.__name__}.ber")
        ensure(m.ber(x, x) == 0 and m.ber(x, [not v for v in x]) == 1, f"{m.__name__}.ber of equal and opposite bits")
        fs, sr, f = 2560, 256, 256.0
        tx = ev("tx_bpsk", [fs, sr], [f], x)
        rx = lambda sg: ev("rx_bpsk", [fs, sr], [f], signal=np.asarray(sg))
        ensure(m.get_ber(x, list(tx), rx, 0.0) == 0, f"{m.__name__}.get_ber of a silent channel")
        r = c.bits(2000)
        v = m.get_ber(r, list(ev("tx_bpsk", [fs, sr], [f], r)), rx, 1e3)
        ensure(abs(v - 0.5) < 0.08, f"{m.__name__}.get_ber of a drowned signal: {v}")
    x = c.np.uniform(0, 12, 30)
    close("ber_bpsk", [bt.ber_bpsk(v) for v in x], [0.5 * math.erfc(math.sqrt(v)) for v in x], 1e-12)
    close("ber_qpsk", [bt.ber_qpsk(v) for v in x], [0.5 * math.erfc(math.sqrt(v)) for v in x], 1e-12)
    p = mod("pd_ber_snr_example")
    close("pd_ber ber", [p.ber(v) for v in x], [0.5 * math.erfc(math.sqrt(v)) for v in x], 1e-12)
    x0, L, kk = c.rng.uniform(-9, 9), c.rng.uniform(0.1, 5), c.rng.uniform(0.1, 5)
    v = c.np.uniform(-20, 20, 20)
    close("logistic_curve", [p.logistic_curve(t, x0, L, kk) for t in v], L / (1 + np.exp(-kk * (v - x0))), 1e-9)
    ensure(abs(p.logistic_curve(x0, x0, L, kk) - L / 2) < 1e-12, "logistic_curve: not half way at its centre")
    c.ev(6 * n)


def sweeps(c):
    ch = mod("chirp")
    rate = c.rng.choice([0.1, 1.0, 3.0, c.rng.uniform(0.05, 20)])
    n = 20 + c.rng.randrange(4000)
    fs = max(1, round(n * rate))
    n = int(fs / rate)
    f0, f1 = c.rng.uniform(0, fs / 4), c.rng.uniform(0, fs / 4)
    ph = c.rng.choice([0, 0, c.rng.uniform(-4, 4)])
    c.desc(f"rate={rate} fs={fs} {f0}->{f1} phase={ph}")
    got = np.asarray(ch.chirpz(rate, fs, f0, f1, phase_rad=ph))
    ensure(got.shape == (n,), f"chirpz: {got.shape} samples, expected {n}")

    def sweep(t, a, b, p):
        return np.sin(2 * np.pi * (a * t + (b - a) * rate * t * t / 2) + p)

    # Either time axis: the ends of the period included, or the samples' own times.
    axes = [np.linspace(0, 1 / rate, n), np.arange(n) / fs]
    e = min(np.abs(got - sweep(t, f0, f1, ph)).max() for t in axes)
    ensure(e < 1e-6, f"chirpz is not the linear sweep (off by {e})")
    fc, bw = (f0 + f1) / 2, abs(f1 - f0)
    got = np.asarray(ch.chirpCtr(fs, fc, rate, bw, ph))
    ensure(got.shape == (n,), f"chirpCtr: {got.shape} samples, expected {n}")
    e = min(np.abs(got - sweep(t, fc - bw / 2, fc + bw / 2, ph)).max() for t in axes)
    ensure(e < 1e-6, f"chirpCtr is not the sweep of bandwidth {bw} around {fc} (off by {e})")
    c.ev(2 * n)


def chaos(c):
    fh = mod("fh_ofdm_dcsk")
    x0 = c.rng.uniform(-1, 1)
    b = 1 + c.rng.randrange(9)
    m = c.bits(b + c.rng.randrange(5))
    c.desc(f"x0={x0} b={b} msg={show(m)}")
    g = fh.chebyshev(x0)
    seq = [next(g) for _ in range(2000)]
    ensure(max(map(abs, seq)) <= 1, "chebyshev leaves [-1, 1]")
    ensure(np.std(seq[-1000:]) > 0.2, f"chebyshev settles: deviation {np.std(seq[-1000:])}")
    close("chebyshev", np.abs(seq[1:]), np.abs(2 * np.array(seq[:-1]) ** 2 - 1), 1e-12)
    out = np.asarray(fh.tx_fh_dcsk(m, b), float)
    ensure(out.shape == (b, b), f"tx_fh_dcsk: {out.shape}")
    ensure(np.array_equal(out, np.asarray(fh.tx_fh_dcsk(m, b), float)), "tx_fh_dcsk: two calls differ")
    plain = np.zeros((b, b))
    for r in range(b):
        x = 0.001 + r / 10
        for k in range(b):
            plain[r, k] = x * (1 if m[r] else -1)
            x = 1 - 2 * x * x
    close("tx_fh_dcsk, every column sorted", np.sort(out, axis=0), np.sort(plain, axis=0), 1e-9)
    ensure([fh.to_nrz(v) for v in m] == [1 if v else -1 for v in m], "to_nrz")
    nest = [1, [2, [3, 4], []], 5]
    ensure(fh._len(nest) == 5 and fh._flatten(nest) == [1, 2, 3, 4, 5], "_len, _flatten")
    c.ev(len(seq) + 2 * b * b)


def bandpass(c):
    bp = mod("bpf")
    fs = c.rng.choice([1000, 10_000, 48_000])
    lo = c.rng.uniform(0.05, 0.2) * fs
    hi = lo + c.rng.uniform(0.08, 0.2) * fs
    order = c.rng.choice([2, 3, 4, 5])
    c.desc(f"fs={fs} {lo:.0f}-{hi:.0f} order={order}")
    t = np.arange(6000) / fs
    y = lambda x: np.asarray(bp.butter_bandpass_filter(x, lo, hi, fs, order=order))
    amp = lambda f: np.sqrt(2 * np.mean(y(np.cos(2 * np.pi * f * t))[3000:] ** 2))
    mid = math.sqrt(lo * hi)
    ensure(abs(amp((lo + hi) / 2) - 1) < 0.06 and abs(amp(mid) - 1) < 0.06, f"in the band: {amp(mid)}")
    ensure(amp(lo * 0.4) < 0.3 and amp(min(hi * 1.6, 0.49 * fs)) < 0.6, f"outside the band: {amp(lo * 0.4)} {amp(hi * 1.6)}")
    for edge in (lo, hi):
        ensure(abs(amp(edge) - math.sqrt(0.5)) < 0.03, f"at an edge: {amp(edge)}")
    a, b = c.np.normal(size=500), c.np.normal(size=500)
    close("linear", y(2 * a - 3 * b), 2 * y(a) - 3 * y(b), 1e-6)
    c.ev(6 * 3000 + 500)


def imports(c):
    """Every name taken from the extension or a sibling script exists."""
    kom = extension()
    names = {os.path.basename(p)[:-3] for p in glob.glob(f"{SCRIPTS}/*.py")}
    c.desc(f"{len(names)} scripts")
    n = 0
    for s in sorted(names):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(open(f"{SCRIPTS}/{s}.py", encoding="utf-8").read())
        for x in ast.walk(tree):
            if isinstance(x, ast.ImportFrom) and not x.level:
                src = kom if x.module == "komunikilo" else mod(x.module) if x.module in names and x.module != s else None
                for a in x.names if src else []:
                    n += 1
                    ensure(a.name == "*" or hasattr(src, a.name), f"{s}.py imports {a.name} from {x.module}, which lacks it")
    for s in sorted(names - {"__init__"}):
        n += 1
        try:
            mod(s)
        except Wrong:
            raise
        except Exception as e:
            raise Wrong(f"{s}.py cannot be imported: {type(e).__name__}: {e}")
    c.ev(n)


RUNNER = r'''
import ast, json, os, sys, warnings
warnings.simplefilter("ignore")
path, small, ext = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
sys.argv = [path]
sys.path[:0] = [os.path.dirname(path), ext]
tree = ast.parse(open(path, encoding="utf-8").read())
class Small(ast.NodeTransformer):
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in small and isinstance(n.value, ast.Constant):
            n.value = ast.copy_location(ast.Constant(small[n.targets[0].id]), n.value)
        return n
    def visit_AnnAssign(self, n):
        if isinstance(n.target, ast.Name) and n.target.id in small and isinstance(n.value, ast.Constant):
            n.value = ast.copy_location(ast.Constant(small[n.target.id]), n.value)
        return n
tree = ast.fix_missing_locations(Small().visit(tree))
out = sys.stdout
sys.stdout = open(os.devnull, "w")
sys.modules["__main__"].__dict__["__file__"] = path
exec(compile(tree, path, "exec"), sys.modules["__main__"].__dict__)
g = sys.modules["__main__"].__dict__
res = {}
if "comms_schemes" in g and hasattr(g["comms_schemes"][0], "bers"):
    res = {s.name: [list(map(float, s.snrs)), list(map(float, s.bers))] for s in g["comms_schemes"]}
elif "bers" in g and "snrs" in g:
    res = {"QPSK": [list(map(float, g["snrs"])), list(map(float, g["bers"]))]}
elif "filtered" in g and "s1" in g:
    res = {"filtered": list(map(float, g["filtered"])), "s1": g["s1"]}
elif "sig_mod" in g:
    res = {"sig_mod": list(map(float, g["sig_mod"]))}
print("RESULT " + json.dumps(res), file=out)
'''

RUNS = [
    ("bpf", {}), ("bpsk_plot", {}), ("cdma", {}), ("chirp", {}), ("fh_css", {}), ("fh_ofdm_dcsk", {}), ("fm", {}),
    ("pd_ber_snr_example", {}), ("roc", {}), ("ber", {"NUM_BITS": 1200}), ("ber_theory", {"NUM_BITS": 1200}),
    ("rs_ssca", {"N": 256, "NUM_BITS": 200}), ("ssca", {"N": 256, "NUM_BITS": 200}),
    ("ssca_debug", {"N": 256, "NUM_BITS": 200}), ("speed_test_ssca", {"N": 128, "num_iters": 12}),
    ("willie", {"NUM_BITS": 30}),
]


def scripts(c):
    """A script runs to its end, on smaller inputs where it asks for hours, and shows what it claims."""
    name, small = RUNS[c.idx % len(RUNS)]
    c.desc(f"{name}.py with {small}")
    if not os.path.exists(f"{SCRIPTS}/{name}.py"):
        return
    with tempfile.TemporaryDirectory() as d:
        try:
            p = subprocess.run([sys.executable, "-c", RUNNER, f"{SCRIPTS}/{name}.py", json.dumps(small), f"{V}/target/ext"],
                               cwd=d, capture_output=True, text=True, timeout=120, check=False)
        except subprocess.TimeoutExpired:
            return  # Not observed to its end.
    line = next((l for l in p.stdout.splitlines() if l.startswith("RESULT ")), None)
    if p.returncode < 0 and -p.returncode == 9:
        raise RuntimeError("the script was killed")
    ensure(line is not None, f"{name}.py fails: {' / '.join(p.stderr.strip().splitlines()[-4:])[-400:]}")
    c.ev()
    res = json.loads(line[7:])
    for scheme, v in res.items() if name in ("ber", "ber_theory") else ():
        snrs, bers = v
        nb = small["NUM_BITS"]
        ensure(len(snrs) == len(bers), f"{scheme}: {len(bers)} rates of {len(snrs)}")
        for snr, r in zip(snrs, bers):
            ensure(0 <= r <= 1, f"{scheme}: a rate of {r}")
            # BPSK and QPSK in theory's neighbourhood; the energy per bit of a short message wanders a little.
            q = 0.5 * math.erfc(math.sqrt(snr))
            if scheme in ("BPSK", "QPSK"):
                lo, hi = 0.5 * math.erfc(math.sqrt(snr * 1.15)), 0.5 * math.erfc(math.sqrt(snr * 0.85))
                m = 5.5 * math.sqrt(max(q, 2 / nb) / nb)
                ensure(lo - m <= r <= hi + m, f"{scheme} at {10 * math.log10(snr):.1f} dB: {r} errors per bit, in theory {q:.4f}")
            c.ev()
        if scheme == "OFDM":
            ensure(bers[0] > 0.3 and bers[-1] < 0.1, f"OFDM: {bers[0]} errors per bit at {snrs[0]}, {bers[-1]} at {snrs[-1]}")
    if name == "bpf" and res:
        y, x = np.array(res["filtered"][-5000:]), np.array(res["s1"][-5000:])
        ensure(abs(np.sqrt(np.mean(y ** 2)) - np.sqrt(np.mean(x ** 2))) < 0.1, "bpf.py: the wanted tone is lost")


if __name__ == "__main__":
    os.environ.setdefault("MPLBACKEND", "agg")
    main("C30", [
        ("imports", 1, 1, imports),
        ("scripts", len(RUNS), 4 * len(RUNS), scripts),
        ("waveform", 1500, 30000, waveform),
        ("recover", 2500, 50000, recover),
        ("spread", 700, 12000, spread),
        ("spectral", 200, 3000, spectral),
        ("helpers", 1500, 20000, helpers),
        ("channel", 40, 300, channel),
        ("sweeps", 400, 6000, sweeps),
        ("chaos", 300, 4000, chaos),
        ("bandpass", 100, 1000, bandpass),
    ])
