#!/usr/bin/env python3
"""C23: the extension module against the library it wraps."""
import math
import sys
import threading

import numpy as np

from common import Wrong, close, ensure, ev, extension, main, same_bits, show

EXPORTS = ("tx_baseband_bpsk tx_bpsk rx_bpsk tx_qpsk rx_qpsk tx_cdma_bpsk tx_ofdm rx_ofdm tx_csk tx_dcsk tx_bfsk "
           "tx_fh_css tx_fh_ofdm_dcsk random_data awgn pure_awgn chirp energy_detector avg_energy ssca "
           "max_cut_detector max_cut_detector_sxf dcs_detector dcs_detector_sxf").split()


def as_bits(c, b):
    k = c.rng.randrange(4)
    if k == 0:
        return np.array(b, dtype=bool)
    if k == 1:
        return tuple(b)
    if k == 2:
        return np.array([x for y in b for x in (y, not y)], dtype=bool)[::2] if b else b
    return list(b)


def as_sig(c, s):
    return c.rng.choice([list, np.asarray, tuple])(s)


class Call:
    """One generated call: what Python is asked, and what the library says."""

    def __init__(self, name, pos, kw, want, rx=None):
        self.name, self.pos, self.kw, self.want, self.rx = name, pos, kw, want, rx

    def __call__(self, kom, c=None):
        f = getattr(kom, self.name)
        if c is not None and c.rng.random() < 0.4:
            return f(self.pos, **self.kw)
        return f(self.pos, *self.kw.values())


def hold(x, n):
    return np.repeat(x, n)


def make(c, top=300):
    """A random call of a random transmitter (or chirp)."""
    name = c.rng.choice(["tx_baseband_bpsk", "tx_bpsk", "tx_qpsk", "tx_cdma_bpsk", "tx_ofdm", "tx_csk", "tx_dcsk", "tx_bfsk", "tx_fh_css", "tx_fh_ofdm_dcsk"])
    long = top == 300 and c.rng.random() < 0.06
    m = c.bits(300 + c.rng.randrange(4000) if long else c.msg_len(top))
    b = as_bits(c, m)
    fs, sr, sps = c.rates(4 if long else 30, 32 if name == "tx_cdma_bpsk" else 1)
    f = c.carrier(fs)
    rates = dict(sample_rate=fs, symbol_rate=sr)
    if name == "tx_baseband_bpsk":
        w = ev(name, bits=m)
        call = Call(name, b, {}, w[::2] + 1j * w[1::2])
    elif name in ("tx_bpsk", "tx_qpsk", "tx_cdma_bpsk", "tx_fh_ofdm_dcsk"):
        call = Call(name, b, dict(**rates, carrier_freq=f), ev(name, [fs, sr], [f], m))
    elif name == "tx_ofdm":
        n = c.rng.choice([2, 3, 8, 16, 64, 2 + c.rng.randrange(40)])
        p = 1 + c.rng.randrange(n - 1)
        call = Call(name, b, dict(subcarriers=n, pilots=p, **rates, carrier_freq=f), ev(name, [n, p, fs, sr], [f], m))
    elif name in ("tx_csk", "tx_dcsk"):
        call = Call(name, b, rates, hold(ev(name, bits=m), sps))
    elif name == "tx_bfsk":
        lo, hi = sorted((c.rng.uniform(0, fs // 2), c.rng.uniform(0, fs // 2)))
        call = Call(name, b, dict(**rates, freq_low=lo, freq_high=hi), ev(name, [fs, sr], [lo, hi], m))
    else:
        lo, hi = sorted((c.rng.uniform(0, fs // 2), c.rng.uniform(0, fs // 2)))
        k = 1 + c.rng.randrange(12)
        call = Call(name, b, dict(**rates, freq_low=lo, freq_high=hi, num_freqs=k), ev(name, [fs, sr, k], [lo, hi], m))
    c.desc(f"{name} {call.kw} msg={show(m)} as {type(b).__name__}")
    ensure(call.want is not None, "the library rejects this configuration: the driver is wrong")
    return call


def tol(want):
    return 1e-9 * max(1.0, float(np.max(np.abs(want)))) if len(want) else 0.0


def transmit(c):
    kom = extension()
    call = make(c)
    got = call(kom, c)
    ensure(isinstance(got, (list, np.ndarray)), f"a {type(got).__name__}")
    close(call.name, got, call.want, tol(call.want))
    c.ev(len(call.want) + 1)


def receive(c):
    """rx_* on clean, noisy and arbitrary signals: the library's bits."""
    kom = extension()
    name = c.rng.choice(["rx_bpsk", "rx_qpsk", "rx_ofdm"])
    fs, sr, sps = c.rates(20)
    f = c.carrier(fs)
    m = c.bits(c.msg_len(120))
    kind = c.rng.choice(["clean", "noisy", "cut", "noise"])
    if name == "rx_ofdm":
        n = 2 + c.rng.randrange(20)
        ints = [n, 1 + c.rng.randrange(n - 1), fs, sr]
        kw = dict(subcarriers=n, pilots=ints[1], sample_rate=fs, symbol_rate=sr, carrier_freq=f)
    else:
        ints = [fs, sr]
        kw = dict(sample_rate=fs, symbol_rate=sr, carrier_freq=f)
    sig = np.asarray(ev("tx" + name[2:], ints, [f], m))
    if kind == "noisy":
        sig = sig + c.np.normal(size=len(sig)) * 0.5
    elif kind == "cut":
        sig = sig[: c.rng.randrange(len(sig) + 1)]
    elif kind == "noise":
        sig = c.np.normal(size=c.rng.randrange(500))
    c.desc(f"{name} {kw} {kind} msg={show(m)}")
    want = ev(name, ints, [f], signal=sig)
    ensure(want is not None, "the library's receiver panicked")
    fn = getattr(kom, name)
    got = fn(as_sig(c, sig), **kw) if c.rng.random() < 0.5 else fn(as_sig(c, sig), *kw.values())
    if kind != "clean":
        # A bit decided by a sum at rounding distance from zero may go either way.
        ensure(len(got) == len(want), f"{len(got)} bits, expected {len(want)}")
        diff = sum(bool(a) != b for a, b in zip(got, want))
        ensure(diff == 0, f"{diff} of {len(got)} bits differ from the library's")
    else:
        same_bits(name, got, want)
    c.ev(len(want) + 1)


def loopback(c):
    """Messages modulated from Python come back bit for bit."""
    kom = extension()
    kind = c.rng.choice(["bpsk", "qpsk", "ofdm"])
    m = c.bits(c.msg_len(4000 if c.rng.random() < 0.05 else 400))
    sps = 2 + c.rng.randrange(24)
    sr = c.rng.choice([1, 100, 256, 900, 4801])
    fs = sps * sr
    h = 1 + c.rng.randrange(sps - 1)
    f = h * sr / 2
    c.desc(f"{kind} fs={fs} sr={sr} f={f} msg={show(m)}")
    b = as_bits(c, m)
    if kind == "bpsk":
        back = kom.rx_bpsk(as_sig(c, kom.tx_bpsk(b, fs, sr, f)), fs, sr, f)
        want = m
    elif kind == "qpsk":
        back = kom.rx_qpsk(as_sig(c, kom.tx_qpsk(b, fs, sr, f)), fs, sr, f)
        want = m[: len(m) // 2 * 2]
    else:
        n = 4 * (1 + c.rng.randrange(16))
        p = 1 + c.rng.randrange(n - 1)
        # A carrier of whole half cycles per symbol separates the axes exactly.
        sig = kom.tx_ofdm(b, n, p, fs, sr, f)
        back = kom.rx_ofdm(as_sig(c, sig), n, p, fs, sr, f)
        want = m[: len(m) // 2 * 2]
        ensure(len(back) >= len(want), f"{len(back)} bits of {len(want)}")
        ensure(len(back) % (2 * (n - p)) == 0, f"{len(back)} bits is not a whole number of symbols of {2 * (n - p)}")
        back = back[: len(want)]
    same_bits(kind, back, want)
    c.ev(len(want) + 1)


def documented(c):
    """Facts about the wrappers that do not go through the library."""
    kom = extension()
    long = c.rng.random() < 0.1
    m = c.bits(c.msg_len(4000 if long else 60))
    sps = 2 + c.rng.randrange(3 if long else 12)
    sr = c.rng.choice([1, 10, 256])
    c.desc(f"sps={sps} sr={sr} msg={show(m)}")

    def logistic(x, n):
        out = []
        for _ in range(n):
            out.append(x)
            x = 3.9 * x * (1 - x)
        return out

    got = np.asarray(kom.tx_csk(m, sps * sr, sr))
    ensure(len(got) == len(m) * sps, f"tx_csk: {len(got)} samples, expected {len(m) * sps}")
    got2 = np.asarray(kom.tx_dcsk(m, sps * sr, sr))
    ensure(len(got2) == 2 * len(m) * sps, f"tx_dcsk: {len(got2)} samples, expected {2 * len(m) * sps}")
    if m:
        a = got.reshape(-1, sps)
        ensure((a == a[:, :1]).all(), "tx_csk: a symbol is not held")
        d = got2.reshape(-1, 2, sps)
        ensure((d == d[:, :, :1]).all(), "tx_dcsk: a symbol is not held")
        r, i = d[:, 0, 0], d[:, 1, 0]
        ensure((np.sign(r * i) == [1 if x else -1 for x in m]).all() and np.allclose(abs(r), abs(i)), "tx_dcsk: not reference and data")
        # Neither the library's evaluator: the logistic map itself, while it has not diverged through rounding.
        n = min(len(m), 12)
        want = [y if x else z for x, y, z in zip(m, logistic(0.1, n), logistic(0.15, n))]
        alt = [y if x else z for x, y, z in zip(m, logistic(0.1, n + 1)[1:], logistic(0.15, n + 1)[1:])]
        ok = any(np.allclose(a[:n, 0], w, atol=1e-6) for w in (want, alt))
        ensure(ok, f"tx_csk: {a[:n, 0]} is not the keyed logistic maps {want}")
    # CDMA: BPSK times the first key of the 16-chip Walsh code, chip by chip.
    fs = 16 * sps * sr
    f = c.rng.uniform(0, fs // 2)
    x = np.asarray(kom.tx_cdma_bpsk(m, fs, sr, f))
    y = np.asarray(kom.tx_bpsk(m, fs, sr, f))
    ensure(len(x) == len(y) == len(m) * 16 * sps, f"tx_cdma_bpsk: {len(x)} samples")
    key = np.array([1.0 if b else -1.0 for b in ev("walsh", [16, 0])])
    code = np.tile(np.repeat(key, sps), len(m))
    e = min(float(np.max(np.abs(x - code * y), initial=0)), float(np.max(np.abs(x + code * y), initial=0)))
    ensure(e < 1e-6, f"tx_cdma_bpsk is not BPSK times the first Walsh key (off by {e})")
    c.ev(len(got) + len(got2) + len(x) + 3)


def chirps(c):
    kom = extension()
    rate = c.rng.choice([0.1, 1.0, 8.0, 3.0, c.rng.uniform(0.05, 50)])
    fs = c.rng.choice([150, 1000, 44100, 1 + c.rng.randrange(5000)])
    n = int(fs / rate)
    if n > 40000:
        fs = max(1, int(40000 * rate))
    f0, f1 = c.rng.uniform(0, fs / 2), c.rng.uniform(0, fs / 2)
    c.desc(f"chirp rate={rate} fs={fs} {f0}->{f1}")
    want = ev("chirp", [fs], [rate, f0, f1])
    got = kom.chirp(rate, fs, f0, f1) if c.rng.random() < 0.5 else kom.chirp(chirp_rate=rate, sample_rate=fs, f0=f0, f1=f1)
    close("chirp", got, want, 1e-9)
    c.ev(len(want) + 1)


def noise(c):
    kom = extension()
    n = 60000
    s = 10 ** c.rng.uniform(-3, 3)
    sig = c.np.normal(size=n) * 10 * s if c.rng.random() < 0.5 else np.full(n, c.rng.uniform(-9, 9) * s)
    c.desc(f"sigma={s:.4g}")

    def judge(what, x):
        x = np.asarray(x) / s
        ensure(x.shape == (n,), f"{what}: shape {x.shape}, expected ({n},)")
        ensure(np.isfinite(x).all(), f"{what}: not finite")
        lim = 6.5 / math.sqrt(n)
        ensure(abs(x.mean()) < lim, f"{what}: mean {x.mean()} of a unit deviation")
        ensure(abs((x * x).mean() - 1) < lim * math.sqrt(2), f"{what}: variance {(x * x).mean()} instead of 1")
        ensure(abs((x ** 4).mean() - 3) < lim * math.sqrt(96), f"{what}: fourth moment {(x ** 4).mean()} instead of 3")
        for k in (1, 2, 7):
            ensure(abs((x[k:] * x[:-k]).mean()) < lim * 1.1, f"{what}: correlation at lag {k}")
        ensure(np.abs(x).max() < 8, f"{what}: a value of {np.abs(x).max()} deviations")
        return x

    a = judge("pure_awgn", kom.pure_awgn(n, s))
    b = judge("pure_awgn again", kom.pure_awgn(size=n, sigma=s))
    d = judge("awgn", np.asarray(kom.awgn(as_sig(c, sig), s)) - sig)
    for what, u, v in (("two calls", a, b), ("pure_awgn and awgn", a, d)):
        ensure(abs((u * v).mean()) < 7 / math.sqrt(n), f"{what} give correlated noise")
    ensure(list(kom.awgn(sig.tolist()[:50], 0.0)) == sig.tolist()[:50], "noise of deviation 0 changes the signal")
    ensure(kom.pure_awgn(0, s) == [], "pure_awgn(0) is not empty")
    k = c.rng.randrange(5000)
    ensure(len(kom.pure_awgn(k, s)) == k, "pure_awgn: wrong length")
    r = np.asarray(kom.random_data(n))
    ensure(r.shape == (n,) and r.dtype == bool, f"random_data: {r.shape} {r.dtype}")
    z = np.where(r, 1.0, -1.0)
    ensure(abs(z.mean()) < 6.5 / math.sqrt(n), f"random_data: {r.mean()} of the bits are ones")
    for lag in (1, 2, 8, 64):
        ensure(abs((z[lag:] * z[:-lag]).mean()) < 6.6 / math.sqrt(n), f"random_data: correlation at lag {lag}")
    # Every place of a word, and of a short answer, is as random as the others.
    for m in (8, 32, 64, 128, 1024):
        rows = z[:n // m * m].reshape(-1, m)
        if len(rows) >= 30:
            ensure(np.abs(rows.mean(axis=0)).max() < 7 / math.sqrt(len(rows)), f"random_data: some bits at a multiple of {m} are not balanced")
    short = np.array([kom.random_data(128) for _ in range(400)]) * 2.0 - 1.0
    ensure(np.abs(short.mean(axis=0)).max() < 7 / math.sqrt(400), "random_data: a bit of every answer is not balanced")
    ensure(np.abs((short[1:] * short[:-1]).mean(axis=0)).max() < 7 / math.sqrt(399), "random_data: a bit depends on the one of the call before")
    z2 = np.where(np.asarray(kom.random_data(n)), 1.0, -1.0)
    ensure(abs((z * z2).mean()) < 6.5 / math.sqrt(n), "random_data: two calls are correlated")
    ensure(len(kom.random_data(k)) == k, "random_data: wrong length")
    c.ev(5 * n)


BAD = [
    ("carrier above Nyquist", lambda k, m: k.tx_bpsk(m, 1000, 100, 501.5)),
    ("carrier above Nyquist", lambda k, m: k.tx_qpsk(m, 1000, 100, 502.0)),
    ("carrier above Nyquist", lambda k, m: k.tx_cdma_bpsk(m, 1600, 100, 802.0)),
    ("carrier above Nyquist", lambda k, m: k.tx_ofdm(m, 16, 4, 1000, 100, 502.0)),
    ("carrier above Nyquist", lambda k, m: k.tx_fh_ofdm_dcsk(m, 1000, 100, 502.0)),
    ("tone above Nyquist", lambda k, m: k.tx_bfsk(m, 1000, 100, 20.0, 502.0)),
    ("fractional symbol", lambda k, m: k.tx_bpsk(m, 1000, 300, 100.0)),
    ("fractional symbol", lambda k, m: k.tx_qpsk(m, 1000, 300, 100.0)),
    ("fractional symbol", lambda k, m: k.tx_csk(m, 1000, 300)),
    ("fractional symbol", lambda k, m: k.tx_dcsk(m, 1000, 300)),
    ("fractional symbol", lambda k, m: k.tx_bfsk(m, 1000, 300, 10.0, 20.0)),
    ("fractional symbol", lambda k, m: k.tx_fh_css(m, 1000, 300, 10.0, 20.0, 4)),
    ("fractional chip", lambda k, m: k.tx_cdma_bpsk(m, 1000, 100, 100.0)),
    ("all pilots", lambda k, m: k.tx_ofdm(m, 16, 16, 1000, 100, 100.0)),
    ("no pilots", lambda k, m: k.tx_ofdm(m, 16, 0, 1000, 100, 100.0)),
    ("negative rate", lambda k, m: k.tx_bpsk(m, -1000, 100, 100.0)),
    ("wrong type", lambda k, m: k.tx_bpsk("hello", 1000, 100, 100.0)),
    ("wrong type", lambda k, m: k.rx_bpsk(["x"], 1000, 100, 100.0)),
    ("missing argument", lambda k, m: k.tx_bpsk(m, 1000, 100)),
    ("signal too short", lambda k, m: k.max_cut_detector([0.0] * 4158)),
    ("signal too short", lambda k, m: k.ssca([0.0] * 100)),
    ("negative deviation", lambda k, m: k.pure_awgn(10, float("nan"))),
    ("N not above Np", lambda k, m: k.ssca([0.0] * 100, 8, 8)),
]


def any_bad(c):
    """A random impossible configuration."""
    what = c.rng.choice(["fraction", "fraction", "nyquist"])
    sr = 2 + c.rng.randrange(3000)
    if what == "fraction":
        fs = sr * c.rng.randrange(1, 40) + 1 + c.rng.randrange(sr - 1)
        f = c.rng.uniform(0, fs // 2)
    else:
        fs = sr * (1 + c.rng.randrange(40))
        f = fs // 2 + 1 + c.rng.random() * c.rng.choice([1, 100, 1e6])
    g = c.rng.uniform(0, min(f, fs // 2))
    calls = [
        ("tx_bpsk", (fs, sr, f)), ("tx_qpsk", (fs, sr, f)), ("tx_ofdm", (16, 4, fs, sr, f)),
        ("tx_fh_ofdm_dcsk", (fs, sr, f)), ("tx_bfsk", (fs, sr, g, f)),
        ("tx_cdma_bpsk", (16 * fs, 16 * sr, 16 * f)),
    ]
    if what == "fraction":
        calls += [("tx_csk", (fs, sr)), ("tx_dcsk", (fs, sr)), ("tx_fh_css", (fs, sr, g, f, 4))]
    name, args = c.rng.choice(calls)
    return f"{name}{args}", lambda k, m: getattr(k, name)(m, *args)


def rejected(c):
    """An impossible call raises, and nothing that follows notices."""
    kom = extension()
    call = make(c, 80)
    before = call(kom)
    picks = [BAD[c.idx % len(BAD)]] + [c.rng.choice(BAD), any_bad(c), any_bad(c), any_bad(c)]
    m = c.bits(8)
    for what, bad in picks:
        c.desc(f"then {what}")
        try:
            bad(kom, m)
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            ensure(type(e).__name__ in ("PanicException", "OverflowError", "TypeError", "ValueError"), f"{what}: {type(e).__name__}")
        else:
            raise Wrong(f"{what}: accepted")
        again = call(kom)
        ensure(np.array_equal(np.asarray(before), np.asarray(again)), f"after {what} the module answers differently")
        c.ev(len(call.want) + 1)
    close(call.name, before, call.want, tol(call.want))
    ensure(len(kom.random_data(10)) == 10 and len(kom.awgn([0.0] * 5, 1.0)) == 5, "the generators stopped working")


def threads(c):
    """Concurrent Python threads each get their own answers."""
    kom = extension()
    calls = [make(c, 120) for _ in range(6)]
    got = [[] for _ in calls]
    errs = []
    go = threading.Barrier(len(calls))

    def work(i):
        try:
            go.wait()
            for _ in range(4):
                got[i].append(calls[i](kom))
                kom.random_data(20)
        except BaseException as e:
            errs.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(calls))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    ensure(not errs, f"a thread failed: {errs[:1]}")
    for call, g in zip(calls, got):
        for x in g:
            close(call.name, x, call.want, tol(call.want))
            c.ev(len(x) + 1)


def surface(c):
    kom = extension()
    c.desc("exports")
    have = {n for n in dir(kom) if not n.startswith("_")}
    missing = [n for n in EXPORTS if n not in have]
    ensure(not missing, f"the module lacks {missing}")
    for n in EXPORTS:
        ensure(callable(getattr(kom, n)), f"{n} is not a function")
    c.ev(len(EXPORTS))


if __name__ == "__main__":
    main("C23", [
        ("surface", 1, 1, surface),
        ("transmit", 12000, 150000, transmit),
        ("receive", 5000, 20000, receive),
        ("loopback", 5000, 20000, loopback),
        ("documented", 1500, 8000, documented),
        ("chirps", 1500, 5000, chirps),
        ("noise", 40, 400, noise),
        ("rejected", 1200, 4000, rejected),
        ("threads", 300, 800, threads),
    ])
