#!/usr/bin/env python3
"""Calls the extension between markers, for a system-call trace of this process (C33)."""
import copy
import os
import random
import sys

import numpy as np

import c23
from common import Case, extension


def mark(i, what):
    try:
        os.stat(f"/kmon-marker/{i}/{what}")
    except OSError:
        pass


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)) and a and isinstance(a[0], float):
        # No NaN equals its copy.
        return type(a) is type(b) and len(a) == len(b) and np.array(a).tobytes() == np.array(b).tobytes()
    return type(a) is type(b) and a == b


def rng_state():
    s = np.random.get_state()
    return random.getstate(), s[0], s[1].tobytes(), s[2:], np.geterr(), os.getcwd(), dict(os.environ)


def special(c, x):
    """A third of the signals are not noise: silent, constant, huge, tiny, or not numbers."""
    how = c.rng.randrange(24)
    n = len(x)
    if how == 0:
        return np.zeros(n)
    if how == 1:
        return np.full(n, c.rng.choice([1.0, -1.0, 0.25, -0.0]))
    if how == 2:
        return x * 1e300
    if how == 3:
        return x * 5e-324
    if how in (4, 5):
        x = x.copy()
        x[c.rng.randrange(n)] = (np.nan, np.inf)[how - 4]
        return x
    if how == 6:
        return np.full(n, c.rng.choice([np.nan, np.inf, -np.inf]))
    if how == 7:
        return np.where(np.arange(n) % 2, -1.0, 1.0)
    return x


def call(c, kom, k, large=False):
    """(description, function, positional arguments, keyword arguments)"""
    n = 1 + c.rng.randrange(400) if c.rng.randrange(16) else 1
    large = large and c.rng.randrange(12) == 0
    if large:
        n = 1 + c.rng.randrange(300_000)
    x = special(c, c.np.normal(size=n))
    sig = c23.as_sig(c, x)
    if k == 0:
        return "awgn", kom.awgn, [sig, 0.5], {}
    if k == 1:
        return "energy_detector", kom.energy_detector, [sig], {}
    if k == 2:
        return "avg_energy", kom.avg_energy, [sig], {}
    if k == 3:
        fs, sr, _ = c.rates(20)
        return "rx_bpsk", kom.rx_bpsk, [sig, fs, sr, c.carrier(fs)], {}
    if k == 4:
        fs, sr, _ = c.rates(20)
        return "rx_qpsk", kom.rx_qpsk, [sig, fs, sr, c.carrier(fs)], {}
    if k == 5:
        fs, sr, _ = c.rates(10)
        return "rx_ofdm", kom.rx_ofdm, [sig, 8, 2, fs, sr, c.carrier(fs)], {}
    if k == 6:
        how = c.rng.randrange(3)
        if how == 2:
            # The map wants powers of two.
            np_ = 1 << (1 + c.rng.randrange(4))
            m = np_ << (1 + c.rng.randrange(3))
        else:
            np_ = 2 * (1 + c.rng.randrange(8))
            m = np_ + 1 + c.rng.randrange(60)
        if large:
            np_, m = 128, 8192
        y = special(c, c.np.normal(size=m + np_))
        return "ssca", kom.ssca, [c23.as_sig(c, y), m, np_] + [[], [False], [True]][how], {}
    if k == 7:
        return "random_data", kom.random_data, [n], {}
    if k == 8:
        return "pure_awgn", kom.pure_awgn, [n, 0.3], {}
    if k == 9:
        fs = 100 * (1 + c.rng.randrange(90))
        return "chirp", kom.chirp, [100.0, fs, c.carrier(fs), c.carrier(fs)], {}
    if k in (10, 11):
        f = (kom.max_cut_detector, kom.dcs_detector)[k - 10]
        return f.__name__, f, [c23.as_sig(c, special(c, c.np.normal(size=4160)))], {}
    if k in (12, 13):
        f = (kom.max_cut_detector_sxf, kom.dcs_detector_sxf)[k - 12]
        rows = 1 + n % (4096 if large else 20)
        return f.__name__, f, [special(c, c.np.normal(size=8 * rows)).reshape(rows, 8) + c.rng.choice([0j, 1j])], {}
    call = c23.make(c, 80)
    return call.name, getattr(kom, call.name), [call.pos], call.kw


KINDS = 28


def main():
    seed, count = sys.argv[1], int(sys.argv[2])
    kom = extension()
    log = []
    for i in range(count):
        c = Case("C33", f"python-{seed}", i)
        name, f, pos, kw = call(c, kom, i % KINDS, True)
        keep = copy.deepcopy(pos)
        world = rng_state()
        mark(i, "begin")
        out = f(*pos, **kw)
        mark(i, "end")
        n = np.size(out)
        log.append(f"{i}\t{n}\t{name} {c.text}")
        if not all(same(a, b) for a, b in zip(pos, keep)):
            log.append(f"CHANGED\t{i}\tan argument of {name}")
        elif rng_state() != world:
            log.append(f"CHANGED\t{i}\ta random generator, the float errors, the folder or the environment of the interpreter")
    print("\n".join(log))


if __name__ == "__main__":
    main()
