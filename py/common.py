"""The Python drivers' runner: groups of generated cases, evidence, verdicts, replays."""
import hashlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

import numpy as np

V = os.environ.get("KMON_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = os.environ.get("VERIF_SEED", "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
RULE = ("each case draws its own configuration and message from a generator seeded by VERIF_SEED, the property, the "
        "group and the case number; a case is non-trivial when a monitor compared at least one observed value with "
        "its oracle, and distinct by its written-out parameters")


class Wrong(Exception):
    """A monitor saw something else than its oracle."""


def ensure(cond, msg):
    if not cond:
        raise Wrong(msg)


class Case:
    def __init__(self, prop, group, idx):
        h = hashlib.sha256(f"{SEED}/{prop}/{group}/{idx}".encode()).digest()
        self.rng = random.Random(h)
        self.np = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.idx = idx
        self.text = ""
        self.events = 0

    def desc(self, s):
        self.text = f"{self.text}; {s}" if self.text else s

    def ev(self, n=1):
        self.events += int(n)

    # Generators shared by the drivers.
    def bits(self, n):
        k = self.rng.randrange(6)
        if k == 0:
            return [True] * n
        if k == 1:
            return [False] * n
        if k == 2:
            return [i % 2 == 0 for i in range(n)]
        return [self.rng.random() < 0.5 for _ in range(n)]

    def msg_len(self, top):
        return min(top, self.rng.choice([0, 1, 2, 3, 7, 8, 9, self.rng.randrange(top + 1), self.rng.randrange(top + 1)]))

    def rates(self, top, k=1):
        sps = self.rng.choice([1, 2, 3, 4, 49, 25, 1 + self.rng.randrange(top)]) % (top + 1) or 1
        sps *= k
        sr = self.rng.choice([1, 2, 256, 900, 1000, 1 + self.rng.randrange(5000)])
        return sps * sr, sr, sps

    def carrier(self, fs):
        nyq = fs // 2
        return self.rng.choice([0.0, float(nyq), nyq / 2, self.rng.uniform(0, nyq), self.rng.uniform(0, nyq),
                                float(self.rng.randrange(nyq + 1))])


def show(bits):
    s = "".join("1" if b else "0" for b in bits)
    return s if len(s) <= 40 else f"{s[:40]}...({len(s)} bits, {hashlib.sha256(s.encode()).hexdigest()[:4]})"


def close(what, got, want, tol=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    ensure(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Wrong(f"{what}: value {i} of {got.shape} is {got[i]}, expected {want[i]} (tolerance {tol:g})")


def same_bits(what, got, want):
    got, want = [bool(b) for b in got], [bool(b) for b in want]
    ensure(len(got) == len(want), f"{what}: {len(got)} bits, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            n = sum(a != b for a, b in zip(got, want))
            raise Wrong(f"{what}: {n} of {len(got)} bits differ, first at {i}: got {g} expected {w}")


class Eval:
    """The library's own answers, from `kmon eval`."""

    def __init__(self):
        self.p = None

    def __call__(self, name, ints=(), floats=(), bits=(), signal=()):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([os.environ["KMON"], "eval"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

        def hx(v):
            a = np.ascontiguousarray(v, dtype="<f8").view("<u8")
            return ",".join(f"{x:016x}" for x in a.tolist()) or "-"

        i = ",".join(str(x) for x in ints) or "-"
        b = "".join("1" if x else "0" for x in bits) or "-"
        self.p.stdin.write(f"{name} {i} {hx(list(floats))} {b} {hx(signal)}\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline().rstrip("\n")
        if not r:
            raise RuntimeError(f"kmon eval gave no answer for {name}")
        if r == "panic":
            return None
        kind, _, body = r.partition(" ")
        if kind == "bits":
            return [c == "1" for c in body]
        if not body:
            return np.zeros(0)
        return np.array([int(x, 16) for x in body.split(",")], dtype="<u8").view("<f8")


ev = Eval()
_GROUPS = None
_PROP = None
_AT = None


def _run_one(arg):
    gi, idx = arg
    name, _, _, fn = _GROUPS[gi]
    c = Case(_PROP, name, idx)
    t0 = time.time()
    msg = None
    try:
        fn(c)
    except KeyboardInterrupt:
        raise
    except Wrong as e:
        msg = str(e)
    except BaseException as e:  # PyO3's PanicException is a BaseException.
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        msg = f"{type(e).__name__}: {e} ({where})"
    return gi, idx, c.text, c.events, msg, time.time() - t0


def known_findings(prop):
    head = f"known: property={prop} match="
    try:
        with open(f"{V}/known_findings.txt", encoding="utf-8") as f:
            return [l.rstrip("\n")[len(head):] for l in f if l.startswith(head)]
    except OSError:
        return []


def _run_chunk(arg):
    ci, tasks = arg
    out = []
    for k, t in enumerate(tasks):
        _AT[ci] = k
        out.append(_run_one(t))
    return out


def _results(tasks, workers, budget, hang):
    """Runs the tasks in worker processes; yields their results, or a case that never returned."""
    global _AT
    size = max(1, min(16, len(tasks) // (workers * 8) or 1))
    chunks = [tasks[i : i + size] for i in range(0, len(tasks), size)]
    _AT = multiprocessing.get_context("fork").Array("i", len(chunks), lock=False)
    t0 = last = time.time()
    pool = ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("fork"))
    try:
        todo = enumerate(chunks)
        procs = []
        live = {}
        while True:
            while len(live) < 2 * workers and time.time() - t0 < budget:
                nxt = next(todo, None)
                if nxt is None:
                    break
                live[pool.submit(_run_chunk, nxt)] = nxt
            if not live:
                return
            procs = list((pool._processes or {}).values())
            done, _ = wait(live, timeout=5, return_when=FIRST_COMPLETED)
            if done:
                last = time.time()
            for f in done:
                ci, ts = live.pop(f)
                try:
                    yield from f.result()
                except BrokenProcessPool:
                    # A crash is the code's doing; a kill from outside is not.
                    for p in procs:
                        p.join(5)
                    codes = {-p.exitcode for p in procs if p.exitcode is not None and p.exitcode < 0}
                    crash = codes & {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
                    if not crash:
                        raise RuntimeError(f"a worker process was ended: {codes}")
                    gi, idx = ts[_AT[ci]]
                    yield gi, idx, "one of the cases that were running", 1, f"the process died of {[signal.Signals(x).name for x in crash]}", 0.0
                    return
            if time.time() - last > hang:
                ci, ts = next(iter(live.values()))
                gi, idx = ts[_AT[ci]]
                yield gi, idx, "", 1, f"no answer within {hang} s", 0.0
                return
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()


def main(prop, groups, workers=8, budget=None, hang=150):
    """groups: (name, quick, thorough, fn)."""
    global _GROUPS, _PROP
    _GROUPS, _PROP = groups, prop
    budget = budget or (600 if TIER == "thorough" else 240)
    t0 = time.time()
    only = sys.argv[1] if len(sys.argv) > 1 else None
    tasks = []
    for gi, (name, q, t, _) in enumerate(groups):
        if only:
            g, _, i = only.partition(":")
            if g == name:
                tasks.append((0, gi, int(i)))
        else:
            n = t if TIER == "thorough" else q
            tasks += [(i / n, gi, i) for i in range(n)]
    tasks = [(gi, i) for _, gi, i in sorted(tasks)]
    per = [[0, 0, 0.0] for _ in groups]
    samples = [None] * len(groups)
    fps, viols, evals, events = set(), [], 0, 0
    nviol = 0
    res = map(_run_one, tasks) if only else _results(tasks, workers, budget, hang)
    known = known_findings(prop)
    seen = set()
    for gi, idx, text, n, msg, dt in res:
        evals += 1
        events += n
        per[gi][0] += 1
        per[gi][1] += n
        per[gi][2] += dt
        if n:
            fps.add((gi, text))
            samples[gi] = samples[gi] or text
        if msg is not None:
            sig = f"{groups[gi][0]}: {text}: {msg}"
            k = next((k for k in known if k in sig), None)
            if k:
                seen.add(k)
                continue
            nviol += 1
            if len(viols) < 40:
                viols.append((groups[gi][0], idx, text, msg))
    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {k}")
    wall = time.time() - t0
    if not only:
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump({
            "property": prop, "tier": TIER, "seed": int(SEED), "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(fps), "rule": RULE, "values_compared": events,
                "cases_planned": len(tasks),
                "groups": {g[0]: {"cases": p[0], "values_compared": p[1], "cpu_ms": int(p[2] * 1000)} for g, p in zip(groups, per)},
                "samples": [f"{g[0]}: {s[:300]}" for g, s in zip(groups, samples) if s],
            },
            "wall_s": round(wall, 2), "violations": nviol,
        }, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {evals} of {len(tasks)} cases, {len(fps)} distinct non-trivial, {events} values compared, {nviol} violations, {wall:.1f} s")
    if viols:
        for g, i, text, msg in viols[:8]:
            print(f"  {g} #{i}: {text[:500]}\n    => {msg[:600]}")
        g, i, text, msg = viols[0]
        path = f"{V}/replays/{prop}-{SEED}-{g}-{i}.txt"
        os.makedirs(f"{V}/replays", exist_ok=True)
        with open(path, "w") as f:
            f.write(f"property {prop}\ncase {g} #{i} seed {SEED}\n{text}\n=> {msg}\n"
                    f"replay: cd /verif && VERIF_SEED={SEED} bash run.sh {prop} {g}:{i}\n")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        os._exit(1)
    sys.stdout.flush()
    if not evals or not events:
        print("inconclusive: nothing was observed", flush=True)
        os._exit(2)
    os._exit(0)


def extension():
    sys.path.insert(0, f"{V}/target/ext")
    import komunikilo
    ensure(os.path.realpath(komunikilo.__file__).startswith(os.path.realpath(V)), f"imported {komunikilo.__file__}")
    return komunikilo


def hamming_periodic(n):
    return 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(n) / n)


def ssca_def(s, n, np_, win=hamming_periodic, dtype=complex):
    """The strip spectral correlation estimate from its definition."""
    s = np.asarray(s, float)
    x = np.lib.stride_tricks.sliding_window_view(s[: n + np_], np_)[:n] * win(np_)
    xat = np.fft.fftshift(np.fft.fft(x, axis=1), axes=1)
    k = np.arange(np_) - np_ // 2
    i = np.arange(n)
    em = np.exp(-2j * np.pi * ((k[None, :] * i[:, None]) % np_) / np_)
    xg = xat * em * s[np_ // 2 + i][:, None] * win(n)[:, None]
    return np.fft.fftshift(np.fft.fft(xg, axis=0), axes=0)
