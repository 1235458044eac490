#!/usr/bin/env python3
"""C32: the allocator's view of the library (kmon C32), then of the extension's calls."""
import copy
import ctypes
import gc
import json
import os
import subprocess
import sys

import c23
import quiet_child
from common import V, ensure, extension, main

LIBC = ctypes.CDLL(None)


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


LIBC.mallinfo2.restype = Mallinfo2
ROUNDS = 200


def held():
    gc.collect()
    m = LIBC.mallinfo2()
    return m.uordblks + m.hblkhd, sys.getallocatedblocks()


def calls(c):
    kom = extension()
    name, f, pos, kw = quiet_child.call(c, kom, c.idx % quiet_child.KINDS)
    bad = c.idx % 4 == 3
    c.desc(f"{name} {c.text} with a bad argument" if bad else f"{name} size={[len(x) for x in pos if hasattr(x, '__len__')]}")
    if bad:
        # Rejected calls let go of what they took, too.
        pos = copy.copy(pos) + [object()]
    rounds = 40 if name in ("max_cut_detector", "dcs_detector") else ROUNDS

    def go(k):
        for _ in range(k):
            try:
                f(*pos, **kw)
                ensure(not bad, f"{name} takes an argument too many")
            except TypeError:
                ensure(bad, f"{name} rejected its arguments")

    go(20)
    # The smallest block of the allocator has 32 bytes: a leak of any leaves more.
    least = []
    for k in (rounds, rounds, 4 * rounds):
        a = held()
        go(k)
        b = held()
        least.append(((b[0] - a[0]) / k, (b[1] - a[1]) / k))
    c.ev(6 * rounds)
    mem, blocks = (min(x) for x in zip(*least))
    ensure(mem < 24, f"{name}: every call leaves {mem:.0f} bytes of memory behind")
    ensure(blocks < 0.5, f"{name}: every call leaves {blocks:.1f} Python blocks behind")


def library():
    """The Rust side. Its evidence is merged into the Python side's at the end."""
    p = subprocess.run([os.environ["KMON"], "C32"], capture_output=True, text=True, errors="replace")
    sys.stdout.write(p.stdout)
    sys.stderr.write(p.stderr[-3000:])
    sys.stdout.flush()
    if p.returncode == 1 and "VIOLATION" in p.stdout:
        sys.exit(1)
    if p.returncode:
        sys.exit(2)
    with open(f"{V}/evidence/C32.json") as f:
        return json.load(f)


def merged(rust):
    path = f"{V}/evidence/C32.json"
    with open(path) as f:
        e = json.load(f)
    a, b = e["coverage"], rust["coverage"]
    for k in ("evaluations", "distinct_nontrivial", "values_compared", "cases_planned"):
        a[k] += b[k]
    a["groups"] = {**b["groups"], **a["groups"]}
    a["samples"] = b["samples"] + a["samples"]
    e["wall_s"] += rust["wall_s"]
    with open(path, "w") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    rust = None if len(sys.argv) > 1 else library()
    real_exit, me = os._exit, os.getpid()

    def end(code):
        if code == 0 and rust and os.getpid() == me:
            merged(rust)
        real_exit(code)

    os._exit = end
    main("C32", [("python", 28 * 8, 28 * 80, calls)])
