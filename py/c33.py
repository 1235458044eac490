#!/usr/bin/env python3
"""C33: system-call traces of library calls: nothing written, opened, slept on or changed."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

from common import V, Wrong, main

# Memory, locks, randomness, the clock, scheduling, and what a helper thread would need.
ALLOWED = set("""mmap munmap mremap madvise brk mprotect futex getrandom clock_gettime gettimeofday time sched_yield
getpid gettid sched_getaffinity sigaltstack rt_sigprocmask clone clone3 set_robust_list rseq exit prctl getcpu
membarrier sysinfo""".split())
# Reading what the machine is like is no business of the user's files.
MACHINE = re.compile(r'^openat\([^"]*"(/proc/|/sys/|/dev/u?random)[^"]*", O_RDONLY')
ON_MACHINE = {"read", "close", "fstat", "newfstatat", "statx", "lseek", "pread64"}
LINE = re.compile(r"^(\d+)\s+(?:\d+\.\d+\s+)?(.*)$")
CALL = re.compile(r"^(\w+)\(")
MARK = re.compile(r'"/kmon-marker/(\d+)/(begin|end)"')


def trace(c, cmd):
    strace = shutil.which("strace")
    if not strace:
        raise RuntimeError("there is no strace")
    tmp = tempfile.mkdtemp(prefix="kmon-quiet-")
    try:
        out = f"{tmp}/trace"
        p = subprocess.run([strace, "-f", "-qq", "-s", "120", "-o", out] + cmd, capture_output=True, text=True, timeout=140)
        with open(out, encoding="utf-8", errors="replace") as f:
            return p, f.read().splitlines()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(c, p, lines):
    """Every system call between a case's markers is one the library may make."""
    inside, ended, seen, bad = None, 0, 0, None
    machine, ours = False, set()
    for line in lines:
        m = LINE.match(line)
        if not m:
            continue
        pid, text = m.groups()
        k = MARK.search(text)
        if k:
            if k.group(2) == "begin":
                inside, machine, ours = int(k.group(1)), False, {pid}
            else:
                inside, ended = None, ended + 1
            continue
        if inside is None or pid not in ours:
            # Between the cases, or another process (the driver's `kmon eval`).
            continue
        if "clone" in text and (r := re.search(r"= (\d+)$", text)):
            ours.add(r.group(1))
        if text.startswith(("<...", "---", "+++")):
            if text.startswith("--- SIG") and bad is None and "SIGCHLD" not in text:
                bad = (inside, text)
            continue
        m = CALL.match(text)
        if not m:
            continue
        seen += 1
        name = m.group(1)
        if name in ALLOWED:
            continue
        if MACHINE.match(text):
            machine = True
            continue
        if machine and name in ON_MACHINE:
            continue
        if bad is None:
            bad = (inside, text)
    ran = {}
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if len(f) == 3 and f[0].isdigit():
            ran[int(f[0])] = (int(f[1]), f[2])
    if bad:
        raise Wrong(f"during {ran.get(bad[0], (0, '?'))[1][:200]} (number {bad[0]}) the library made the system call {bad[1][:300]}")
    for l in p.stdout.splitlines():
        if l.startswith("CHANGED\t"):
            _, i, what = l.split("\t")
            raise Wrong(f"{ran.get(int(i), (0, '?'))[1][:200]} (number {i}) changed {what}")
    if p.returncode or ended == 0 or ended != len(ran):
        raise RuntimeError(f"the traced process gave no answer: {p.returncode}, {ended} ends, {len(ran)} reports; {p.stderr[-800:]}")
    c.ev(sum(n for n, _ in ran.values()) + seen + 2 * ended)
    return ended


def attempt(c, cmd):
    """Trouble with the tracing itself is no verdict: the case then counts nothing."""
    try:
        judge(c, *trace(c, cmd))
    except (RuntimeError, OSError, subprocess.SubprocessError) as e:
        c.desc(f"no answer: {e}")
        print(f"no answer: {e}", file=sys.stderr, flush=True)


def rust(c):
    seed = c.rng.randrange(1 << 31)
    c.desc(f"kmon quiet {seed}")
    attempt(c, [os.environ["KMON"], "quiet", str(seed), "480"])


def python(c):
    seed = c.rng.randrange(1 << 31)
    c.desc(f"extension {seed}")
    attempt(c, [sys.executable, f"{V}/py/quiet_child.py", str(seed), "160"])


if __name__ == "__main__":
    main("C33", [("rust", 240, 3000, rust), ("python", 72, 600, python)])
