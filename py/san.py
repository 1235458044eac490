#!/usr/bin/env python3
"""Runs the monitors' workloads under sanitizers and Miri, and judges the reports.

san.py C28            memory and arithmetic safety: ASan, MSan and Miri
san.py C27 KMON       determinism (plain build), then data races: TSan
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.environ.get("KMON_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = os.environ.get("VERIF_SEED", "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
T = "x86_64-unknown-linux-gnu"
PROP = sys.argv[1]

OVERFLOW = re.compile(r"attempt to (add|subtract|multiply|negate|shift|divide|calculate)[^\n]*(overflow|zero)"
                      r"|index out of bounds|out of range for slice|range (end|start) index|capacity overflow"
                      r"|unsafe precondition")
REPORT = re.compile(r"ERROR: (Address|Memory|Thread|Leak)Sanitizer|WARNING: (Memory|Thread)Sanitizer|"
                    r"error: Undefined Behavior|Undefined Behavior:|AddressSanitizer:DEADLYSIGNAL|"
                    r"unsafe precondition\(s\) violated|error: unsupported operation|Data race detected|"
                    r"memory allocation of \d+ bytes failed|stack overflow")
NOT_OURS = re.compile(r"error: unsupported operation")


def groups():
    """Properties the harness drives, with their number of Miri cases."""
    kmon = f"{V}/target/{'tsan' if PROP == 'C27' else 'asan'}/{T}/release/kmon"
    out = subprocess.run([kmon, "--list"], capture_output=True, text=True, check=True).stdout
    return {l.split()[0]: int(l.split()[1]) for l in out.splitlines()}


def run(variant, prop, scale, budget, threads, seed, tmp, mult=False, extra=None):
    out = f"{tmp}/{variant}-{prop}-{seed}"
    env = dict(os.environ, KMON_VERIF=V, KMON_OUT=out, KMON_SCALE=str(scale), KMON_ALL="1",
               KMON_BUDGET=str(budget), KMON_THREADS=str(threads), VERIF_SEED=str(seed),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
               MSAN_OPTIONS="exitcode=77", TSAN_OPTIONS="exitcode=77:halt_on_error=0",
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks " + (extra or ""))
    if not mult:
        env["KMON_NOMULT"] = "1"
    if variant == "miri":
        env.pop("RUSTUP_TOOLCHAIN", None)
        env["CARGO_INCREMENTAL"] = "0"
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", f"{V}/harness/Cargo.toml",
               "--target-dir", f"{V}/target/miri", "--", prop]
    else:
        cmd = [f"{V}/target/{variant}/{T}/release/kmon", prop]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=env, cwd=V, timeout=budget + 400)
        rc, text = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        rc, text = 124, f"timed out\n{e.stdout or ''}"
    ev = {}
    try:
        ev = json.load(open(f"{out}/evidence/{prop}.json"))
    except OSError:
        pass
    return dict(variant=variant, prop=prop, rc=rc, text=text, ev=ev, seconds=round(time.time() - t0, 1),
                cmd=" ".join(cmd), seed=seed, scale=scale)


def judge(r):
    """None, or what went wrong."""
    m = REPORT.search(r["text"])
    if m and not NOT_OURS.search(m.group(0)):
        i = max(0, m.start() - 200)
        return "report", r["text"][i:i + 6000]
    if PROP == "C28" and r["rc"] == 1:
        for line in r["text"].splitlines():
            if line.strip().startswith("=> ") and OVERFLOW.search(line):
                i = r["text"].index(line)
                return "overflow", r["text"][max(0, i - 800):i + 800]
    if r["rc"] < 0 or r["rc"] in (77, 134, 139):
        return "died", r["text"][-4000:]
    if r["rc"] not in (0, 1) and not r["ev"]:
        return "noanswer", r["text"][-3000:]
    return None


def main():
    tmp = tempfile.mkdtemp(prefix="kmon-san-")
    try:
        code = body(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def body(tmp):
    t0 = time.time()
    g = groups()
    jobs = []
    plain = None
    if PROP == "C27":
        p = subprocess.run([sys.argv[2], "C27"], capture_output=True, text=True)
        print(p.stdout, end="")
        sys.stderr.write(p.stderr)
        if p.returncode not in (0, 1):
            return 2
        plain = p.returncode
        if plain == 1:
            # The evidence and the replay are written already.
            return 1
        for q in g:
            # Eight workers share the process: any state shared between two
            # streams is touched from two threads.
            if TIER == "thorough":
                jobs.append(("tsan", q, 2, 60, 8, SEED))
            else:
                jobs.append(("tsan", q, 2 if q == "C27" else 1, 20, 8, SEED))
        workers = 2
    else:
        seeds = [SEED] if TIER == "quick" else [SEED, f"{SEED}1", f"{SEED}2", f"{SEED}3"]
        for q, tiny in g.items():
            if tiny:
                for i, s in enumerate(seeds):
                    # Miri explores another borrow model on the later seeds.
                    jobs.append(("miri", q, 0, 120, 1, s, "-Zmiri-tree-borrows" if i % 2 else "-Zmiri-symbolic-alignment-check"))
        for v in ("asan", "msan"):
            for q in g:
                if TIER == "thorough":
                    jobs.append((v, q, 3, 25, 4, SEED))
                else:
                    jobs.append((v, q, 2, 5, 3, SEED))
        workers = 8 if TIER == "quick" else 6
    results = []
    # The first Miri run of a cold cache builds; the rest then find it built.
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(run, j[0], j[1], j[2], j[3], j[4], j[5], tmp, False, j[6] if len(j) > 6 else None) for j in jobs]
        for f in cf.as_completed(fs):
            results.append(f.result())
    bad, noanswer = [], []
    tot = {}
    for r in sorted(results, key=lambda r: (r["variant"], r["prop"], r["seed"])):
        j = judge(r)
        if j and j[0] == "noanswer":
            noanswer.append((r, j[1]))
        elif j:
            bad.append((r, j))
        c = r["ev"].get("coverage", {})
        t = tot.setdefault(r["variant"], dict(processes=0, evaluations=0, distinct_nontrivial=0, values_compared=0, cpu_groups=0, seconds=0.0))
        t["processes"] += 1
        for k in ("evaluations", "distinct_nontrivial", "values_compared"):
            t[k] += c.get(k, 0)
        t["cpu_groups"] += len([x for x in c.get("groups", {}).values() if x["cases"]])
        t["seconds"] = round(t["seconds"] + r["seconds"], 1)
    path = f"{V}/evidence/{PROP}.json"
    rule = ("a case is one generated workload of one monitor group run under the named instrument; it is non-trivial "
            "when a monitor compared at least one observed value, and distinct by its written-out parameters (per "
            "instrument: the same workload under another instrument is counted again)")
    os.makedirs(f"{V}/evidence", exist_ok=True)
    if PROP == "C27":
        ev = json.load(open(path))
        t = tot["tsan"]
        ev["coverage"]["thread_sanitizer"] = t
        ev["coverage"]["evaluations"] += t["evaluations"]
        ev["coverage"]["distinct_nontrivial"] += t["distinct_nontrivial"]
        ev["coverage"]["rule"] += "; cases run under ThreadSanitizer (thread_sanitizer) are counted in the totals"
        ev["wall_s"] = round(ev["wall_s"] + time.time() - t0, 1)
        ev["violations"] += len(bad)
    else:
        ev = dict(property=PROP, tier=TIER, seed=int(SEED), level="exploration",
                  coverage=dict(evaluations=sum(t["evaluations"] for t in tot.values()),
                                distinct_nontrivial=sum(t["distinct_nontrivial"] for t in tot.values()),
                                rule=rule, instruments=tot,
                                reports_judged=len(results),
                                samples=[f"{r['variant']} {r['prop']}: {s}" for r in results[:40:5]
                                         for s in r["ev"].get("coverage", {}).get("samples", [])[:1]]),
                  wall_s=round(time.time() - t0, 1), violations=len(bad))
    json.dump(ev, open(path, "w"), indent=1)
    for v, t in tot.items():
        print(f"{PROP} {v}: {t}")
    if bad:
        os.makedirs(f"{V}/replays", exist_ok=True)
        for i, (r, (kind, text)) in enumerate(bad[:5]):
            p = f"{V}/replays/{PROP}-{SEED}-{r['variant']}-{r['prop']}.txt"
            with open(p, "w") as f:
                f.write(f"{kind} under {r['variant']}, workload of {r['prop']}, exit {r['rc']}\n"
                        f"KMON_SCALE={r['scale']} KMON_NOMULT=1 VERIF_SEED={r['seed']} {r['cmd']}\n\n{text}\n")
            print(f"  {kind} under {r['variant']} in the workload of {r['prop']}: {text[:700]}")
            if i == 0:
                first = p
        print(f"VIOLATION property={PROP} replay={first}")
        return 1
    if noanswer:
        for r, text in noanswer[:3]:
            print(f"no answer from {r['variant']} {r['prop']}, exit {r['rc']}: {text[-800:]}")
        return 2
    return 0


main()
