//! C32: heap use of streams and functions, seen by the allocator.
use crate::core::*;
use crate::ensure;
use crate::specs::*;
use komunikilo::iter::Iter;
use crate::stream::functions;
use crate::util::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts what each thread holds.
pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    LIVE.with(|l| {
        let v = l.get() + n;
        l.set(v);
        PEAK.with(|p| p.set(p.get().max(v)));
    });
    CALLS.with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}
fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
fn calls() -> u64 {
    CALLS.with(|l| l.get())
}
fn reset_peak() {
    PEAK.with(|p| p.set(live()));
}

/// A buffer may still settle by this much; a byte kept for every block may not.
const SLACK: i64 = 256;

/// An endless stream's heap must not grow while it runs.
fn endless(c: &mut Case, open: &dyn Fn() -> It<Out>, out: usize) -> R {
    let base = live();
    let mut it = open();
    let warm = (6 * out).max(2000);
    let rest = (40 * out).clamp(c.size(60, 1000, 20_000), 400_000.max(8 * out));
    reset_peak();
    for i in 0..warm {
        ensure!(it.next().is_some(), "an endless input gave {i} outputs");
    }
    let (p0, a0) = (peak() - base, calls());
    for i in 0..rest {
        ensure!(it.next().is_some(), "an endless input gave {} outputs", warm + i);
    }
    let p1 = peak() - base;
    c.ev((calls() - a0) as usize / 1000 + rest);
    if p1 > p0 + SLACK {
        // The peaks of several buffers may have come together only now; that is no growth unless it goes on.
        for i in 0..4 * rest {
            ensure!(it.next().is_some(), "an endless input gave {} outputs", warm + rest + i);
        }
        let p2 = peak() - base;
        ensure!(
            p2 <= p1 && p1 <= p0 + p0 / 4,
            "the stream holds up to {p0} bytes during its first {warm} outputs, {p1} during the next {rest} and {p2} during {} more",
            4 * rest
        );
    }
    drop(it);
    Ok(())
}

pub fn c32() -> Vec<Group> {
    let k = KINDS as u64;
    vec![
        group("endless", 6 * k, 100 * k, |c| {
            let s = spec(c.idx as usize % KINDS, &mut c.rng, c.scale == 0);
            c.desc(format!("{} {}", s.name, s.desc));
            let n = 1 + c.rng.below(3 * s.inp.min(1000)) + s.inp;
            let d = s.data(&mut c.rng, n);
            endless(c, &|| s.open_cycle(&d, &Plain), s.out.max(1))
        })
        .small(k),
        // Parameters at the ends of their ranges.
        group("edges", 12, 120, |c| {
            let k = c.idx % 6;
            let n = 1 + c.rng.below(50);
            let m = 5000 + c.rng.below(5000);
            let sig: Vec<f64> = (0..n).map(|_| c.rng.normal()).collect();
            let src = move || -> It<f64> {
                let sig = sig.clone();
                Box::new((0usize..).map(move |i| sig[i % sig.len()]))
            };
            c.desc(format!("kind={k} n={n} m={m}"));
            let out = if k == 4 { 20_000 } else { 1 };
            endless(
                c,
                &|| match k {
                    0 => Box::new(src().convolve(vec![]).map(|x| x.out())),
                    1 => Box::new(src().map(|x| [x, x]).nonvolve(vec![]).map(|x| x.out())),
                    2 => Box::new(src().chunks(m).map(|x| x.out())),
                    3 => Box::new(src().take_every(m).map(|x| x.out())),
                    4 => Box::new(src().inflate(m).map(|x| x.out())),
                    _ => Box::new(src().convolve(vec![1.0; m / 20]).map(|x| x.out())),
                },
                out,
            )
        })
        .small(0),
        group("butterpass", 2, 16, |c| {
            let sig: Vec<f64> = (0..1009).map(|_| c.rng.normal()).collect();
            c.desc("butterpass");
            endless(
                c,
                &|| {
                    let sig = sig.clone();
                    let s: It<f64> = Box::new((0usize..).map(move |i| sig[i % sig.len()]));
                    Box::new(komunikilo::bpf::butterpass(1000.0, 2000.0, s, 10_000).map(|x| x.out()))
                },
                81_920,
            )
        })
        .small(0),
        // What a stream took is given back when it goes, wherever it was left.
        group("release", 20 * k, 300 * k, |c| {
            let s = spec(c.idx as usize % KINDS, &mut c.rng, c.scale == 0);
            c.desc(format!("{} {}", s.name, s.desc));
            let mut n = c.rng.below(6 * s.inp.min(400) + 1);
            if s.name == "bandpass" {
                // It takes whole blocks only.
                n -= n % s.inp;
            }
            let d = s.data(&mut c.rng, n);
            for _ in 0..2 {
                s.run(&d);
            }
            let base = live();
            for round in 0..6 {
                let a0 = calls();
                let take = match round {
                    0 => usize::MAX,
                    1 => 0,
                    _ => c.rng.below(s.whole(n) + 2),
                };
                let got = {
                    let mut it = s.open(&d, &Plain);
                    let mut got = 0;
                    while got < take && it.next().is_some() {
                        got += 1;
                    }
                    got
                };
                let kept = live() - base;
                c.ev(got + (calls() - a0) as usize);
                ensure!(kept == 0, "{kept} bytes are still held after a stream over {n} items was dropped {got} outputs on");
            }
            Ok(())
        })
        .tiny(k)
        .small(k),
        group("functions", 400, 6000, |c| {
            let seed = c.rng.u64();
            let (desc, all) = functions(seed, c.scale);
            c.desc(desc);
            for _ in 0..2 {
                all();
            }
            let base = live();
            for _ in 0..3 {
                let n = all().len();
                c.ev(n);
                let kept = live() - base;
                ensure!(kept == 0, "{kept} bytes are still held after the functions returned {n} values");
            }
            Ok(())
        })
        .tiny(1),
    ]
}
