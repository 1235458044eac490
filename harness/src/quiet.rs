//! `kmon quiet SEED COUNT`: runs streams and functions between markers, for a
//! system-call trace of this process (C33). The markers are lookups of files that
//! are not there. Prints what ran, and any change to the process's own state.
use crate::core::*;
use crate::specs::*;
use crate::stream::functions;
use std::cell::Cell;

thread_local! {
    static HOOKED: Cell<u32> = const { Cell::new(0) };
}

#[derive(PartialEq, Debug)]
struct World {
    env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    cwd: Option<std::path::PathBuf>,
    rounding: u32,
    hook: bool,
}

/// Directed rounding, flush-to-zero and masks: everything but the sticky flags.
#[cfg(target_arch = "x86_64")]
#[allow(deprecated)]
fn rounding() -> u32 {
    (unsafe { std::arch::x86_64::_mm_getcsr() }) & !0x3f
}
#[cfg(not(target_arch = "x86_64"))]
fn rounding() -> u32 {
    0
}

fn world() -> World {
    let h = HOOKED.with(|h| h.get());
    let _ = std::panic::catch_unwind(|| panic!("probe"));
    World {
        env: std::env::vars_os().collect(),
        cwd: std::env::current_dir().ok(),
        rounding: rounding(),
        hook: HOOKED.with(|x| x.get()) == h + 1,
    }
}

pub fn main(args: &[String]) {
    std::panic::set_hook(Box::new(|_| HOOKED.with(|h| h.set(h.get() + 1))));
    let seed: u64 = args[0].parse().unwrap();
    let count: usize = args[1].parse().unwrap();
    let mut log = vec![];
    let mark = |i: usize, what: &str| {
        let _ = std::fs::metadata(format!("/kmon-marker/{i}/{what}"));
    };
    // The first lookup of all probes for the system call it needs.
    let _ = std::fs::metadata("/kmon-warm");
    let before = world();
    for i in 0..count {
        let mut rng = Rng(hash(&format!("{seed}/quiet/{i}")));
        let kind = i % (KINDS + 1);
        let (desc, n);
        if kind < KINDS {
            let s = spec(kind, &mut rng, false);
            let blocks = rng.below((4000 / (s.inp.max(s.out).max(1))).clamp(2, 200)) + 1;
            let mut len = blocks * s.inp;
            if s.name != "bandpass" {
                len -= rng.below(s.inp);
            }
            let d = s.data(&mut rng, len);
            mark(i, "begin");
            n = s.run(&d).len();
            mark(i, "end");
            desc = format!("{} {} input={len}", s.name, s.desc);
        } else {
            let (t, all) = functions(rng.u64(), 2);
            mark(i, "begin");
            n = all().len();
            mark(i, "end");
            desc = format!("functions {t}");
        }
        log.push(format!("{i}\t{n}\t{desc}"));
        let after = world();
        if after != before {
            log.push(format!("CHANGED\t{i}\tthe process's environment, folder, float mode or panic hook"));
            break;
        }
    }
    for l in log {
        println!("{l}");
    }
}
