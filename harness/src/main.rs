mod adapters;
mod core;
mod evalcmd;
mod far;
mod fskfm;
mod hop;
mod limits;
mod memory;
mod ofdm;
mod psk;
mod quiet;
mod specs;
mod spectral;
mod spread;
mod stats;
mod stream;
mod util;

use crate::core::*;
use std::time::Duration;

#[global_allocator]
static ALLOC: memory::Counting = memory::Counting;

const RULE: &str = "each case draws its own configuration and message from a generator seeded by VERIF_SEED, the property, the group and the case number; a case is non-trivial when a monitor compared at least one observed value with its oracle, and distinct by its written-out parameters";

/// How many times over the groups' case counts run (quick, thorough).
const MULT: &[(&str, u64, u64)] = &[
    ("C01", 8, 33),
    ("C02", 11, 45),
    ("C03", 8, 35),
    ("C04", 4, 19),
    ("C05", 8, 32),
    ("C06", 30, 100),
    ("C07", 10, 41),
    ("C08", 12, 52),
    ("C09", 22, 91),
    ("C10", 3, 10),
    ("C11", 16, 68),
    ("C12", 30, 100),
    ("C13", 28, 100),
    ("C14", 11, 48),
    ("C15", 5, 21),
    ("C16", 30, 100),
    ("C17", 27, 100),
    ("C18", 2, 2),
    ("C19", 1, 1),
    ("C20", 30, 100),
    ("C21", 25, 100),
    ("C24", 30, 100),
    ("C25", 30, 100),
    ("C26", 30, 100),
    ("C27", 22, 94),
    ("C29", 26, 100),
    ("C32", 40, 150),
];

pub fn groups(prop: &str) -> Option<Vec<Group>> {
    let mut g = match prop {
        "C01" => psk::c01(),
        "C02" => psk::c02(),
        "C03" => psk::c03(),
        "C04" => spread::c04(),
        "C05" => spread::c05(),
        "C06" => spread::c06(),
        "C07" => spread::c07(),
        "C08" => hop::c08(),
        "C09" => hop::c09(),
        "C10" => fskfm::c10(),
        "C11" => fskfm::c11(),
        "C12" => fskfm::c12(),
        "C13" => fskfm::c13(),
        "C14" => ofdm::c14(),
        "C15" => ofdm::c15(),
        "C16" => adapters::c16(),
        "C17" => stream::c17(),
        "C18" => stats::c18(),
        "C19" => stats::c19(),
        "C20" => stats::c20(),
        "C21" => spectral::c21(),
        "C24" => spectral::c24(),
        "C25" => spectral::c25(),
        "C26" => limits::c26(),
        "C27" => stream::c27(),
        "C29" => stream::c29(),
        "C32" => memory::c32(),
        _ => return None,
    };
    far::add(prop, &mut g);
    Some(g)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    if prop == "eval" {
        install_panic_hook();
        return evalcmd::main();
    }
    if prop == "fresh" {
        return stream::fresh(&args[2..]);
    }
    if prop == "quiet" {
        return quiet::main(&args[2..]);
    }
    if prop == "--list" {
        for i in 1..=39 {
            let p = format!("C{i:02}");
            if let Some(g) = groups(&p) {
                println!("{p} {} {}", g.iter().map(|g| g.tiny).sum::<u64>(), g.iter().map(|g| g.name).collect::<Vec<_>>().join(","));
            }
        }
        return;
    }
    let verif = std::env::var("KMON_VERIF").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: u8 = std::env::var("KMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 } else { 2 });
    let out = std::env::var("KMON_OUT").unwrap_or_else(|_| verif.clone());
    install_panic_hook();
    let only = args.get(2).and_then(|a| a.split_once(':')).map(|(g, i)| (g.to_string(), i.parse().unwrap_or(0)));
    let budget = std::env::var("KMON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if scale >= 3 { 600 } else { 60 });
    let threads = std::env::var("KMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let o = Opts { prop: prop.clone(), seed, scale, budget: Duration::from_secs(budget), threads, only, verif, out, all: std::env::var("KMON_ALL").is_ok(), files: std::env::var("KMON_NOFILES").is_err() };
    let limit = (budget + 780).min(1100);
    if !cfg!(miri) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("inconclusive: a case did not finish within {limit} s");
        std::process::exit(2);
    });
    }
    let Some(mut groups) = groups(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let mult = std::env::var("KMON_NOMULT").is_err();
    if let Some((_, q, t)) = MULT.iter().find(|m| mult && m.0 == prop) {
        for g in &mut groups {
            // Small groups go through fixed tables.
            if g.quick > 16 {
                g.quick *= q;
                g.thorough *= t;
            }
        }
    }
    let s = run(&groups, RULE, &o);
    if s.violations > 0 {
        std::process::exit(1);
    }
    if s.evaluations == 0 || s.events == 0 {
        eprintln!("inconclusive: nothing was observed");
        std::process::exit(2);
    }
}
