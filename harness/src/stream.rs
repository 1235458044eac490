//! C17 (streaming), C27 (determinism and independence), C29 (hostile signals).
use crate::core::*;
use crate::ensure;
use crate::specs::*;
use crate::util::*;
use std::cell::Cell;
use std::rc::Rc;

/// Counts what is taken from the source, and refuses a runaway.
#[derive(Clone)]
struct Probe {
    taken: Rc<Cell<usize>>,
    polls: Rc<Cell<usize>>,
    limit: usize,
}

impl Probe {
    fn new(limit: usize) -> Probe {
        Probe { taken: Rc::new(Cell::new(0)), polls: Rc::new(Cell::new(0)), limit }
    }
    fn wrap<T: 'static>(&self, i: It<T>) -> It<T> {
        Box::new(Probed(i, self.clone()))
    }
}

struct Probed<T>(It<T>, Probe);
impl<T> Iterator for Probed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let p = &self.1;
        p.polls.set(p.polls.get() + 1);
        if p.polls.get() > p.limit {
            panic!("PROBE: the source was polled {} times", p.polls.get());
        }
        let x = self.0.next();
        if x.is_some() {
            p.taken.set(p.taken.get() + 1);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

impl Wrap for Probe {
    fn bits(&self, i: It<bool>) -> It<bool> {
        self.wrap(i)
    }
    fn real(&self, i: It<f64>) -> It<f64> {
        self.wrap(i)
    }
    fn cplx(&self, i: It<C64>) -> It<C64> {
        self.wrap(i)
    }
}

fn make(c: &mut Case) -> Spec {
    let kind = c.idx as usize % KINDS;
    let s = spec(kind, &mut c.rng, c.scale == 0);
    c.desc(format!("{} {}", s.name, s.desc));
    s
}

/// How many blocks to feed.
fn blocks(c: &mut Case, s: &Spec) -> usize {
    let unit = s.inp.max(s.out).max(1);
    let max = c.size(3, 6, (6000 / unit).clamp(3, 400));
    1 + c.rng.below(max)
}

fn first_diff(a: &[Out], b: &[Out]) -> Option<usize> {
    a.iter().zip(b).position(|(x, y)| x != y)
}

/// Data that shares its first `cut` items with `d`.
fn fork(s: &Spec, rng: &mut Rng, d: &Data, cut: usize) -> Data {
    let mut e = s.data(rng, d.len());
    match (&mut e, d) {
        (Data::Bits(x), Data::Bits(y)) => x[..cut].copy_from_slice(&y[..cut]),
        (Data::Real(x), Data::Real(y)) => x[..cut].copy_from_slice(&y[..cut]),
        (Data::Cplx(x), Data::Cplx(y)) => x[..cut].copy_from_slice(&y[..cut]),
        _ => unreachable!(),
    }
    e
}

pub fn c17() -> Vec<Group> {
    let k = KINDS as u64;
    vec![
        group("look-ahead", 60 * k, 900 * k, |c| {
            let s = make(c);
            let nb = blocks(c, &s);
            let n = nb * s.inp + if s.name == "bandpass" { 0 } else { c.rng.below(s.inp) };
            let d = s.data(&mut c.rng, n);
            c.desc(format!("items={n}"));
            let p = Probe::new(1_000_000 + 4 * n);
            let mut it = s.open(&d, &p);
            ensure!(p.polls.get() == 0, "creating the stream polled its source {} times", p.polls.get());
            let mut got = 0usize;
            let cap = s.whole(n) + s.extra + 2 * s.out + 64;
            while it.next().is_some() {
                let block = got / s.out;
                let allowed = ((block + 1) * s.inp).min(n);
                // The items after the whole blocks flush or pad what is left.
                ensure!(
                    p.taken.get() <= allowed,
                    "output {got} took {} items, its block ends at {allowed}",
                    p.taken.get()
                );
                got += 1;
                ensure!(got <= cap, "{got} outputs from {n} items");
            }
            c.ev(got + 1);
            ensure!(got >= s.whole(n), "only {got} outputs, the whole blocks hold {}", s.whole(n));
            ensure!(got <= s.whole(n) + s.extra, "{got} outputs, the whole blocks hold {}", s.whole(n));
            Ok(())
        })
        .small(2 * k)
        .tiny(k),
        group("causality", 60 * k, 900 * k, |c| {
            let s = make(c);
            if s.noisy {
                return Ok(());
            }
            let nb = 1 + blocks(c, &s);
            let n = nb * s.inp;
            let d = s.data(&mut c.rng, n);
            let cut = if s.name == "bandpass" { s.inp * c.rng.below(nb + 1) } else { c.rng.below(n + 1) };
            c.desc(format!("items={n} cut={cut}"));
            let full = s.run(&d);
            let w = s.whole(cut);
            ensure!(full.len() >= s.whole(n), "{} outputs, the whole blocks hold {}", full.len(), s.whole(n));
            // A prefix of the input...
            let mut p = d.clone();
            p.truncate(cut);
            let short = s.run(&p);
            ensure!(short.len() >= w, "a prefix of {cut} items gives {} outputs, its whole blocks hold {w}", short.len());
            if let Some(i) = first_diff(&short[..w], &full[..w]) {
                return Err(format!("output {i} differs between a prefix of {cut} items and all {n}"));
            }
            // ... and another future of the same past.
            let e = fork(&s, &mut c.rng, &d, cut);
            let other = s.run(&e);
            ensure!(other.len() == full.len(), "{} outputs against {} for as many items", other.len(), full.len());
            if let Some(i) = first_diff(&other[..w], &full[..w]) {
                return Err(format!("output {i} depends on input after item {cut}"));
            }
            c.ev(2 * w + 1);
            Ok(())
        })
        .small(k),
        group("endless", 20 * k, 300 * k, |c| {
            let s = make(c);
            let nb = blocks(c, &s) + 3;
            let want = nb * s.out;
            let unit = 1 + c.rng.below(40);
            let d = s.data(&mut c.rng, unit);
            c.desc(format!("period={unit} outputs={want}"));
            let p = Probe::new(nb * s.inp + s.inp);
            let mut it = s.open_cycle(&d, &p);
            let mut got = vec![];
            for i in 0..want {
                if i % (want / 7 + 1) == 0 {
                    let (_, hi) = it.size_hint();
                    ensure!(hi.is_none(), "after {i} outputs of an endless input at most {hi:?} more are announced");
                }
                match it.next() {
                    Some(x) => got.push(x),
                    None => return Err(format!("the stream ended after {i} outputs of an endless input")),
                }
            }
            c.ev(want);
            ensure!(p.taken.get() <= nb * s.inp, "{} items taken for {nb} blocks of {}", p.taken.get(), s.inp);
            if !s.noisy {
                let n = nb * s.inp;
                let fin = match &d {
                    Data::Bits(v) => Data::Bits(v.iter().cloned().cycle().take(n).collect()),
                    Data::Real(v) => Data::Real(v.iter().cloned().cycle().take(n).collect()),
                    Data::Cplx(v) => Data::Cplx(v.iter().cloned().cycle().take(n).collect()),
                };
                let f = s.run(&fin);
                ensure!(f.len() >= want, "{} outputs of a finite input, {want} of the endless one", f.len());
                if let Some(i) = first_diff(&f[..want], &got) {
                    return Err(format!("output {i} of the endless stream differs from the finite one's"));
                }
                c.ev(want);
            }
            Ok(())
        })
        .small(k / 2),
        // However the output is taken, it is the same; and what a stream says
        // about its length beforehand is never contradicted.
        group("consumption", 30 * k, 400 * k, |c| {
            let s = make(c);
            let nb = blocks(c, &s).min(60);
            let n = nb * s.inp + if s.name == "bandpass" { 0 } else { c.rng.below(s.inp) };
            let d = s.data(&mut c.rng, n);
            c.desc(format!("items={n}"));
            let all = s.run(&d);
            let total = all.len();
            let mut it = s.open(&d, &Plain);
            for i in 0..=total {
                let (lo, hi) = it.size_hint();
                ensure!(
                    lo <= total - i && hi.map_or(true, |h| h >= total - i),
                    "after {i} of {total} outputs the stream announces {lo} to {hi:?} more"
                );
                if it.next().is_none() {
                    break;
                }
            }
            c.ev(total + 1);
            let count = s.open(&d, &Plain).count();
            ensure!(count == total, "count() says {count}, {total} outputs were collected");
            if s.noisy || total == 0 {
                return Ok(());
            }
            ensure!(s.open(&d, &Plain).last().as_ref() == all.last(), "last() is not the last of {total} outputs");
            let at = c.rng.below(total);
            let mut it = s.open(&d, &Plain);
            ensure!(it.nth(at).as_ref() == Some(&all[at]), "nth({at}) is not output {at} of {total}");
            let k = 1 + c.rng.below(9);
            let rest: Vec<Out> = it.step_by(k).collect();
            let want: Vec<Out> = all[at + 1..].iter().step_by(k).cloned().collect();
            ensure!(rest == want, "every {k}th output after number {at} is another one");
            let mut i = 0;
            let mut bad = None;
            s.open(&d, &Plain).for_each(|x| {
                if all.get(i) != Some(&x) {
                    bad.get_or_insert(i);
                }
                i += 1;
            });
            ensure!(bad.is_none() && i == total, "for_each gives {i} outputs, the first different one is {bad:?}");
            c.ev(3 * total);
            Ok(())
        })
        .small(k)
        .tiny(k / 2),
        // The Butterworth filter works on blocks of 81 920 samples.
        group("butterpass", 2, 12, |c| {
            let extra = 1000 + c.rng.below(3000);
            let n = 81_920 + extra;
            let fs = 10_000;
            let d: Vec<f64> = (0..n).map(|_| c.rng.normal()).collect();
            c.desc(format!("n={n}"));
            let p = Probe::new(200_000);
            let mut it = komunikilo::bpf::butterpass(1000.0, 3000.0, p.wrap(Box::new(d.clone().into_iter())), fs);
            ensure!(p.polls.get() == 0, "creating the stream polled its source");
            let mut out = vec![];
            while let Some(x) = it.next() {
                let lim = if out.len() < 81_920 { 81_920 } else { n };
                ensure!(p.taken.get() <= lim, "output {} took {} items", out.len(), p.taken.get());
                out.push(x);
                ensure!(out.len() <= n, "more outputs than items");
            }
            ensure!(out.len() == n, "{} outputs for {n} items", out.len());
            let head: Vec<f64> = komunikilo::bpf::butterpass(1000.0, 3000.0, d[..81_920].iter().cloned(), fs).collect();
            ensure!(head.len() == 81_920 && head.iter().zip(&out).all(|(a, b)| a.to_bits() == b.to_bits()), "the first block depends on what follows it");
            c.ev(2 * n);
            Ok(())
        })
        .small(0),
    ]
}

pub fn c27() -> Vec<Group> {
    let k = KINDS as u64;
    vec![
        group("repeat", 30 * k, 500 * k, |c| {
            let s = make(c);
            if s.noisy {
                return Ok(());
            }
            let nb = blocks(c, &s);
            let n = nb * s.inp;
            let d = s.data(&mut c.rng, n);
            c.desc(format!("items={n}"));
            let a = s.run(&d);
            // Other streams, abandoned half way.
            for _ in 0..c.size(1, 2, 6) {
                let kind = c.rng.below(KINDS);
                let o = if c.rng.bool() { spec(kind, &mut c.rng, c.scale == 0) } else { spec(c.idx as usize % KINDS, &mut c.rng, c.scale == 0) };
                let e = o.data(&mut c.rng, 4 * o.inp);
                let stop = c.rng.below(4 * o.out);
                let mut it = o.open(&e, &Plain);
                for _ in 0..stop {
                    if it.next().is_none() {
                        break;
                    }
                }
            }
            let b = s.run(&d);
            ensure!(a.len() == b.len(), "{} outputs, then {}", a.len(), b.len());
            if let Some(i) = first_diff(&a, &b) {
                return Err(format!("output {i} differs when the call is repeated"));
            }
            c.ev(a.len());
            Ok(())
        })
        .small(k),
        group("interleaved", 12 * k, 200 * k, |c| {
            // Several streams, many of them of one kind, advanced in a random order.
            let m = 2 + c.rng.below(5);
            let kind = c.idx as usize % KINDS;
            let mut specs = vec![];
            let twin = c.rng.bool();
            let seed = c.rng.u64();
            for i in 0..m {
                let s = if twin {
                    let p = Params::new(&mut Rng(seed), c.scale == 0);
                    let w = c.rng.below(VARIED);
                    spec_of(kind, &if i > 0 && c.rng.bool() { p.vary(w, &mut c.rng) } else { p })
                } else {
                    let kk = if i % 2 == 0 { kind } else { c.rng.below(KINDS) };
                    spec(kk, &mut c.rng, c.scale == 0)
                };
                if !s.noisy {
                    let nb = blocks(c, &s).min(40);
                    let d = s.data(&mut c.rng, nb * s.inp);
                    specs.push((s, d));
                }
            }
            c.desc(format!("twin={twin} {}", specs.iter().map(|(s, d)| format!("{} {} x{}", s.name, s.desc, d.len())).collect::<Vec<_>>().join(" | ")));
            let alone: Vec<Vec<Out>> = specs.iter().map(|(s, d)| s.run(d)).collect();
            let mut its: Vec<It<Out>> = specs.iter().map(|(s, d)| s.open(d, &Plain)).collect();
            let mut got: Vec<Vec<Out>> = vec![vec![]; its.len()];
            let mut live: Vec<usize> = (0..its.len()).collect();
            let mut order = 0u64;
            while !live.is_empty() {
                let j = c.rng.below(live.len());
                let i = live[j];
                order = order.wrapping_mul(31).wrapping_add(i as u64);
                for _ in 0..1 + c.rng.below(8) {
                    match its[i].next() {
                        Some(x) => got[i].push(x),
                        None => {
                            live.swap_remove(j);
                            break;
                        }
                    }
                    ensure!(got[i].len() <= alone[i].len(), "{} interleaved with others yields more than {} outputs", specs[i].0.name, alone[i].len());
                }
            }
            c.desc(format!("order={order:x}"));
            for i in 0..got.len() {
                ensure!(got[i].len() == alone[i].len(), "{} yields {} outputs interleaved, {} alone", specs[i].0.name, got[i].len(), alone[i].len());
                if let Some(p) = first_diff(&got[i], &alone[i]) {
                    return Err(format!("output {p} of {} differs when interleaved with other streams", specs[i].0.name));
                }
                c.ev(got[i].len());
            }
            Ok(())
        })
        .small(k / 2),
        group("threads", 4 * k, 60 * k, |c| {
            let s = make(c);
            if s.noisy {
                return Ok(());
            }
            let nb = blocks(c, &s).min(60);
            let d = s.data(&mut c.rng, nb * s.inp);
            let want = s.run(&d);
            let t = c.size(2, 3, 4);
            let other_seed = c.rng.u64();
            let (sr, dr, wr) = (&s, &d, &want);
            let bar = std::sync::Barrier::new(t);
            let br = &bar;
            let tiny = c.scale == 0;
            let res: Vec<R> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..t)
                    .map(|i| {
                        sc.spawn(move || {
                            br.wait();
                            let mut rng = Rng(other_seed.wrapping_add(i as u64));
                            for round in 0..2 {
                                let got = catch(|| sr.run(dr)).map_err(|e| format!("thread {i}: panic: {e}"))?;
                                if got != *wr {
                                    return Err(format!("thread {i} round {round}: the outputs differ from a single-threaded run"));
                                }
                                // Something else in between.
                                let kk = rng.below(KINDS);
                                let o = spec(kk, &mut rng, tiny);
                                let e = o.data(&mut rng, 2 * o.inp);
                                let _ = catch(|| o.run(&e));
                            }
                            Ok(())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for r in res {
                r?;
            }
            c.ev(t * 2 * want.len());
            Ok(())
        })
        .small(2 * k)
        .tiny(6),
        // The parent process has run thousands of other streams by now, among them
        // ones that share all arguments but one with this; the child runs nothing else.
        group("fresh-process", 8 * k, 60 * k, |c| {
            let kind = c.idx as usize % KINDS;
            let seed = c.rng.u64();
            let tiny = c.scale == 0;
            let m = c.size(1, 2, 3);
            // The base, variations of one argument each, and the base again.
            let mut which: Vec<usize> = (0..m).map(|_| c.rng.below(VARIED)).collect();
            which.insert(0, VARIED);
            which.push(VARIED);
            c.desc(format!("{} seed={seed:x} variations {which:?}", sibling(kind, seed, VARIED, tiny).0.name));
            let mine: Vec<u64> = which.iter().map(|&w| sibling_hash(kind, seed, w, tiny)).collect();
            for (i, &w) in which.iter().enumerate().skip(1) {
                let got = child(&["fresh", &kind.to_string(), &seed.to_string(), &w.to_string(), &(tiny as u8).to_string()])?;
                let (s, d) = sibling(kind, seed, w, tiny);
                ensure!(got == format!("{:016x}", mine[i]), "{} {} over {} items differs from the same call in a fresh process", s.name, s.desc, d.len());
                c.ev(1);
            }
            Ok(())
        })
        .small(k / 4),
        group("functions", 400, 6000, |c| {
            let seed = c.rng.u64();
            let (d, all) = functions(seed, c.scale);
            c.desc(d);
            let a = all();
            let b = all();
            ensure!(a == b, "a repeated call returned something else");
            let t = std::thread::scope(|sc| sc.spawn(&all).join().unwrap());
            ensure!(a == t, "a call on another thread returned something else");
            c.ev(2 * a.len());
            if c.idx % 8 == 0 && c.scale > 0 {
                let want = format!("{:016x}", folded(&a));
                let got = child(&["fresh", "functions", &seed.to_string(), &c.scale.to_string()])?;
                ensure!(got == want, "the same calls in a fresh process return something else");
                c.ev(1);
            }
            Ok(())
        })
        .small(4)
        .tiny(1),
    ]
}

/// One call of every plain function, and what they returned, bit for bit.
pub fn functions(seed: u64, scale: u8) -> (String, impl Fn() -> Vec<u64> + Sync) {
    use komunikilo::*;
    let mut rng = Rng(seed);
    let size = |a, b, c| [a, b, c][scale.min(2) as usize];
    // Now and then the sizes are beyond the usual.
    let big = scale > 1 && rng.below(60) == 0;
    let n = 1 + rng.below(if big { 40_000 } else { size(8, 30, 200) });
    let sig: Vec<f64> = signal(&mut rng, n);
    let x = rng.normal();
    let (np, nn) = match rng.below(if big { 1 } else { 3 }) {
        0 if big => (128, 8192),
        0 => {
            let np = 2usize << rng.below(3);
            (np, np << (1 + rng.below(size(1, 2, 3))))
        }
        _ => {
            let np = 2 * (1 + rng.below(8));
            (np, np + 1 + rng.below(size(4, 20, 60)))
        }
    };
    let s2: Vec<f64> = signal(&mut rng, nn + np);
    let mu = rng.uniform(0.0, 4.0);
    let size = 2usize << rng.below(if big { 10 } else { 6 });
    let ki = rng.below(100);
    let b1 = rand_bits(&mut rng, n);
    let b2 = rand_bits(&mut rng, n);
    let desc = format!("n={n} np={np} nn={nn} size={size} key={ki}");
    let all = move || -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        let mut p = |y: f64| v.push(if y.is_nan() { f64::NAN.to_bits() } else { y.to_bits() });
        p(erf(x));
        p(erfc(x));
        p(db(x.abs()));
        p(undb(x));
        p(avg_energy(&sig));
        p(energy(sig.iter().cloned(), 100.0));
        p(power(sig.iter().cloned(), 100.0));
        p(ber(&b1, &b2));
        hamming_window(n).into_iter().for_each(&mut p);
        linspace(x, mu, n).for_each(&mut p);
        komunikilo::fh_css::linear_chirp(10.0, 1000, x.abs(), mu).for_each(&mut p);
        komunikilo::ssca::ssca_base(s2.clone(), nn, np).iter().for_each(|z| {
            p(z.re);
            p(z.im)
        });
        if nn.is_power_of_two() && np.is_power_of_two() {
            komunikilo::ssca::ssca_mapped(s2.clone(), nn, np).iter().for_each(|z| p(z.norm()));
        }
        hamming_window_complex(n).into_iter().for_each(|z| p(z.re + z.im));
        komunikilo::fh_css::linear_upchirp_centered(10.0, 100.0, mu, 1000).for_each(&mut p);
        komunikilo::fh_css::linear_downchirp_centered(10.0, 100.0, mu, 1000).for_each(&mut p);
        let h = komunikilo::hadamard::HadamardMatrix::new(size);
        h.key(ki).iter().for_each(|&b| p(b as u8 as f64));
        if size < 100 {
            p(h.to_string().len() as f64);
        }
        p(komunikilo::chaos::logistic_map(mu, 0.3));
        p(komunikilo::chaos::tent_map(0.5, 0.3));
        p(komunikilo::chaos::bernoulli_map(1.5, 0.3));
        v
    };
    (desc, all)
}

/// A stream of the given kind, with one of its arguments changed (or none), and its input.
fn sibling(kind: usize, seed: u64, which: usize, tiny: bool) -> (Spec, Data) {
    let mut rng = Rng(seed);
    let mut p = Params::new(&mut rng, tiny);
    if which < VARIED {
        p = p.vary(which, &mut rng);
    }
    let s = spec_of(kind, &p);
    let mut rng = Rng(seed ^ 1);
    let n = 1 + rng.below(6);
    let d = s.data(&mut rng, n * s.inp);
    (s, d)
}

fn sibling_hash(kind: usize, seed: u64, which: usize, tiny: bool) -> u64 {
    let (s, d) = sibling(kind, seed, which, tiny);
    if s.noisy {
        return 0;
    }
    folded(&s.run(&d).iter().flat_map(|o| [o.0, o.1]).collect::<Vec<_>>())
}

fn folded(v: &[u64]) -> u64 {
    let mut h = Rng(v.len() as u64);
    for x in v {
        h.0 ^= x;
        h.0 = h.u64();
    }
    h.u64()
}

/// What this program prints when started anew with these arguments.
fn child(args: &[&str]) -> Result<String, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(me).args(args).output().map_err(|e| e.to_string())?;
    Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
}


/// `kmon fresh KIND SEED WHICH TINY`: one stream's outputs in a process of its own.
/// `kmon fresh functions SEED SCALE`: the plain functions' in one.
pub fn fresh(args: &[String]) {
    if args[0] == "functions" {
        let (_, all) = functions(args[1].parse().unwrap(), args[2].parse().unwrap());
        return println!("{:016x}", folded(&all()));
    }
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    println!("{:016x}", sibling_hash(n(0) as usize, n(1), n(2) as usize, n(3) == 1));
}

/// A hostile sample.
fn nasty(rng: &mut Rng) -> f64 {
    match rng.below(9) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => f64::MAX,
        4 => -f64::MAX,
        5 => 5e-324,
        6 => 0.0,
        7 => -0.0,
        _ => rng.normal() * 10f64.powf(rng.uniform(-300.0, 300.0)),
    }
}

/// Overwrite items [a, b) in one of several ways.
fn damage(rng: &mut Rng, d: &mut Data, a: usize, b: usize) -> &'static str {
    let how = rng.below(5);
    let mut f = |rng: &mut Rng, x: f64| match how {
        0 => 0.0,
        1 => rng.normal() * 100.0,
        2 => nasty(rng),
        3 => f64::NAN,
        _ => -3.0 * x,
    };
    match d {
        Data::Bits(v) => v[a..b].iter_mut().for_each(|x| *x = if how == 4 { !*x } else { rng.bool() }),
        Data::Real(v) => v[a..b].iter_mut().for_each(|x| *x = f(rng, *x)),
        Data::Cplx(v) => v[a..b].iter_mut().for_each(|x| *x = C64::new(f(rng, x.re), f(rng, x.im))),
    }
    ["silence", "noise", "hostile", "NaN", "inverted"][how]
}

fn receiver(c: &mut Case) -> Spec {
    let kind = RECEIVERS[c.idx as usize % RECEIVERS.len()];
    let s = spec(kind, &mut c.rng, c.scale == 0);
    c.desc(format!("{} {}", s.name, s.desc));
    s
}

pub fn c29() -> Vec<Group> {
    let k = RECEIVERS.len() as u64;
    vec![
        group("hostile", 150 * k, 2500 * k, |c| {
            let s = receiver(c);
            let nb = blocks(c, &s);
            let n = match c.rng.below(6) {
                0 => c.rng.below(4),
                1 => nb * s.inp,
                2 => nb * s.inp + s.inp - 1,
                3 => nb * s.inp - 1,
                _ => c.rng.below(nb * s.inp + 1),
            };
            let mut d = s.data(&mut c.rng, n);
            let pure = c.rng.below(3);
            if pure == 0 {
                let mut how = "";
                if n > 0 {
                    how = damage(&mut c.rng, &mut d, 0, n);
                }
                c.desc(how);
            } else if pure == 1 {
                for _ in 0..1 + c.rng.below(5) {
                    if n > 0 {
                        let a = c.rng.below(n);
                        let b = (a + 1 + c.rng.below(2 * s.inp)).min(n);
                        let how = damage(&mut c.rng, &mut d, a, b);
                        c.desc(how);
                    }
                }
            }
            c.desc(format!("items={n}"));
            let got = s.run(&d);
            let w = s.whole(n);
            ensure!(got.len() >= w && got.len() <= w + if n % s.inp == 0 { 0 } else { s.extra }, "{} bits from {n} samples, the whole symbols hold {w}", got.len());
            c.ev(got.len() + 1);
            Ok(())
        })
        .small(3 * k)
        .tiny(k),
        group("locality", 150 * k, 2500 * k, |c| {
            let s = receiver(c);
            let nb = 1 + blocks(c, &s);
            let n = nb * s.inp;
            let d = s.data(&mut c.rng, n);
            let mut e = d.clone();
            let mut hit = vec![false; nb];
            for _ in 0..1 + c.rng.below(3) {
                let q = c.rng.below(nb);
                hit[q] = true;
                let (mut a, mut b) = (q * s.inp, (q + 1) * s.inp);
                if c.rng.bool() {
                    a += c.rng.below(s.inp);
                    b = a + 1 + c.rng.below(b - a);
                }
                let how = damage(&mut c.rng, &mut e, a, b);
                c.desc(format!("{how} {a}..{b}"));
            }
            let x = s.run(&d);
            let y = s.run(&e);
            ensure!(x.len() == nb * s.out && y.len() == x.len(), "{} and {} bits for {nb} blocks of {}", x.len(), y.len(), s.out);
            for i in 0..x.len() {
                if !hit[i / s.out] {
                    ensure!(x[i] == y[i], "bit {i} changed although its symbol {} was not touched", i / s.out);
                    c.ev(1);
                }
            }
            Ok(())
        })
        .small(k),
        // Every cut of a real transmission.
        group("truncation", 6 * k, 60 * k, |c| {
            let s = receiver(c);
            let n = (2 + c.rng.below(2)) * s.inp;
            let d = s.data(&mut c.rng, n);
            let full = s.run(&d);
            let step = (n / c.size(4, 20, 400)).max(1);
            let mut cut = c.rng.below(step);
            while cut <= n {
                let mut e = d.clone();
                e.truncate(cut);
                let got = catch(|| s.run(&e)).map_err(|m| format!("cut at {cut}: panic: {m}"))?;
                let w = s.whole(cut);
                ensure!(got.len() >= w && got.len() <= w + if cut % s.inp == 0 { 0 } else { s.extra }, "cut at {cut} of {n}: {} bits, the whole symbols hold {w}", got.len());
                ensure!(first_diff(&got[..w], &full[..w]).is_none(), "cut at {cut} of {n}: a bit of a whole symbol changed");
                c.ev(w + 1);
                cut += step;
            }
            Ok(())
        })
        .small(k),
    ]
}
