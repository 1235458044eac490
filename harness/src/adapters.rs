//! C16: stream adapters against list models.
use crate::core::*;
use crate::ensure;
use crate::util::*;
use komunikilo::iter::Iter;

/// Drain an iterator in one of several ways that must all be equivalent, and
/// see that it stays exhausted.
fn drain<T: Clone + PartialEq + std::fmt::Debug>(rng: &mut Rng, mut it: impl Iterator<Item = T>, expect: usize) -> Result<Vec<T>, String> {
    let cap = expect * 2 + 4096;
    let mut out = vec![];
    match rng.below(4) {
        0 => {
            for x in it.by_ref().take(cap) {
                out.push(x);
            }
        }
        1 => {
            while let Some(x) = it.next() {
                out.push(x);
                if out.len() > cap {
                    break;
                }
            }
        }
        2 => {
            // Piecewise.
            while out.len() <= cap {
                let k = 1 + rng.below(7);
                let part: Vec<T> = it.by_ref().take(k).collect();
                let n = part.len();
                out.extend(part);
                if n < k {
                    break;
                }
            }
        }
        _ => {
            it.by_ref().take(cap).for_each(|x| out.push(x));
        }
    }
    ensure!(out.len() <= expect + 2, "{} items out, {expect} expected", out.len());
    for i in 0..3 {
        if let Some(x) = it.next() {
            return Err(format!("the exhausted adapter yields {x:?} when asked again ({i})"));
        }
    }
    Ok(out)
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> R {
    ensure!(got.len() == want.len(), "{what}: {} items, expected {}", got.len(), want.len());
    for i in 0..got.len() {
        ensure!(got[i] == want[i], "{what}: item {i} of {} is {:?}, expected {:?}", got.len(), got[i], want[i]);
    }
    Ok(())
}

fn ints(rng: &mut Rng, n: usize) -> Vec<i64> {
    (0..n).map(|i| if rng.chance(0.1) { 0 } else { (i as i64 + 1) * 1000 + rng.below(999) as i64 * if rng.bool() { 1 } else { -1 } }).collect()
}

fn len(c: &mut Case) -> usize {
    if c.scale > 1 && c.rng.chance(0.004) {
        // More items than sixteen bits count.
        let spread = if c.rng.bool() { 5 } else { 70_000 };
        return 65_534 + c.rng.below(spread);
    }
    let m = c.size(10, 40, 400);
    msg_len(&mut c.rng, m)
}

fn size(c: &mut Case, n: usize) -> usize {
    match c.rng.below(6) {
        0 => 1,
        1 => n.max(1),
        2 => n + 1 + c.rng.below(5),
        3 => (n / 2).max(1),
        _ => 1 + c.rng.below(24),
    }
}

pub fn c16() -> Vec<Group> {
    vec![
        group("chunks", 3000, 40_000, |c| {
            let n = len(c);
            let k = size(c, n);
            let v = ints(&mut c.rng, n);
            c.desc(format!("n={n} k={k}"));
            let want: Vec<Vec<i64>> = v.chunks(k).map(|x| x.to_vec()).collect();
            let got = drain(&mut c.rng, src(&v).chunks(k), want.len())?;
            eq("chunks", &got, &want)?;
            let got = drain(&mut c.rng, src(&v).wchunks(k), want.len())?;
            let mut want = want;
            if let Some(l) = want.last_mut() {
                l.resize(k, 0);
            }
            // One more chunk of padding is allowed after the last.
            if got.len() == want.len() + 1 {
                want.push(vec![0; k]);
            }
            eq("wchunks", &got, &want)?;
            // Padding by the type's default value.
            let w: Vec<bool> = v.iter().map(|x| x % 2 == 0).collect();
            let got = drain(&mut c.rng, src(&w).wchunks(k), w.len() / k + 1)?;
            for (i, ch) in got.iter().enumerate() {
                ensure!(ch.len() == k, "wchunks: chunk {i} holds {} of {k} items", ch.len());
                for (j, &b) in ch.iter().enumerate() {
                    ensure!(b == *w.get(i * k + j).unwrap_or(&false), "wchunks: item {j} of chunk {i} is {b}");
                }
            }
            ensure!(got.len() * k >= n, "wchunks: {} chunks of {k} for {n} items", got.len());
            c.ev(3 * n + 1);
            Ok(())
        })
        .tiny(3),
        group("inflate", 3000, 40_000, |c| {
            let n = len(c);
            let k = if c.rng.chance(0.15) { 0 } else { size(c, 60) };
            let (n, k) = if c.scale > 1 && c.rng.chance(0.003) { (n.min(4), 65_534 + c.rng.below(70_000)) } else { (n, k) };
            let v = ints(&mut c.rng, n);
            c.desc(format!("n={n} k={k}"));
            let want: Vec<i64> = v.iter().flat_map(|&x| std::iter::repeat(x).take(k)).collect();
            let got = drain(&mut c.rng, src(&v).inflate(k), want.len())?;
            eq("inflate", &got, &want)?;
            // The adapter can be cloned: both halves go on independently.
            if !want.is_empty() {
                let at = c.rng.below(want.len());
                let mut it = v.clone().into_iter().inflate(k);
                for _ in 0..at {
                    it.next();
                }
                let cl = it.clone();
                let a: Vec<i64> = it.take(want.len() + 9).collect();
                let b: Vec<i64> = cl.take(want.len() + 9).collect();
                eq("inflate, rest", &a, &want[at..])?;
                eq("inflate, rest of a clone", &b, &want[at..])?;
            }
            c.ev(want.len() + 1);
            Ok(())
        })
        .tiny(2),
        group("integrate", 3000, 40_000, |c| {
            let n = len(c);
            let k = size(c, n);
            let v = ints(&mut c.rng, n);
            c.desc(format!("n={n} k={k}"));
            let mut s = 0;
            let want: Vec<i64> = v
                .iter()
                .map(|x| {
                    s += x;
                    s
                })
                .collect();
            let got = drain(&mut c.rng, src(&v).integrate(), n)?;
            eq("integrate", &got, &want)?;
            let dumps: Vec<i64> = v.chunks_exact(k).map(|x| x.iter().sum()).collect();
            let got = drain(&mut c.rng, src(&v).integrate_and_dump(k), dumps.len())?;
            eq("integrate_and_dump", &got, &dumps)?;
            // Three channels at once.
            let w: Vec<[i64; 3]> = (0..n).map(|i| [v[i], -3 * v[i] + 1, v[n - 1 - i]]).collect();
            let mut s = [0i64; 3];
            let want: Vec<[i64; 3]> = w
                .iter()
                .map(|x| {
                    for j in 0..3 {
                        s[j] += x[j];
                    }
                    s
                })
                .collect();
            let got = drain(&mut c.rng, src(&w).nintegrate(), n)?;
            eq("nintegrate", &got, &want)?;
            let dumps: Vec<[i64; 3]> = w
                .chunks_exact(k)
                .map(|x| {
                    let mut s = [0i64; 3];
                    for r in x {
                        for j in 0..3 {
                            s[j] += r[j];
                        }
                    }
                    s
                })
                .collect();
            let got = drain(&mut c.rng, src(&w).nintegrate_and_dump(k), dumps.len())?;
            eq("nintegrate_and_dump", &got, &dumps)?;
            c.ev(4 * n + 1);
            Ok(())
        })
        .tiny(2),
        group("take-every", 3000, 40_000, |c| {
            let n = len(c);
            let k = size(c, n);
            let v = ints(&mut c.rng, n);
            c.desc(format!("n={n} k={k}"));
            let want: Vec<i64> = v.iter().cloned().step_by(k).collect();
            let got = drain(&mut c.rng, src(&v).take_every(k), want.len())?;
            c.ev(n + 1);
            eq("take_every", &got, &want)
        })
        .tiny(2),
        group("convolve", 4000, 50_000, |c| {
            let n = len(c);
            let k = size(c, n.min(60));
            let v: Vec<i64> = (0..n).map(|_| c.rng.below(2001) as i64 - 1000).collect();
            let h: Vec<i64> = (0..k).map(|_| c.rng.below(201) as i64 - 100).collect();
            c.desc(format!("n={n} taps={k}"));
            let full = |x: &dyn Fn(usize) -> i64| -> Vec<i64> {
                if n == 0 {
                    return vec![];
                }
                (0..n + k - 1).map(|i| (0..k).filter(|&j| j <= i && i - j < n).map(|j| h[j] * x(i - j)).sum()).collect()
            };
            let want = full(&|i| v[i]);
            let got = drain(&mut c.rng, src(&v).convolve(h.clone()), want.len())?;
            eq("convolve", &got, &want)?;
            let w: Vec<[i64; 2]> = (0..n).map(|i| [v[i], 7 - 2 * v[n - 1 - i]]).collect();
            let (a, b) = (full(&|i| w[i][0]), full(&|i| w[i][1]));
            let want2: Vec<[i64; 2]> = a.into_iter().zip(b).map(|(x, y)| [x, y]).collect();
            let got = drain(&mut c.rng, src(&w).nonvolve(h.clone()), want2.len())?;
            eq("nonvolve", &got, &want2)?;
            // Real signals.
            let fv: Vec<f64> = v.iter().map(|&x| x as f64 / 1000.0).collect();
            let fh: Vec<f64> = h.iter().map(|&x| x as f64 / 100.0).collect();
            let got = drain(&mut c.rng, src(&fv).convolve(fh), want.len())?;
            let fw: Vec<f64> = want.iter().map(|&x| x as f64 / 1e5).collect();
            c.ev(3 * want.len() + 1);
            close("convolve of real signals", &got, &fw, 1e-9)
        })
        .tiny(2),
        group("scale", 1500, 20_000, |c| {
            let n = len(c);
            let v: Vec<f64> = (0..n).map(|_| c.rng.normal()).collect();
            let s = if c.rng.chance(0.2) { c.rng.pick(&[0.0, 1.0, -1.0, 1e300, 1e-300]) } else { c.rng.normal() * 10.0 };
            c.desc(format!("n={n} s={s}"));
            let got = drain(&mut c.rng, src(&v).scale(s), n)?;
            let want: Vec<f64> = v.iter().map(|x| x * s).collect();
            let m = 1e-12 * s.abs().max(1e-300) * 10.0;
            close("scale", &got, &want, m)?;
            let z: Vec<C64> = v.iter().map(|&x| C64::new(x, 1.0 - x)).collect();
            let got = drain(&mut c.rng, src(&z).scale(s), n)?;
            let want: Vec<C64> = z.iter().map(|x| x * s).collect();
            c.ev(2 * n + 1);
            cclose("scale of a complex signal", &got, &want, m)
        })
        .tiny(1),
        // Adapters in a chain act as the composition of their models.
        group("chains", 3000, 40_000, |c| {
            let n = len(c);
            let v = ints(&mut c.rng, n);
            let (a, b, d) = (1 + c.rng.below(9), 1 + c.rng.below(9), 1 + c.rng.below(9));
            c.desc(format!("n={n} a={a} b={b} d={d}"));
            let got = drain(&mut c.rng, src(&v).inflate(a).integrate_and_dump(b).take_every(d).integrate(), n * a / b / d + 1)?;
            let inf: Vec<i64> = v.iter().flat_map(|&x| vec![x; a]).collect();
            let dump: Vec<i64> = inf.chunks_exact(b).map(|x| x.iter().sum()).collect();
            let mut s = 0;
            let want: Vec<i64> = dump
                .iter()
                .step_by(d)
                .map(|x| {
                    s += x;
                    s
                })
                .collect();
            eq("inflate | integrate_and_dump | take_every | integrate", &got, &want)?;
            // Inflating and dumping by the same factor multiplies by it.
            let got = drain(&mut c.rng, src(&v).inflate(a).integrate_and_dump(a), n)?;
            eq("inflate | integrate_and_dump", &got, &v.iter().map(|x| x * a as i64).collect::<Vec<_>>())?;
            let got = drain(&mut c.rng, src(&v).chunks(b).flat_map(|x| x.into_iter()), n)?;
            eq("chunks | flatten", &got, &v)?;
            let got = drain(&mut c.rng, src(&v).inflate(d).take_every(d), n)?;
            eq("inflate | take_every", &got, &v)?;
            c.ev(4 * n + 1);
            Ok(())
        })
        .tiny(2),
        group("long", 6, 60, |c| {
            let n = c.size(100, 2000, 2_000_000);
            let k = 1 + c.rng.below(100);
            c.desc(format!("n={n} k={k}"));
            let v: Vec<i64> = (0..n as i64).map(|i| i * 7 % 1001 - 500).collect();
            let want: Vec<i64> = v.chunks_exact(k).map(|x| x.iter().sum()).collect();
            let got = drain(&mut c.rng, src(&v).integrate_and_dump(k), want.len())?;
            eq("integrate_and_dump", &got, &want)?;
            let total: i64 = v.iter().sum();
            ensure!(src(&v).integrate().last() == Some(total), "the last prefix sum is not the total");
            let got = drain(&mut c.rng, src(&v).take_every(k), n / k + 1)?;
            eq("take_every", &got, &v.iter().cloned().step_by(k).collect::<Vec<_>>())?;
            c.ev(3 * n);
            Ok(())
        })
        .small(1),
    ]
}
