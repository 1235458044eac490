//! C21 (spectral correlation), C24 and C25 (band-pass filters).
use crate::core::*;
use crate::ensure;
use crate::util::*;
use komunikilo::bpf::*;
use komunikilo::ssca::*;
use std::f64::consts::PI;

fn ham(i: usize, n: usize) -> f64 {
    0.54 - 0.46 * (2.0 * PI * i as f64 / n as f64).cos()
}

/// A random test signal: noise, tones, modulated bits, impulses.
fn signal(rng: &mut Rng, n: usize) -> (Vec<f64>, String) {
    let kind = rng.below(6);
    let a = if rng.chance(0.3) { 10f64.powf(rng.uniform(-3.0, 3.0)) } else { 1.0 };
    let w = rng.uniform(0.0, PI);
    let at = rng.below(n);
    let sps = 1 + rng.below(12);
    let mut bit = 1.0;
    let v = (0..n)
        .map(|i| {
            if i % sps == 0 {
                bit = nrz(rng.bool());
            }
            a * match kind {
                0 => rng.normal(),
                1 => (w * i as f64).cos(),
                2 => bit * (w * i as f64).cos(),
                3 => (i == at) as u8 as f64,
                4 => 1.0,
                _ => (w * i as f64).cos() + 0.3 * rng.normal() + 0.5,
            }
        })
        .collect();
    (v, format!("{} a={a:e} w={w}", ["noise", "tone", "modulated", "impulse", "constant", "mixture"][kind]))
}

/// One column (channel) of the estimate before the long transform.
fn column(s: &[f64], n: usize, np: usize, kp: usize) -> Vec<C64> {
    // Centred channel kp is DFT bin (kp - np/2) mod np.
    let k = kp as f64 - np as f64 / 2.0;
    (0..n)
        .map(|i| {
            let mut z = C64::new(0.0, 0.0);
            for m in 0..np {
                // exp(-2 pi i k m / np), reduced exactly.
                let ph = ((kp + np - np / 2) * m) % np;
                z += C64::from_polar(s[i + m] * ham(m, np), -2.0 * PI * ph as f64 / np as f64);
            }
            let rot = (k * i as f64) / np as f64;
            z * C64::from_polar(1.0, -2.0 * PI * (rot - rot.floor())) * s[i + np / 2] * ham(i, n)
        })
        .collect()
}

/// Row r of the centred long transform.
fn cell(col: &[C64], r: usize) -> C64 {
    let n = col.len();
    let q = (r + n.div_ceil(2)) % n;
    col.iter().enumerate().map(|(i, z)| z * C64::from_polar(1.0, -2.0 * PI * ((i * q) % n) as f64 / n as f64)).sum()
}

fn check_base(c: &mut Case, n: usize, np: usize, cols: usize, rows: usize) -> R {
    // The last segment ends at sample n + np - 1.
    let len = n + np - 1 + [0, 1, c.rng.below(50)][c.idx as usize % 3];
    let (s, kind) = signal(&mut c.rng, len);
    c.desc(format!("n={n} np={np} len={len} signal={kind}"));
    let sx = ssca_base(s.clone(), n, np);
    ensure!(sx.shape() == [n, np], "shape {:?}, expected [{n}, {np}]", sx.shape());
    let amp = s.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
    let tol = 1e-9 * amp * amp * (np * n) as f64 + 1e-300;
    let mut ks: Vec<usize> = (0..np).collect();
    c.rng.shuffle(&mut ks);
    for &k in &ks[..cols.min(np)] {
        let col = column(&s, n, np, k);
        let mut rs: Vec<usize> = (0..n).collect();
        if rows < n {
            c.rng.shuffle(&mut rs);
            rs.truncate(rows);
            rs.extend([0, n / 2, n - 1]);
        }
        for r in rs {
            let want = cell(&col, r);
            let got = sx[[r, k]];
            ensure!((got - want).norm() <= tol, "cell ({r}, {k}) is {got}, the definition gives {want} (tolerance {tol:e})");
            c.ev(1);
        }
    }
    Ok(())
}

fn check_mapped(c: &mut Case, n: usize, np: usize) -> R {
    let len = n + np - c.idx as usize % 2;
    let (s, kind) = signal(&mut c.rng, len);
    c.desc(format!("n={n} np={np} signal={kind}"));
    let sx = ssca_base(s.clone(), n, np);
    let sxf = ssca_mapped(s, n, np);
    ensure!(sxf.shape() == [np + 1, 2 * n + 1], "shape {:?}, expected [{}, {}]", sxf.shape(), np + 1, 2 * n + 1);
    let mut hold: Vec<Vec<(usize, usize)>> = vec![vec![]; (np + 1) * (2 * n + 1)];
    for q in 0..n {
        for k in 0..np {
            // Row: floor(np (f + 1/2)), f = k/(2 np) - q/(2 n); column: n (k/np + q/n).
            let num = (k * n + np * n) as i64 - (q * np) as i64;
            let row = num.div_euclid(2 * n as i64) as usize;
            let col = k * (n / np) + q;
            hold[row * (2 * n + 1) + col].push((q, k));
        }
    }
    for row in 0..np + 1 {
        for col in 0..2 * n + 1 {
            let got = sxf[[row, col]];
            let h = &hold[row * (2 * n + 1) + col];
            let ok = if h.is_empty() { got == C64::new(0.0, 0.0) } else { h.iter().any(|&(q, k)| sx[[q, k]] == got) };
            ensure!(ok, "mapped cell ({row}, {col}) holds {got}, expected {:?}", h.iter().map(|&(q, k)| sx[[q, k]]).collect::<Vec<_>>());
        }
    }
    c.ev((np + 1) * (2 * n + 1));
    Ok(())
}

pub fn c21() -> Vec<Group> {
    vec![
        group("small", 600, 8000, |c| {
            let np = 2 * (1 + c.rng.below(c.size(2, 5, 12)));
            let n = np + 1 + c.rng.below(c.size(4, 20, 60));
            check_base(c, n, np, np, n)
        })
        .small(6)
        .tiny(2),
        group("powers-of-two", 80, 1000, |c| {
            let np = 2usize << c.rng.below(6);
            let n = np * 2usize << c.rng.below(4);
            let n = n.min(c.size(16, 128, 1024)).max(np + 1);
            check_base(c, n, np, 4, 24)
        })
        .small(2),
        group("default-size", 6, 60, |c| check_base(c, 4096, 64, 2, 12)).small(0),
        group("large", 6, 40, |c| {
            let (n, np) = [(65_536, 4), (8192, 128), (2048, 1024), (66_000, 2), (16_384, 32), (1026, 1024)][c.idx as usize % 6];
            check_base(c, n, np, 2, 12)
        })
        .small(0),
        group("mapped", 120, 1500, |c| {
            let np = 2usize << c.rng.below(if c.scale < 2 { 3 } else { 5 });
            let n = (np * 2) << c.rng.below(3);
            check_mapped(c, n, np)
        })
        .small(2)
        .tiny(1),
        group("mapped-large", 8, 32, |c| {
            let (n, np) = [(4096, 64), (16_384, 4), (1024, 512), (65_536, 2), (512, 256), (2048, 64), (8192, 16), (128, 64)][c.idx as usize % 8];
            check_mapped(c, n, np)
        })
        .small(0),
    ]
}

/// Band edges for a block of `len` samples at `fs`, away from the bins or exactly on them.
fn band(c: &mut Case, fs: usize, len: usize) -> (f64, f64) {
    let nyq = fs as f64 / 2.0;
    let df = fs as f64 / len as f64;
    let edge = |c: &mut Case| -> f64 {
        let k = c.rng.below(len / 2 + 1);
        if c.rng.bool() && (fs % len == 0 || len.is_power_of_two()) {
            // Exactly on a bin, where the bin frequency is exact.
            (k * fs) as f64 / len as f64
        } else {
            (k as f64 + c.rng.uniform(0.05, 0.95)) * df
        }
    };
    let (a, b) = (edge(c), edge(c));
    let (mut a, mut b) = (a.min(b), a.max(b));
    if c.rng.chance(0.1) {
        a = -1.0;
    }
    if c.rng.chance(0.1) {
        b = nyq * 2.0;
    }
    (a, b)
}

pub fn c24() -> Vec<Group> {
    fn keep(k: usize, lo: f64, hi: f64, fs: usize, len: usize) -> bool {
        let f = (k * fs) as f64 / len as f64;
        f >= lo && f <= hi
    }
    vec![
        group("spectrum", 2500, 40_000, |c| {
            let max = c.size(16, 64, 200);
            let len = if c.scale > 1 && c.rng.chance(0.003) {
                c.rng.pick(&[65_536usize, 131_072, 98_304, 65_600])
            } else if c.rng.bool() { 2usize << c.rng.below(if c.scale == 0 { 3 } else { 7 }) } else { 2 + c.rng.below(max) };
            let fs = c.rng.pick(&[1usize, 8, 1000, 44_100, 10_000, 48_000, 2_000_000, 2_400_000_000]);
            let (lo, hi) = band(c, fs, len);
            let nb = c.rng.below(4);
            let x: Vec<f64> = (0..nb * len).map(|_| c.rng.normal()).collect();
            c.desc(format!("len={len} fs={fs} low={lo} high={hi} blocks={nb}"));
            let y = take_all(bandpass(lo, hi, src(&x), fs, len), x.len());
            ensure!(y.len() == x.len(), "{} samples, expected {}", y.len(), x.len());
            let cx = |v: &[f64]| -> Vec<C64> { v.iter().map(|&r| C64::new(r, 0.0)).collect() };
            for b in 0..nb {
                let xs = dft(&cx(&x[b * len..(b + 1) * len]), -1.0);
                let ys = dft(&cx(&y[b * len..(b + 1) * len]), -1.0);
                for k in 0..=len / 2 {
                    let want = if keep(k, lo, hi, fs, len) { xs[k] } else { C64::new(0.0, 0.0) };
                    ensure!((ys[k] - want).norm() <= 1e-9 * len as f64, "block {b}: component {k} ({} Hz) is {}, expected {want}", k as f64 * fs as f64 / len as f64, ys[k]);
                    c.ev(1);
                }
            }
            c.ev(1);
            // Filtering twice equals filtering once.
            let z = take_all(bandpass(lo, hi, src(&y), fs, len), y.len());
            close("filtering twice", &z, &y, 1e-9)?;
            // Linear.
            let w: Vec<f64> = (0..nb * len).map(|_| c.rng.normal()).collect();
            let (p, q) = (c.rng.normal() * 3.0, c.rng.normal());
            let mix: Vec<f64> = x.iter().zip(&w).map(|(a, b)| p * a + q * b).collect();
            let fw = take_all(bandpass(lo, hi, src(&w), fs, len), w.len());
            let fm = take_all(bandpass(lo, hi, src(&mix), fs, len), mix.len());
            ensure!(fw.len() == fm.len() && fm.len() == x.len(), "{} and {} samples", fw.len(), fm.len());
            let want: Vec<f64> = y.iter().zip(&fw).map(|(a, b)| p * a + q * b).collect();
            c.ev(2 * want.len());
            close("linearity", &fm, &want, 1e-9)
        })
        .small(15)
        .tiny(3),
        // Large blocks, by tones on the bins.
        group("tones", 200, 2500, |c| {
            let len = c.rng.pick(&[1024usize, 4096, 8192, 1000, 10_000, 3000, 1023, 6561, 70_000, 131_072]);
            let len = if c.scale < 2 { len / 8 } else { len };
            let fs = c.rng.pick(&[8000usize, 44_100, 10_000, 2_000_000, 100_000_000]);
            let (lo, hi) = band(c, fs, len);
            let nb = 1 + c.rng.below(3);
            let m = 1 + c.rng.below(8);
            let tones: Vec<(usize, f64, f64)> = (0..m)
                .map(|_| {
                    let near = (if c.rng.bool() { lo } else { hi } * len as f64 / fs as f64).max(0.0) as usize;
                    let k = if c.rng.chance(0.6) { near + c.rng.below(3) } else { c.rng.below(len / 2) };
                    (k.saturating_sub(1).min((len - 1) / 2), 0.5 + c.rng.f64(), c.rng.uniform(0.0, 6.28))
                })
                .collect();
            c.desc(format!("len={len} fs={fs} low={lo} high={hi} blocks={nb} tones={tones:?}"));
            let synth = |f: &dyn Fn(usize) -> bool| -> Vec<f64> {
                (0..nb * len)
                    .map(|i| tones.iter().filter(|t| f(t.0)).map(|&(k, a, p)| (i / len + 1) as f64 * a * (2.0 * PI * ((k * i) % len) as f64 / len as f64 + p).cos()).sum())
                    .collect()
            };
            let x = synth(&|_| true);
            let want = synth(&|k| keep(k, lo, hi, fs, len));
            let y = take_all(bandpass(lo, hi, src(&x), fs, len), x.len());
            c.ev(y.len());
            close("filtered tones", &y, &want, 1e-8)
        })
        .small(2),
    ]
}

pub fn c25() -> Vec<Group> {
    struct B {
        fs: usize,
        lo: f64,
        hi: f64,
    }
    fn band(c: &mut Case) -> B {
        let fs = c.rng.pick(&[8000usize, 10_000, 44_100, 1000]);
        let f = fs as f64;
        let bw = c.rng.uniform(0.05, 0.3) * f;
        // Bands that reach above 0.42 fs are the known finding (group near-nyquist).
        let lo = c.rng.uniform(0.1 * f, 0.42 * f - bw);
        B { fs, lo, hi: lo + bw }
    }
    /// How long the ends of a block are disturbed.
    fn guard(b: &B) -> usize {
        // The slowest pole pair decays at the narrow side of the band.
        (70.0 * (1.0 + b.hi / b.lo) * b.fs as f64 / (b.hi - b.lo)) as usize
    }
    vec![
        group("tones", 24, 250, |c| {
            let b = band(c);
            let bw = b.hi - b.lo;
            let g = guard(&b);
            let n = 2 * g + 2000 + c.rng.below(3000);
            // Sample rates and lengths are small enough for one block.
            let inside: Vec<(f64, f64, f64)> = (0..3).map(|_| (c.rng.uniform(b.lo + 0.2 * bw, b.hi - 0.2 * bw), 0.5 + c.rng.f64(), c.rng.uniform(0.0, 6.28))).collect();
            let mut outside = vec![];
            for _ in 0..3 {
                let f = if c.rng.bool() { c.rng.uniform(0.0, (b.lo - 0.2 * bw).max(b.lo * 0.5)) } else { c.rng.uniform((b.hi + 0.2 * bw).min((b.hi + b.fs as f64 / 2.0) / 2.0), b.fs as f64 / 2.0) };
                // Well outside only.
                if f <= b.lo - 0.2 * bw && f <= b.lo * 0.8 || f >= b.hi + 0.2 * bw {
                    outside.push((f, 0.5 + c.rng.f64(), c.rng.uniform(0.0, 6.28)));
                }
            }
            c.desc(format!("fs={} low={} high={} n={n} inside={inside:?} outside={outside:?}", b.fs, b.lo, b.hi));
            // Faded in and out: the extrapolated, ill-conditioned ends of a
            // block are not what is judged here.
            let fade = |i: usize| {
                let d = i.min(n - 1 - i) as f64 / g as f64;
                0.5 - 0.5 * (PI * ((d - 0.1) / 0.8).clamp(0.0, 1.0)).cos()
            };
            let syn = |t: &[(f64, f64, f64)]| -> Vec<f64> { (0..n).map(|i| fade(i) * t.iter().map(|&(f, a, p)| a * (cyc(f, i, b.fs) + p).cos()).sum::<f64>()).collect() };
            let x = syn(&inside);
            let y = take_all(butterpass(b.lo, b.hi, src(&x), b.fs), n);
            ensure!(y.len() == n, "{} samples, expected {n}", y.len());
            for i in g..n - g {
                ensure!((y[i] - x[i]).abs() <= 1e-3, "sample {i} of {n}: in-band tones come out as {} instead of {}", y[i], x[i]);
            }
            let w = syn(&outside);
            let v = take_all(butterpass(b.lo, b.hi, src(&w), b.fs), n);
            ensure!(v.len() == n, "{} samples, expected {n}", v.len());
            let amp: f64 = outside.iter().map(|t| t.1).sum();
            for i in g..n - g {
                ensure!(v[i].abs() <= 1e-3 * amp + 1e-12, "sample {i} of {n}: {:e} is left of out-of-band tones of amplitude {amp}", v[i]);
            }
            c.ev(2 * (n - 2 * g));
            // Linear, ends included.
            let (p, q) = (c.rng.uniform(-3.0, 3.0), c.rng.uniform(-3.0, 3.0));
            let mix: Vec<f64> = x.iter().zip(&w).map(|(a, b)| p * a + q * b).collect();
            let got = take_all(butterpass(b.lo, b.hi, src(&mix), b.fs), n);
            let want: Vec<f64> = y.iter().zip(&v).map(|(a, b)| p * a + q * b).collect();
            let peak = want.iter().fold(1.0, |m: f64, x| m.max(x.abs()));
            c.ev(n);
            // The extrapolated ends are ill-conditioned.
            close("linearity", &got[g..n - g], &want[g..n - g], 1e-3 * peak)
        })
        .small(0),
        group("noise", 12, 120, |c| {
            // Zero phase and selectivity on a wide-band signal: compare with
            // the ideal band of its spectrum away from the transition.
            let b = band(c);
            let g = guard(&b);
            let n = 2 * g + 1024;
            let x: Vec<f64> = (0..n).map(|_| c.rng.normal()).collect();
            c.desc(format!("fs={} low={} high={} n={n}", b.fs, b.lo, b.hi));
            let y = take_all(butterpass(b.lo, b.hi, src(&x), b.fs), n);
            ensure!(y.len() == n, "{} samples, expected {n}", y.len());
            // Hann-windowed spectra of the middle part.
            let mid = |v: &[f64]| -> Vec<C64> { (0..1024).map(|i| C64::new(v[g + i] * (0.5 - 0.5 * (2.0 * PI * i as f64 / 1024.0).cos()), 0.0)).collect() };
            let (xs, ys) = (dft(&mid(&x), -1.0), dft(&mid(&y), -1.0));
            let bw = b.hi - b.lo;
            let peak = xs.iter().fold(0.0, |m: f64, z| m.max(z.norm()));
            for k in 0..=512usize {
                let f = k as f64 * b.fs as f64 / 1024.0;
                if f >= b.lo + 0.25 * bw && f <= b.hi - 0.25 * bw {
                    ensure!((ys[k] - xs[k]).norm() <= 1e-2 * peak, "component at {f} Hz changes from {} to {}", xs[k], ys[k]);
                    c.ev(1);
                } else if f >= b.hi + 0.3 * bw || f <= b.lo - 0.3 * bw && f <= 0.7 * b.lo {
                    ensure!(ys[k].norm() <= 1e-3 * peak, "component at {f} Hz is {} of {}", ys[k], xs[k]);
                    c.ev(1);
                }
            }
            Ok(())
        })
        .small(0),
        group("near-nyquist", 4, 4, |c| {
            let (lo, hi) = [(4100.0, 4700.0), (500.0, 4750.0), (3900.0, 4500.0), (2500.0, 4900.0)][c.idx as usize % 4];
            let f = (lo + hi) / 2.0;
            c.desc(format!("butterpass low={lo} high={hi} sample_rate=10000 on a tone of {f}"));
            let x: Vec<f64> = (0..6000).map(|i| cyc(f, i, 10_000).cos()).collect();
            let y = take_all(butterpass(lo, hi, src(&x), 10_000), 6000);
            ensure!(y.len() == 6000, "{} samples, expected 6000", y.len());
            c.ev(1000);
            let dead = y.iter().all(|&v| v == 0.0);
            ensure!(!dead, "the output is silence");
            for i in 2500..3500 {
                ensure!((y[i] - x[i]).abs() < 1e-2, "sample {i} is {} instead of {}", y[i], x[i]);
            }
            Ok(())
        })
        .small(0),
        group("low-edge", 4, 4, |c| {
            let (lo, hi, f) = [(499.0968632640758, 2495.295433627043, 9.07322061219657), (500.0, 2500.0, 9.0), (500.0, 1500.0, 9.0), (800.0, 2500.0, 40.0)][c.idx as usize % 4];
            c.desc(format!("butterpass low={lo} high={hi} sample_rate=10000 on a tone of {f}"));
            let x: Vec<f64> = (0..8000).map(|i| cyc(f, i, 10_000).cos()).collect();
            let y = take_all(butterpass(lo, hi, src(&x), 10_000), 8000);
            ensure!(y.len() == 8000, "{} samples, expected 8000", y.len());
            c.ev(4000);
            let left = y[2000..6000].iter().fold(0.0, |m: f64, v| m.max(v.abs()));
            ensure!(left < 10.0, "the filter is unstable: {left}");
            ensure!(left < 1e-3, "more than a thousandth of a tone far below the band is left");
            Ok(())
        })
        .small(0),
        group("lengths", 16, 160, |c| {
            let b = band(c);
            let n = match c.idx % 4 {
                0 => 1000,
                1 => 81_920,
                2 => 81_920 + 1000 + c.rng.below(2000),
                _ => 1000 + c.rng.below(20_000),
            };
            let x: Vec<f64> = (0..n).map(|_| c.rng.normal()).collect();
            c.desc(format!("fs={} low={} high={} n={n}", b.fs, b.lo, b.hi));
            let y = take_all(butterpass(b.lo, b.hi, src(&x), b.fs), n);
            c.ev(n);
            ensure!(y.len() == n, "{} samples, expected {n}", y.len());
            ensure!(y.iter().all(|v| v.is_finite()), "a sample is not finite");
            // Bounded: random noise cannot come out much larger than it went in.
            let m = y.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
            ensure!(m < 100.0, "noise of deviation 1 comes out at {m}");
            let z = take_all(butterpass(b.lo, b.hi, src(&vec![0.0; n]), b.fs), n);
            ensure!(z.iter().all(|v| v.abs() < 1e-9), "silence does not stay silent");
            Ok(())
        })
        .small(1),
    ]
}
