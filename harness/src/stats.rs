//! C18 (noise), C19 (bit error rates), C20 (measurement functions).
use crate::core::*;
use crate::ensure;
use crate::psk::*;
use crate::util::*;
use komunikilo::{avg_energy, awgn, awgn_complex, ber, bit_to_nrz, db, energy, erf, erfc, hamming_window, hamming_window_complex, linspace, power, undb};

/// Alarm threshold in standard deviations: a false alarm about once in 1e10 tests.
const Z: f64 = 6.6;

fn cdf(x: f64) -> f64 {
    0.5 * erfc_ref(-x / 2f64.sqrt())
}

/// Mean, variance, shape and whiteness of what must be standard normal noise.
fn standard_normal(what: &str, x: &[f64]) -> R {
    let n = x.len() as f64;
    let mean = x.iter().sum::<f64>() / n;
    ensure!(mean.abs() <= Z / n.sqrt(), "{what}: mean {mean:e} of {} standardised samples", x.len());
    let var = x.iter().map(|v| v * v).sum::<f64>() / n;
    ensure!((var - 1.0).abs() <= Z * (2.0 / n).sqrt(), "{what}: variance {var} of {} standardised samples", x.len());
    let skew = x.iter().map(|v| v * v * v).sum::<f64>() / n;
    ensure!(skew.abs() <= Z * (15.0 / n).sqrt(), "{what}: third moment {skew:e}");
    let kurt = x.iter().map(|v| v * v * v * v).sum::<f64>() / n;
    ensure!((kurt - 3.0).abs() <= Z * (96.0 / n).sqrt() * 1.5, "{what}: fourth moment {kurt}");
    for lag in (1..=64).chain([100, 128, 256, 512, 1000, 1024, 4096, 65536]) {
        if lag * 4 < x.len() {
            let m = x.len() - lag;
            let r = (0..m).map(|i| x[i] * x[i + lag]).sum::<f64>() / (m as f64).sqrt();
            ensure!(r.abs() <= Z, "{what}: autocorrelation at lag {lag} is {r:.1} standard deviations");
            let r = (0..m).map(|i| (x[i] * x[i] - 1.0) * (x[i + lag] * x[i + lag] - 1.0)).sum::<f64>() / (m as f64).sqrt() / 2.0;
            ensure!(r.abs() <= 2.0 * Z, "{what}: autocorrelation of the squares at lag {lag} is {r:.1} standard deviations");
        }
    }
    // The same in every part of the stream and at every phase.
    for p in 0..16 {
        let a = x.len() * p / 16;
        let b = x.len() * (p + 1) / 16;
        moments(&format!("{what}, part {p} of 16"), x[a..b].iter().cloned())?;
    }
    for m in [2usize, 3, 5, 7, 8, 16] {
        for p in 0..m {
            moments(&format!("{what}, samples {p} modulo {m}"), x.iter().skip(p).step_by(m).cloned())?;
        }
    }
    // Kolmogorov-Smirnov.
    let mut s = x.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut d: f64 = 0.0;
    for (i, v) in s.iter().enumerate() {
        let c = cdf(*v);
        d = d.max((c - i as f64 / n).abs()).max(((i + 1) as f64 / n - c).abs());
    }
    ensure!(d * n.sqrt() <= 3.6, "{what}: Kolmogorov-Smirnov distance {d:e} of {} samples", x.len());
    Ok(())
}

fn moments(what: &str, x: impl Iterator<Item = f64>) -> R {
    let (mut n, mut s, mut q) = (0.0, 0.0, 0.0);
    for v in x {
        n += 1.0;
        s += v;
        q += v * v;
    }
    if n < 200.0 {
        return Ok(());
    }
    let (mean, var) = (s / n, q / n);
    ensure!(mean.abs() <= Z / f64::sqrt(n), "{what}: mean {mean:e} of {n} standardised samples");
    ensure!((var - 1.0).abs() <= Z * f64::sqrt(2.0 / n) + 20.0 / n, "{what}: variance {var} of {n} standardised samples");
    Ok(())
}

/// The correlation of two white series at every lag either way, up to 2^19 samples of them.
fn every_lag(what: &str, a: &[f64], b: &[f64]) -> R {
    let n = a.len().min(b.len()).min(1 << 19);
    if n < 8192 {
        return Ok(());
    }
    let same = a.as_ptr() == b.as_ptr();
    let len = (2 * n).next_power_of_two();
    let sq = |x: f64| (x * x - 1.0) / 2f64.sqrt();
    for squares in [false, true] {
        // Both series in one transform.
        let f = |x: f64| if squares { sq(x) } else { x };
        let mut z: Vec<C64> = (0..len).map(|i| if i < n { C64::new(f(a[i]), f(b[i])) } else { C64::new(0.0, 0.0) }).collect();
        fft_pow2(&mut z, -1.0);
        let mut x: Vec<C64> = (0..len)
            .map(|k| {
                let (p, q) = (z[k], z[(len - k) % len].conj());
                let (fa, fb) = ((p + q) * 0.5, (p - q) * C64::new(0.0, -0.5));
                fa.conj() * fb
            })
            .collect();
        fft_pow2(&mut x, 1.0);
        for k in 0..len {
            let lag = if k < len / 2 { k as i64 } else { k as i64 - len as i64 };
            let m = n as i64 - lag.abs();
            if m < 4096 || (same && lag == 0) {
                continue;
            }
            let d = x[k].re / len as f64 / (m as f64).sqrt();
            // Products of squares have the heavier tails.
            let z = if squares { 2.5 * (Z + 2.0) } else { Z + 2.0 };
            ensure!(d.abs() <= z, "{what}: {} at lag {lag} is {d:.1} standard deviations", if squares { "correlation of the squares" } else { "correlation" });
        }
    }
    Ok(())
}

/// In place, for a power of two.
fn fft_pow2(x: &mut [C64], sign: f64) {
    let n = x.len();
    let mut j = 0;
    for i in 1..n {
        let mut b = n >> 1;
        while j & b != 0 {
            j ^= b;
            b >>= 1;
        }
        j |= b;
        if i < j {
            x.swap(i, j);
        }
    }
    let tw: Vec<C64> = (0..n / 2).map(|k| C64::from_polar(1.0, sign * 2.0 * std::f64::consts::PI * k as f64 / n as f64)).collect();
    let mut h = 1;
    while h < n {
        let step = n / (2 * h);
        for s in (0..n).step_by(2 * h) {
            for k in 0..h {
                let t = tw[k * step] * x[s + k + h];
                x[s + k + h] = x[s + k] - t;
                x[s + k] += t;
            }
        }
        h *= 2;
    }
}

fn correlation(what: &str, a: &[f64], b: &[f64]) -> R {
    let n = a.len().min(b.len());
    let eb = b[..n].iter().map(|v| v * v).sum::<f64>();
    if eb == 0.0 {
        return Ok(());
    }
    let r = (0..n).map(|i| a[i] * b[i]).sum::<f64>() / eb.sqrt();
    ensure!(r.abs() <= Z, "{what}: correlated by {r:.1} standard deviations");
    Ok(())
}

fn signal(rng: &mut Rng, n: usize) -> (Vec<f64>, &'static str) {
    let kind = rng.below(5);
    let w = rng.uniform(0.01, 3.0);
    (
        (0..n)
            .map(|i| match kind {
                0 => 0.0,
                1 => (w * i as f64).cos(),
                2 => nrz(rng.bool()),
                3 => {
                    if rng.chance(0.5) {
                        0.0
                    } else {
                        4.0 * rng.normal()
                    }
                }
                _ => (i % 7) as f64 - 3.0,
            })
            .collect(),
        ["silence", "tone", "bits", "bursts", "staircase"][kind],
    )
}

fn sigma(rng: &mut Rng) -> f64 {
    match rng.below(4) {
        0 => 1.0,
        1 => 10f64.powf(rng.uniform(-6.0, 6.0)),
        _ => rng.uniform(0.05, 5.0),
    }
}

pub fn c18() -> Vec<Group> {
    vec![
        group("real", 24, 240, |c| {
            let n = c.size(200, 4000, if c.scale >= 3 { 4_000_000 } else { 1_000_000 });
            let s = sigma(&mut c.rng);
            let (x, kind) = signal(&mut c.rng, n);
            // The signal is of the noise's scale, so that taking it off again loses nothing.
            let x: Vec<f64> = x.iter().map(|v| v * s).collect();
            c.desc(format!("sigma={s:e} signal={kind} n={n}"));
            let y = take_all(awgn(src(&x), s), n);
            ensure!(y.len() == n, "{} samples, expected {n}", y.len());
            let z: Vec<f64> = (0..n).map(|i| (y[i] - x[i]) / s).collect();
            c.ev(n);
            standard_normal("noise", &z)?;
            every_lag("noise", &z, &z)?;
            let xs: Vec<f64> = x.iter().map(|v| v / s).collect();
            correlation("noise and signal", &z, &xs)?;
            let xq: Vec<f64> = z.iter().map(|v| (v * v - 1.0) / 2f64.sqrt()).collect();
            let m = xs.iter().map(|v| v.abs()).sum::<f64>() / n as f64;
            let xa: Vec<f64> = xs.iter().map(|v| v.abs() - m).collect();
            correlation("power of the noise and size of the signal", &xq, &xa)
        })
        .small(2)
        .tiny(1),
        group("complex", 24, 240, |c| {
            let n = c.size(200, 4000, if c.scale >= 3 { 3_000_000 } else { 700_000 });
            let s = sigma(&mut c.rng);
            let (a, ka) = signal(&mut c.rng, n);
            let (b, kb) = signal(&mut c.rng, n);
            let x: Vec<C64> = (0..n).map(|i| C64::new(a[i], b[i]) * s).collect();
            c.desc(format!("sigma={s:e} signal={ka}/{kb} n={n}"));
            let y = take_all(awgn_complex(src(&x), s), n);
            ensure!(y.len() == n, "{} samples, expected {n}", y.len());
            let re: Vec<f64> = (0..n).map(|i| (y[i].re - x[i].re) / s).collect();
            let im: Vec<f64> = (0..n).map(|i| (y[i].im - x[i].im) / s).collect();
            c.ev(2 * n);
            standard_normal("real part of the noise", &re)?;
            standard_normal("imaginary part of the noise", &im)?;
            correlation("the two axes", &re, &im)?;
            every_lag("the two axes", &re, &im)?;
            every_lag("the real axis", &re, &re)?;
            every_lag("the imaginary axis", &im, &im)?;
            correlation("the axes one sample apart", &re[1..], &im[..n - 1])?;
            correlation("the axes one sample apart", &im[1..], &re[..n - 1])?;
            let sq = |v: &[f64]| -> Vec<f64> { v.iter().map(|x| (x * x - 1.0) / 2f64.sqrt()).collect() };
            correlation("the squares of the two axes", &sq(&re), &sq(&im)).map_err(|e| e + " (squares)")
        })
        .small(2),
        // The beginning of many short streams.
        group("short-streams", 12, 120, |c| {
            let m = c.size(40, 500, 60_000);
            let s = sigma(&mut c.rng);
            let len = 1 + c.rng.below(6);
            let cplx = c.idx % 2 == 1;
            c.desc(format!("sigma={s:e} streams={m} len={len} complex={cplx}"));
            let mut cols: Vec<Vec<f64>> = vec![vec![]; if cplx { 2 * len } else { len }];
            for _ in 0..m {
                if cplx {
                    let x = vec![C64::new(1.0, -1.0) * s; len];
                    let y = take_all(awgn_complex(src(&x), s), len);
                    ensure!(y.len() == len, "{} samples, expected {len}", y.len());
                    for i in 0..len {
                        cols[2 * i].push(y[i].re / s - 1.0);
                        cols[2 * i + 1].push(y[i].im / s + 1.0);
                    }
                } else {
                    let x = vec![-s; len];
                    let y = take_all(awgn(src(&x), s), len);
                    ensure!(y.len() == len, "{} samples, expected {len}", y.len());
                    for i in 0..len {
                        cols[i].push(y[i] / s + 1.0);
                    }
                }
            }
            c.ev(m * cols.len());
            for (i, col) in cols.iter().enumerate() {
                if m >= 1000 {
                    standard_normal(&format!("sample {i} of each stream"), col)?;
                }
                for j in 0..i {
                    correlation(&format!("samples {i} and {j} of a stream"), &cols[i], &cols[j])?;
                }
            }
            Ok(())
        })
        .small(1)
        .tiny(1),
        group("no-noise", 400, 5000, |c| {
            let m = c.size(10, 50, 1000);
            let n = msg_len(&mut c.rng, m);
            let x: Vec<f64> = (0..n).map(|_| c.rng.normal() * 10f64.powf(c.rng.uniform(-200.0, 200.0))).collect();
            c.desc(format!("n={n}"));
            let y = take_all(awgn(src(&x), 0.0), n);
            ensure!(y == x, "deviation zero changes a real signal");
            let z: Vec<C64> = x.iter().map(|&v| C64::new(v, -2.0 * v)).collect();
            let y = take_all(awgn_complex(src(&z), 0.0), n);
            ensure!(y == z, "deviation zero changes a complex signal");
            // Lengths hold for any deviation, and no noise is not finite.
            let s = sigma(&mut c.rng);
            let w = vec![1.0; n];
            let y = take_all(awgn(src(&w), s), n);
            ensure!(y.len() == n && y.iter().all(|v| v.is_finite()), "{} samples for {n}, or not finite", y.len());
            c.ev(3 * n + 1);
            Ok(())
        })
        .tiny(2),
        group("independent-channels", 60, 600, |c| {
            let n = c.size(60, 500, 20_000);
            let t = c.size(2, 3, 4);
            let cplx = c.idx % 2 == 1;
            c.desc(format!("threads={t} complex={cplx} n={n}"));
            let one = move || -> Vec<f64> {
                if cplx {
                    awgn_complex(std::iter::repeat(C64::new(0.0, 0.0)).take(n), 1.0).flat_map(|z| [z.re, z.im]).collect()
                } else {
                    awgn(std::iter::repeat(0.0).take(n), 1.0).collect()
                }
            };
            let mut all: Vec<Vec<f64>> = vec![one(), one()];
            // Interleaved in one thread.
            {
                let mut a = awgn(std::iter::repeat(0.0).take(n), 1.0);
                let mut b = awgn(std::iter::repeat(0.0).take(n), 1.0);
                let (mut va, mut vb) = (vec![], vec![]);
                for _ in 0..n {
                    va.extend(a.next());
                    vb.extend(b.next());
                }
                all.push(va);
                all.push(vb);
            }
            let more: Vec<Vec<f64>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..t).map(|_| s.spawn(one)).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            all.extend(more);
            for i in 0..all.len() {
                for j in 0..i {
                    // A repeated generator shows as a shifted copy; look for one.
                    for lag in [0usize, 1, 2, 3, 4, 8] {
                        let k = all[i].len().min(all[j].len()) - lag;
                        correlation(&format!("channels {i} and {j} at lag {lag}"), &all[i][lag..lag + k], &all[j][..k])?;
                        correlation(&format!("channels {j} and {i} at lag {lag}"), &all[j][lag..lag + k], &all[i][..k])?;
                    }
                    let seen: std::collections::HashSet<u64> = all[j].iter().map(|v| v.abs().to_bits()).collect();
                    let same = all[i].iter().filter(|v| seen.contains(&v.abs().to_bits())).count();
                    ensure!(same <= 2, "channels {i} and {j} share {same} values, their signs aside");
                    if i < 3 {
                        every_lag(&format!("channels {i} and {j}"), &all[i], &all[j])?;
                    }
                    c.ev(all[i].len());
                }
            }
            Ok(())
        })
        .small(2)
        .tiny(1),
    ]
}

/// `errors` out of trials with the given error probabilities.
fn rate_test(what: &str, errors: usize, mean: f64, var: f64, n: usize) -> R {
    let z = (errors as f64 - mean) / (var + 1.0).sqrt();
    ensure!(
        z.abs() <= Z,
        "{what}: {errors} errors in {n} bits ({:.5}), theory says {:.5} ({z:+.1} standard deviations)",
        errors as f64 / n as f64,
        mean / n as f64
    );
    Ok(())
}

pub fn c19() -> Vec<Group> {
    use komunikilo::bpsk::*;
    use komunikilo::cdma::*;
    use komunikilo::fh::*;
    use komunikilo::fm::*;
    use komunikilo::ofdm::*;
    use komunikilo::qpsk::*;
    fn count(a: &[Bit], b: &[Bit]) -> usize {
        a.iter().zip(b).filter(|(x, y)| x != y).count()
    }
    let nbits = |c: &Case, sps: usize| c.size(30, 300, if c.scale >= 3 { 12_000_000 } else { 3_000_000 } / sps.max(4));
    vec![
        group("bpsk", 60, 700, move |c| {
            let mut r = rates(&mut c.rng, 40);
            if r.sps < 2 {
                r = Rates { fs: r.fs * 3, sr: r.sr, sps: 3 };
            }
            let f = if c.rng.bool() { half_cycle_carrier(&mut c.rng, r).unwrap() } else { carrier(&mut c.rng, r) };
            let n = nbits(c, r.sps);
            let msg = rand_bits(&mut c.rng, n);
            let s = (r.sps as f64 / 2.0).sqrt() / c.rng.uniform(0.2, 2.6);
            c.desc(format!("fs={} sr={} sps={} f={f} sigma={s} bits={n}", r.fs, r.sr, r.sps));
            let rx: Vec<Bit> = rx_bpsk_signal(awgn(tx_bpsk_signal(msg.iter().cloned(), r.fs, r.sr, f), s), r.fs, r.sr, f).collect();
            ensure!(rx.len() == n, "{} bits received of {n}", rx.len());
            let e = symbol_energy(r, f, n);
            let (mut m, mut v, mut k, mut err) = (0.0, 0.0, 0, 0);
            for i in 0..n {
                if e[i] > 1e-5 {
                    let p = q(e[i].sqrt() / s);
                    m += p;
                    v += p * (1.0 - p);
                    k += 1;
                    err += (rx[i] != msg[i]) as usize;
                }
            }
            c.ev(k);
            rate_test("BPSK", err, m, v, k)
        })
        .small(2),
        group("qpsk", 60, 700, move |c| {
            let mut r = rates(&mut c.rng, 40);
            if r.sps < 2 {
                r = Rates { fs: r.fs * 3, sr: r.sr, sps: 3 };
            }
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let n = 2 * (nbits(c, r.sps));
            let msg = rand_bits(&mut c.rng, n);
            let x = c.rng.uniform(0.2, 2.6);
            let s = (r.sps as f64 / 2.0).sqrt() / x;
            c.desc(format!("fs={} sr={} sps={} f={f} sigma={s} bits={n}", r.fs, r.sr, r.sps));
            let rx: Vec<Bit> = rx_qpsk_signal(awgn(tx_qpsk_signal(msg.iter().cloned(), r.fs, r.sr, f), s), r.fs, r.sr, f).collect();
            ensure!(rx.len() == n, "{} bits received of {n}", rx.len());
            let p = q(x);
            for (j, axis) in ["in-phase", "quadrature"].iter().enumerate() {
                let err = (0..n / 2).filter(|k| rx[2 * k + j] != msg[2 * k + j]).count();
                rate_test(&format!("QPSK, {axis} bits"), err, p * n as f64 / 2.0, p * (1.0 - p) * n as f64 / 2.0, n / 2)?;
            }
            c.ev(n);
            Ok(())
        })
        .small(2),
        group("baseband", 40, 400, move |c| {
            let n = 2 * nbits(c, 8);
            let msg = rand_bits(&mut c.rng, n);
            let s = c.rng.uniform(0.3, 3.0);
            c.desc(format!("sigma={s} bits={n}"));
            let rx: Vec<Bit> = rx_baseband_bpsk_signal(awgn_complex(tx_baseband_bpsk_signal(msg.iter().cloned()), s)).collect();
            ensure!(rx.len() == n, "{} bits received of {n}", rx.len());
            let p = q(1.0 / s);
            rate_test("baseband BPSK", count(&rx, &msg), p * n as f64, p * (1.0 - p) * n as f64, n)?;
            let rx: Vec<Bit> = rx_baseband_qpsk_signal(awgn_complex(tx_baseband_qpsk_signal(msg.iter().cloned()), s)).collect();
            ensure!(rx.len() == n, "{} bits received of {n}", rx.len());
            let p = q(2f64.sqrt() / s);
            c.ev(2 * n);
            rate_test("baseband QPSK", count(&rx, &msg), p * n as f64, p * (1.0 - p) * n as f64, n)
        })
        .small(2),
        group("cdma", 60, 700, move |c| {
            let qpsk = c.idx % 2 == 1;
            let key = any_key(&mut c.rng, 32);
            let r = cdma_rates(&mut c.rng, key.len(), 5);
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let n = 2 * nbits(c, r.sps);
            let msg = rand_bits(&mut c.rng, n);
            let x = c.rng.uniform(0.2, 2.6);
            let s = (r.sps as f64 / 2.0).sqrt() / x;
            c.desc(format!("qpsk={qpsk} fs={} sr={} sps={} f={f} sigma={s} key={} bits={n}", r.fs, r.sr, r.sps, show(&key)));
            let rx: Vec<Bit> = if qpsk {
                rx_cdma_qpsk_signal(awgn(tx_cdma_qpsk_signal(msg.iter().cloned(), r.fs, r.sr, f, &key), s), r.fs, r.sr, f, &key).collect()
            } else {
                rx_cdma_bpsk_signal(awgn(tx_cdma_bpsk_signal(msg.iter().cloned(), r.fs, r.sr, f, &key), s), r.fs, r.sr, f, &key).collect()
            };
            ensure!(rx.len() == n, "{} bits received of {n}", rx.len());
            let p = q(x);
            c.ev(n);
            rate_test("CDMA", count(&rx, &msg), p * n as f64, p * (1.0 - p) * n as f64, n)
        })
        .small(2),
        group("frequency-hopping", 50, 500, move |c| {
            let sps = c.rng.range(4, 30);
            let sr = c.rng.pick(&[1usize, 100, 900]);
            let fs = sps * sr;
            let nyq = (fs / 2) as f64;
            let (lo, hi) = (c.rng.uniform(0.0, 0.4) * nyq, c.rng.uniform(0.6, 1.0) * nyq);
            let num = c.rng.range(1, 20);
            let n = (nbits(c, sps) / num).max(1) * num;
            let msg = rand_bits(&mut c.rng, n);
            let s = (sps as f64 / 2.0).sqrt() / c.rng.uniform(0.2, 2.6);
            c.desc(format!("fs={fs} sr={sr} sps={sps} low={lo} high={hi} num={num} sigma={s} bits={n}"));
            let rx: Vec<Bit> = rx_fh_bpsk_signal(awgn(tx_fh_bpsk_signal(msg.iter().cloned(), lo, hi, num, fs, sr), s), lo, hi, num, fs, sr).collect();
            ensure!(rx.len() == n, "{} bits received of {n}", rx.len());
            // Each block of hops uses every frequency once.
            let (mut m, mut v) = (0.0, 0.0);
            for i in 0..num {
                let f = lo + i as f64 * (hi - lo) / num as f64;
                let e: f64 = (0..sps).map(|j| cyc(f, j, fs).cos().powi(2)).sum();
                let p = q(e.sqrt() / s);
                m += p * (n / num) as f64;
                v += p * (1.0 - p) * (n / num) as f64;
            }
            c.ev(n);
            rate_test("frequency-hopped BPSK", count(&rx, &msg), m, v, n)
        })
        .small(2),
        group("ofdm", 50, 500, move |c| {
            let n = 2 + c.rng.below(70);
            let nulls = 1 + c.rng.below(n - 1);
            let sps = c.rng.range(2, 8);
            let r = Rates { fs: sps * 1000, sr: 1000, sps };
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let k = n - nulls;
            let groups = (c.size(60, 2000, if c.scale >= 3 { 6_000_000 } else { 1_500_000 }) / (sps * n * 5 / 4)).max(1);
            let bitsn = groups * k * 2;
            let msg = rand_bits(&mut c.rng, bitsn);
            let x = c.rng.uniform(0.2, 2.6);
            let s = (sps as f64 / n as f64).sqrt() / x;
            c.desc(format!("N={n} nulls={nulls} sps={sps} f={f} sigma={s} bits={bitsn}"));
            let rx: Vec<Bit> = rx_ofdm_qpsk_signal(awgn(tx_ofdm_qpsk_signal(msg.iter().cloned(), n, nulls, r.fs, r.sr, f), s), n, nulls, r.fs, r.sr, f).collect();
            ensure!(rx.len() == bitsn, "{} bits received of {bitsn}", rx.len());
            let p = q(x);
            c.ev(bitsn);
            rate_test("OFDM-QPSK", count(&rx, &msg), p * bitsn as f64, p * (1.0 - p) * bitsn as f64, bitsn)
        })
        .small(2),
        group("fsk", 50, 500, move |c| {
            let sps = 45 + c.rng.below(90);
            let sr = c.rng.pick(&[1usize, 100, 900]);
            let m = c.rng.range(1, sps / 45);
            let r = Rates { fs: sps * sr, sr, sps };
            let fc = (20 * m * sr) as f64;
            let n = nbits(c, sps);
            let msg = rand_bits(&mut c.rng, n);
            let x = c.rng.uniform(0.3, 3.0);
            let s = (sps as f64 / 8.0 / x).sqrt();
            c.desc(format!("fs={} sr={} sps={sps} fc={fc} sigma={s} bits={n}", r.fs, r.sr));
            let rx: Vec<Bit> = rx_fsk(awgn(tx_fsk(msg.iter().cloned(), r.fs, r.sr, fc), s), r.fs, r.sr, fc).collect();
            ensure!(rx.len() == n, "{} bits received of {n}", rx.len());
            let p = 0.5 * (-x).exp();
            for b in [true, false] {
                let k = msg.iter().filter(|&&m| m == b).count();
                let err = (0..n).filter(|&i| msg[i] == b && rx[i] != b).count();
                rate_test(&format!("FSK, bits {b}"), err, p * k as f64, p * (1.0 - p) * k as f64, k)?;
            }
            c.ev(n);
            Ok(())
        })
        .small(2),
        group("ber-function", 4000, 60_000, |c| {
            let (n, m) = (1 + any_len(c, 20, 100, 3000), 1 + any_len(c, 20, 100, 3000));
            let (n, m) = if n > 60_000 && c.rng.bool() { (n, n - c.rng.below(3)) } else { (n, m) };
            let a = bits(&mut c.rng, n);
            let mut b = bits(&mut c.rng, m);
            if c.rng.bool() {
                for i in 0..n.min(m) {
                    b[i] = a[i] ^ c.rng.chance(0.05);
                }
            }
            c.desc(format!("tx={} rx={}", show(&a), show(&b)));
            let k = n.min(m);
            let want = count(&a[..k], &b[..k]) as f64 / k as f64;
            let got = ber(&a, &b);
            c.ev(1);
            ensure!((got - want).abs() <= 1e-12, "ber of {n} and {m} bits is {got}, expected {want}");
            Ok(())
        })
        .tiny(2),
    ]
}

pub fn c20() -> Vec<Group> {
    vec![
        group("energy", 3000, 40_000, |c| {
            let n = 1 + any_len(c, 20, 100, 3000);
            let a = 10f64.powf(c.rng.uniform(-5.0, 5.0));
            let k = c.rng.below(8);
            let gap = 1 + c.rng.below(40);
            let sig: Vec<f64> = (0..n)
                .map(|i| {
                    let x = c.rng.normal();
                    a * match k {
                        // Silence, gaps, a constant, few values, one sample that matters.
                        0 => 0.0,
                        1 if i / gap % 2 == 0 => 0.0,
                        2 => 1.0,
                        3 => x.round(),
                        4 if i % gap > 0 => 0.0,
                        5 if i > 0 => 1e-3 * x,
                        _ => x,
                    }
                })
                .collect();
            let fs = c.rng.pick(&[1.0, 44_100.0, 1e6, 0.5, 8000.0]) * c.rng.pick(&[1.0, 1.0, 1.37]);
            c.desc(format!("n={n} a={a:e} fs={fs} kind={k}"));
            let sq: f64 = sig.iter().map(|x| x * x).sum();
            let near = |what: &str, got: f64, want: f64| -> R {
                ensure!((got - want).abs() <= 1e-10 * want.abs(), "{what} of {n} samples is {got:e}, expected {want:e}");
                Ok(())
            };
            c.ev(3);
            near("energy", energy(sig.iter().cloned(), fs), sq / fs)?;
            near("power", power(sig.iter().cloned(), fs), sq / fs / n as f64)?;
            near("average energy", avg_energy(&sig), sq / n as f64)
        })
        .tiny(2),
        group("decibels", 3000, 40_000, |c| {
            let x = 10f64.powf(c.rng.uniform(-280.0, 280.0));
            let d = c.rng.uniform(-2800.0, 2800.0);
            let k = c.rng.below(601) as i32 - 300;
            c.desc(format!("x={x:e} dB={d} k={k}"));
            c.ev(6);
            let d10 = |x: f64| (10.0 * x.log10()).abs().max(1.0);
            ensure!((undb(db(x)) - x).abs() <= 1e-10 * x, "undb(db({x:e})) = {:e}", undb(db(x)));
            ensure!((db(undb(d)) - d).abs() <= 1e-9, "db(undb({d})) = {}", db(undb(d)));
            ensure!((db(10f64.powi(k)) - 10.0 * k as f64).abs() <= 1e-9, "db(1e{k}) = {}", db(10f64.powi(k)));
            ensure!((undb(10.0 * k as f64) / 10f64.powi(k) - 1.0).abs() <= 1e-10, "undb({}) = {:e}", 10 * k, undb(10.0 * k as f64));
            ensure!((db(x) - 10.0 * x.log10()).abs() <= 1e-13 * d10(x), "db({x:e}) = {}", db(x));
            // Powers of ten are whole decibels, to the last bit.
            let j = c.rng.below(45) as i32 - 22;
            let p10: f64 = format!("1e{j}").parse().unwrap();
            ensure!(db(p10) == 10.0 * j as f64, "db(1e{j}) = {:?}, not {}", db(p10), 10 * j);
            ensure!((undb(10.0 * j as f64) / p10 - 1.0).abs() <= 1e-15, "undb({}) = {:e}", 10 * j, undb(10.0 * j as f64));
            Ok(())
        })
        .tiny(2),
        group("error-function", 3000, 40_000, |c| {
            let x = match c.rng.below(4) {
                0 => c.rng.uniform(-0.1, 0.1),
                1 => c.rng.uniform(-30.0, 30.0),
                2 => c.rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e10, -1e10, 6.0]),
                _ => c.rng.uniform(-4.0, 4.0),
            };
            c.desc(format!("x={x:e}"));
            c.ev(4);
            let e = 1.0 - erfc_ref(x);
            ensure!((erf(x) - e).abs() <= 2e-7, "erf({x}) = {}, expected {e}", erf(x));
            ensure!((erfc(x) - (1.0 - e)).abs() <= 2e-7, "erfc({x}) = {}, expected {}", erfc(x), 1.0 - e);
            ensure!((erf(x) + erfc(x) - 1.0).abs() <= 1e-12, "erf and erfc of {x} are no complements");
            ensure!(x == 0.0 || (erf(-x) + erf(x)).abs() <= 1e-12, "erf is not odd at {x}");
            Ok(())
        })
        .tiny(2),
        // A dense sweep of the error function.
        group("error-function-sweep", 40, 400, |c| {
            let m = c.size(20, 200, 10_000);
            let lo = (c.idx % 40) as f64 * 0.2 - 4.0;
            let off = c.rng.f64();
            c.desc(format!("from {lo} offset {off}"));
            for i in 0..m {
                let x = lo + 0.2 * (i as f64 + off) / m as f64;
                let e = 1.0 - erfc_ref(x);
                ensure!((erf(x) - e).abs() <= 2e-7, "erf({x}) = {}, expected {e}", erf(x));
                ensure!((erfc(x) - (1.0 - e)).abs() <= 2e-7, "erfc({x}) = {}, expected {}", erfc(x), 1.0 - e);
            }
            c.ev(2 * m);
            Ok(())
        })
        .small(4),
        group("grids", 3000, 40_000, |c| {
            let n = any_len(c, 20, 100, 2000);
            let (a, b) = (c.rng.normal() * 100.0, c.rng.normal() * 100.0);
            let b = if c.rng.chance(0.1) { a } else { b };
            c.desc(format!("n={n} a={a} b={b}"));
            let got = take_all(linspace(a, b, n), n);
            let want: Vec<f64> = (0..n).map(|i| a + (b - a) * i as f64 / n as f64).collect();
            close("linspace", &got, &want, 1e-10 * (1.0 + a.abs() + b.abs()))?;
            let want: Vec<f64> = (0..n).map(|i| 0.54 - 0.46 * (2.0 * std::f64::consts::PI * i as f64 / n as f64).cos()).collect();
            close("hamming_window", &hamming_window(n), &want, 1e-12)?;
            let got = hamming_window_complex(n);
            cclose("hamming_window_complex", &got, &want.iter().map(|&x| C64::new(x, 0.0)).collect::<Vec<_>>(), 1e-12)?;
            ensure!(bit_to_nrz(true) == 1.0 && bit_to_nrz(false) == -1.0, "bit_to_nrz");
            c.ev(3 * n + 2);
            Ok(())
        })
        .tiny(2),
    ]
}
