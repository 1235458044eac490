//! C10-C13: FSK, FM, chaos, FH-OFDM-DCSK.
use crate::core::*;
use crate::ensure;
use crate::hop::block_discipline;
use crate::psk::gain;
use crate::util::*;
use komunikilo::chaos::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use std::f64::consts::PI;

fn tones(msg: &[Bit], r: Rates, hi: f64, lo: f64) -> Vec<f64> {
    (0..msg.len() * r.sps).map(|i| cyc(if msg[i / r.sps] { hi } else { lo }, i, r.fs).cos()).collect()
}

pub fn c10() -> Vec<Group> {
    fn tone_case(c: &mut Case, r: Rates, n: usize) -> R {
        let kind = c.idx % 4;
        let nyq = (r.fs / 2) as f64;
        let (mut lo, mut hi) = (carrier(&mut c.rng, r), carrier(&mut c.rng, r));
        if lo > hi {
            std::mem::swap(&mut lo, &mut hi);
        }
        if kind == 2 && c.rng.bool() {
            std::mem::swap(&mut lo, &mut hi);
        }
        let msg = bits(&mut c.rng, n);
        let m = n * r.sps;
        let num = c.rng.range(1, 20);
        c.desc(format!("{} fs={} sr={} sps={} lo={lo} hi={hi} num={num} msg={}", ["bfsk", "mfsk", "fsk-list", "fsk-centred"][kind as usize], r.fs, r.sr, r.sps, show(&msg)));
        let got = match kind {
            0 => take_all(tx_bfsk_signal(src(&msg), r.fs, r.sr, lo, hi), m),
            1 => take_all(tx_mfsk_signal(src(&msg), r.fs, r.sr, lo, hi, num), m),
            2 => {
                let extra = c.rng.uniform(0.0, nyq);
                let list = if c.rng.bool() { vec![hi, lo] } else { vec![hi, lo, extra] };
                take_all(tx_fsk_signal(src(&msg), r.fs, r.sr, &list), m)
            }
            _ => {
                let fc = hi / 1.05;
                lo = fc * 0.975;
                hi = fc * 1.025;
                take_all(tx_fsk(src(&msg), r.fs, r.sr, fc), m)
            }
        };
        let want = tones(&msg, r, hi, lo);
        c.ev(m);
        close("tone", &got, &want, phase_tol(nyq, m, r.fs) + 1e-7)
    }
    fn loop_case(c: &mut Case, r: Rates, fc: f64, n: usize) -> R {
        let msg = bits(&mut c.rng, n);
        let g = gain(&mut c.rng).clamp(1e-100, 1e100);
        c.desc(format!("fs={} sr={} sps={} fc={fc} gain={g:e} msg={}", r.fs, r.sr, r.sps, show(&msg)));
        let tx: Vec<f64> = take_all(tx_fsk(src(&msg), r.fs, r.sr, fc), n * r.sps).into_iter().map(|x| x * g).collect();
        ensure!(tx.len() == n * r.sps, "{} samples, expected {}", tx.len(), n * r.sps);
        let rx = take_all(rx_fsk(src(&tx), r.fs, r.sr, fc), n);
        ensure!(rx.len() == n, "{} bits received, expected {n}", rx.len());
        let (hi, lo) = (fc * 1.025, fc * 0.975);
        for k in 0..n {
            // Energies of this symbol at either tone.
            let f = if msg[k] { hi } else { lo };
            let (mut own, mut oth) = ((0.0, 0.0), (0.0, 0.0));
            let o = if msg[k] { lo } else { hi };
            for i in k * r.sps..(k + 1) * r.sps {
                let x = cyc(f, i, r.fs).cos();
                let (s, co) = cyc(f, i, r.fs).sin_cos();
                own.0 += x * co;
                own.1 += x * s;
                let (s, co) = cyc(o, i, r.fs).sin_cos();
                oth.0 += x * co;
                oth.1 += x * s;
            }
            let (own, oth) = (own.0 * own.0 + own.1 * own.1, oth.0 * oth.0 + oth.1 * oth.1);
            if own > oth * 1.001 + 1e-4 * (r.sps * r.sps) as f64 {
                ensure!(rx[k] == msg[k], "bit {k}: sent {} received {} (tone energies {own:e} against {oth:e})", msg[k], rx[k]);
                c.ev(1);
            }
        }
        Ok(())
    }
    vec![
        group("tones", 4000, 80_000, |c| {
            let r = rates(&mut c.rng, 130);
            let max = c.size(8, 40, 20_000 / r.sps + 2);
            let n = msg_len(&mut c.rng, max);
            tone_case(c, r, n)
        })
        .tiny(4),
        group("long-tones", 12, 120, |c| {
            let sps = c.rng.pick(&[1usize, 2, 4, 10, 49]);
            let sr = c.rng.pick(&[900usize, 1000]);
            let r = Rates { fs: sps * sr, sr, sps };
            let n = c.size(10, 500, 1_100_000) / sps;
            tone_case(c, r, n)
        })
        .small(1),
        group("huge-symbols", 12, 120, |c| {
            let r = huge_rates(c);
            let n = 2 + c.rng.below(4);
            if c.idx % 3 == 2 {
                let fc = c.rng.uniform((r.fs as f64) * 0.01, r.fs as f64 / 2.06);
                loop_case(c, r, fc, n)
            } else {
                tone_case(c, r, n)
            }
        })
        .small(1),
        group("receiver", 2500, 50_000, |c| {
            // Orthogonal tones half of the time: separation a multiple of the symbol rate.
            let sps = 45 + c.rng.below(400);
            let sr = c.rng.pick(&[1usize, 10, 100, 900]);
            let r = Rates { fs: sps * sr, sr, sps };
            let nyq = (r.fs / 2) as f64;
            let fc = if c.rng.bool() {
                let m = c.rng.range(1, (sps / 45).max(1));
                (m * sr) as f64 * 20.0
            } else {
                c.rng.uniform(nyq * 0.1, nyq / 1.03)
            };
            let max = c.size(2, 5, 60_000 / sps);
            let n = 1 + c.rng.below(max);
            loop_case(c, r, fc, n)
        })
        .tiny(2),
        // On any signal at all the receiver decides for the tone holding more energy.
        group("energy-receiver", 2000, 40_000, |c| {
            let r = rates(&mut c.rng, 130);
            let fc = c.rng.uniform((r.fs as f64) * 0.01, (r.fs / 2).max(1) as f64 / 1.03);
            let nsym = 1 + c.rng.below(c.size(4, 20, 20_000 / r.sps + 1));
            let g = gain(&mut c.rng).clamp(1e-100, 1e100);
            let kind = c.rng.below(3);
            let mut sig: Vec<f64> = (0..nsym * r.sps).map(|_| if kind == 2 { 0.0 } else { g * c.rng.normal() }).collect();
            for k in 0..nsym {
                let (ph, f, a) = (c.rng.uniform(0.0, 7.0), fc * c.rng.uniform(0.95, 1.05), g * c.rng.uniform(0.0, 2.0));
                match kind {
                    // a tone somewhere near the two, and noise
                    0 => (k * r.sps..(k + 1) * r.sps).for_each(|i| sig[i] = 0.2 * sig[i] + a * (cyc(f, i, r.fs) + ph).cos()),
                    1 => {}
                    // a few samples
                    _ => (0..1 + c.rng.below(4)).for_each(|_| {
                        let j = k * r.sps + c.rng.below(r.sps);
                        sig[j] = g * c.rng.normal();
                    }),
                }
            }
            c.desc(format!("fs={} sr={} sps={} fc={fc} kind={kind} gain={g:e} nsym={nsym} x0={}", r.fs, r.sr, r.sps, sig[0]));
            let rx = take_all(rx_fsk(src(&sig), r.fs, r.sr, fc), nsym);
            ensure!(rx.len() == nsym, "{} bits for {nsym} symbols", rx.len());
            for k in 0..nsym {
                let mut e = [0.0, 0.0];
                let mut p = 0.0;
                for (q, f) in [fc * 1.025, fc * 0.975].into_iter().enumerate() {
                    let (mut a, mut b) = (0.0, 0.0);
                    p = 0.0;
                    for i in 0..r.sps {
                        let x = sig[k * r.sps + i] / g;
                        let (s, co) = cyc(f, i, r.fs).sin_cos();
                        a += x * co;
                        b += x * s;
                        p += x.abs();
                    }
                    e[q] = a * a + b * b;
                }
                if (e[0] - e[1]).abs() > 1e-6 * p * p {
                    ensure!(rx[k] == (e[0] > e[1]), "symbol {k}: energies {:e} at the high and {:e} at the low tone decided as {}", e[0], e[1], rx[k]);
                    c.ev(1);
                }
            }
            Ok(())
        })
        .tiny(2),
        group("receiver-long", 6, 60, |c| {
            let (sps, sr) = (50usize, 100usize);
            let r = Rates { fs: sps * sr, sr, sps };
            let n = c.size(3, 20, 20_000);
            loop_case(c, r, 2000.0, n)
        })
        .small(1),
    ]
}

pub fn c11() -> Vec<Group> {
    fn one(c: &mut Case, r: Rates, n: usize) -> R {
        let f = carrier(&mut c.rng, r);
        let amp = gain(&mut c.rng).clamp(1e-6, 1e3);
        let kind = c.rng.below(4);
        let w = c.rng.uniform(0.0, 1.0);
        let msg: Vec<f64> = (0..n)
            .map(|i| match kind {
                0 => amp * (w * i as f64).cos(),
                1 => amp * c.rng.normal(),
                2 => amp * nrz(c.rng.bool()),
                _ => 0.0,
            })
            .collect();
        c.desc(format!("fs={} sr={} sps={} f={f} kind={kind} amp={amp:e} w={w} n={n}", r.fs, r.sr, r.sps));
        let m = n * r.sps;
        let got = take_all(tx_fm(src(&msg), r.fs, r.sr, f), m);
        let mut sum = 0.0;
        let mut abs: f64 = 0.0;
        let want: Vec<f64> = (0..m)
            .map(|i| {
                sum += msg[i / r.sps];
                abs = abs.max(f64::abs(sum));
                (cyc(f, i, r.fs) + 0.05 * sum).cos()
            })
            .collect();
        c.ev(m);
        // Room for the sum to be accumulated in another order.
        let tol = phase_tol(f, m, r.fs) + 1e-7 + abs * 0.05 * 1e-13 * (m as f64).sqrt().max(10.0);
        close("FM signal", &got, &want, tol)
    }
    vec![
        group("fm", 4000, 80_000, |c| {
            let r = rates(&mut c.rng, 130);
            let max = c.size(8, 40, 20_000 / r.sps + 2);
            let n = msg_len(&mut c.rng, max);
            one(c, r, n)
        })
        .tiny(3),
        group("long", 10, 100, |c| {
            let sps = c.rng.pick(&[1usize, 2, 10, 49]);
            let r = Rates { fs: sps * 900, sr: 900, sps };
            let n = c.size(10, 500, 1_100_000) / sps;
            one(c, r, n)
        })
        .small(1),
        group("huge-symbols", 8, 100, |c| {
            let r = huge_rates(c);
            let n = 2 + c.rng.below(4);
            one(c, r, n)
        })
        .small(1),
    ]
}

pub fn c12() -> Vec<Group> {
    fn orbit(what: &str, xs: impl Iterator<Item = f64>, x0: f64, n: usize, lo: f64, hi: f64, map: impl Fn(f64) -> f64) -> R {
        let mut prev = x0;
        let mut count = 0;
        for (i, x) in xs.take(n).enumerate() {
            ensure!(x >= lo - 1e-12 && x <= hi + 1e-12, "{what}: value {i} is {x:e}, outside [{lo}, {hi}]");
            let want = map(prev);
            ensure!((x - want).abs() <= 1e-12, "{what}: value {i} is {x}, but the map takes {prev} to {want}");
            prev = x;
            count += 1;
        }
        ensure!(count == n, "{what}: ended after {count} values");
        Ok(())
    }
    vec![
        group("logistic", 600, 10_000, |c| {
            let mu = match c.rng.below(4) {
                0 => 4.0,
                1 => c.rng.pick(&[0.0, 1.0, 2.0, 3.0, 3.57, 3.9, 3.99]),
                _ => c.rng.uniform(0.0, 4.0),
            };
            let x0 = match c.rng.below(5) {
                0 => c.rng.pick(&[0.0, 1.0, 0.5, 0.25, 0.75]),
                _ => c.rng.f64(),
            };
            let n = if c.idx % 50 == 0 { c.size(20, 1000, 300_000) } else { c.size(20, 200, 5000) };
            c.desc(format!("mu={mu} x0={x0} n={n}"));
            c.ev(n);
            ensure!((logistic_map(mu, x0) - mu * x0 * (1.0 - x0)).abs() <= 1e-12, "logistic_map({mu}, {x0}) = {}", logistic_map(mu, x0));
            orbit("logistic map", LogisticMap::new(mu, x0), x0, n, 0.0, 1.0, |x| mu * x * (1.0 - x))
        })
        .tiny(2),
        group("chebyshev", 600, 10_000, |c| {
            let x0 = match c.rng.below(5) {
                0 => c.rng.pick(&[-1.0, 1.0, 0.0, 0.5, -0.5, -1.0 + 1e-15, 1.0 - 1e-15]),
                _ => c.rng.uniform(-1.0, 1.0),
            };
            let n = if c.idx % 50 == 0 { c.size(20, 1000, 300_000) } else { c.size(20, 200, 5000) };
            c.desc(format!("x0={x0} n={n}"));
            c.ev(n);
            ensure!((chebyshev(x0) - (1.0 - 2.0 * x0 * x0)).abs() <= 1e-12, "chebyshev({x0}) = {}", chebyshev(x0));
            orbit("Chebyshev map", Chebyshev::new(x0), x0, n, -1.0, 1.0, |x| 1.0 - 2.0 * x * x)
        })
        .tiny(2),
        group("tent-bernoulli", 3000, 60_000, |c| {
            let x0 = if c.rng.chance(0.2) { c.rng.pick(&[-1.0, 1.0, 0.0, 0.5, -0.5]) } else { c.rng.uniform(-1.0, 1.0) };
            let mt = if c.rng.chance(0.2) { 1.0 } else { c.rng.f64() };
            let mb = if c.rng.chance(0.2) { 2.0 } else { c.rng.uniform(0.0, 2.0) };
            c.desc(format!("x0={x0} tent={mt} bernoulli={mb}"));
            let (mut t, mut b) = (x0, x0);
            for i in 0..c.size(5, 10, 50) {
                let wt = 2.0 * mt * (1.0 - t.abs()) - 1.0;
                let gt = tent_map(mt, t);
                ensure!((gt - wt).abs() <= 1e-12 && gt.abs() <= 1.0 + 1e-12, "step {i}: tent_map({mt}, {t}) = {gt}, expected {wt}");
                let wb = if b < 0.0 { mb * b + 1.0 } else { mb * b - 1.0 };
                let gb = bernoulli_map(mb, b);
                ensure!((gb - wb).abs() <= 1e-12 && gb.abs() <= 1.0 + 1e-12, "step {i}: bernoulli_map({mb}, {b}) = {gb}, expected {wb}");
                t = gt;
                b = gb;
                c.ev(2);
            }
            Ok(())
        })
        .tiny(1),
        group("csk", 600, 10_000, |c| {
            let n = if c.idx % 100 == 0 { c.size(20, 500, 100_000) } else { let m = c.size(20, 200, 3000); msg_len(&mut c.rng, m) };
            let msg = bits(&mut c.rng, n);
            c.desc(show(&msg));
            let tx = take_all(tx_baseband_csk(src(&msg)), n);
            let one = take_all(tx_baseband_csk(src(&vec![true; n])), n);
            let zero = take_all(tx_baseband_csk(src(&vec![false; n])), n);
            ensure!(tx.len() == n && one.len() == n && zero.len() == n, "{} values for {n} bits", tx.len());
            let mut apart = 0;
            for i in 0..n {
                let want = if msg[i] { one[i] } else { zero[i] };
                ensure!(tx[i] == want, "value {i} is {}, but an all-{} message sends {want}", tx[i], msg[i]);
                if (one[i] - zero[i]).abs() > 1e-4 {
                    apart += 1;
                }
            }
            ensure!(apart * 100 >= n * 95, "the two sequences are apart at only {apart} of {n} places");
            for (what, s) in [("sequence for 1", &one), ("sequence for 0", &zero)] {
                if let Some(&x0) = s.first() {
                    orbit(what, s[1..].iter().cloned(), x0, n - 1, 0.0, 1.0, |x| 3.9 * x * (1.0 - x))?;
                }
            }
            c.ev(3 * n);
            Ok(())
        })
        .tiny(2),
        group("dcsk", 800, 15_000, |c| {
            let n = if c.idx % 100 == 0 { c.size(20, 500, 100_000) } else { let m = c.size(20, 200, 3000); msg_len(&mut c.rng, m) };
            let msg = bits(&mut c.rng, n);
            let g = gain(&mut c.rng).clamp(1e-150, 1e150);
            c.desc(format!("gain={g:e} {}", show(&msg)));
            let tx = take_all(tx_baseband_dcsk(src(&msg)), 2 * n);
            ensure!(tx.len() == 2 * n, "{} values for {n} bits", tx.len());
            for i in 0..n {
                ensure!((tx[2 * i + 1] - tx[2 * i] * nrz(msg[i])).abs() <= 1e-12, "bit {i} ({}) sent as {} after reference {}", msg[i], tx[2 * i + 1], tx[2 * i]);
            }
            let refs: Vec<f64> = tx.iter().step_by(2).cloned().collect();
            if let Some(&x0) = refs.first() {
                orbit("reference", refs[1..].iter().cloned(), x0, n - 1, 0.0, 1.0, |x| 3.9 * x * (1.0 - x))?;
            }
            let chan: Vec<f64> = tx.iter().map(|x| x * g).collect();
            let rx = take_all(rx_baseband_dcsk(src(&chan)), n);
            c.ev(3 * n);
            same_bits("loopback", &rx, &msg)
        })
        .tiny(2),
        // The receiver correlates the two halves, whatever they are.
        group("dcsk-receiver", 400, 8_000, |c| {
            let n = c.size(10, 100, 1000);
            let kind = c.rng.below(3);
            let sig: Vec<f64> = (0..2 * n)
                .map(|_| match kind {
                    0 => c.rng.normal(),
                    1 => c.rng.normal() * 10f64.powf(c.rng.uniform(-12.0, 12.0)),
                    _ => c.rng.pick(&[-1.0, 1.0, -0.5, 1e-9, -1e-9, 0.25]),
                })
                .collect();
            c.desc(format!("kind={kind} n={n} x={:?}", &sig[..4]));
            let want: Vec<Bit> = sig.chunks(2).map(|p| (p[0] > 0.0) == (p[1] > 0.0)).collect();
            let got = take_all(rx_baseband_dcsk(src(&sig)), n);
            c.ev(n);
            same_bits("decisions on the sign of the correlation", &got, &want)
        }),
    ]
}

/// Whether every item can be given one of its own choices.
fn matching(choices: &[Vec<usize>], num: usize) -> bool {
    fn place(k: usize, choices: &[Vec<usize>], holder: &mut [Option<usize>], seen: &mut [bool]) -> bool {
        for &q in &choices[k] {
            if !seen[q] {
                seen[q] = true;
                if holder[q].is_none_or(|h| place(h, choices, holder, seen)) {
                    holder[q] = Some(k);
                    return true;
                }
            }
        }
        false
    }
    let mut holder = vec![None; num];
    (0..choices.len()).all(|k| place(k, choices, &mut holder, &mut vec![false; num]))
}

pub fn c13() -> Vec<Group> {
    fn baseband(c: &mut Case, n: usize) -> R {
        let msg = bits(&mut c.rng, n);
        c.desc(show(&msg));
        let tx = take_all(tx_baseband_fh_ofdm_dcsk_signal(src(&msg)), 10 * (n / 7 + 1));
        ensure!(tx.len() % 10 == 0, "{} samples are no whole frames of ten", tx.len());
        let frames = tx.len() / 10;
        ensure!(frames >= n.div_ceil(7) && frames <= n.div_ceil(7) + 1, "{frames} frames for {n} bits");
        for (k, fr) in tx.chunks(10).enumerate() {
            for (i, x) in fr.iter().enumerate() {
                ensure!(x.re.is_finite() && x.im.is_finite() && x.norm() <= 1.0 + 1e-9, "frame {k} sample {i} is {x}");
            }
            for i in 0..2 {
                ensure!((fr[i] - fr[i + 8]).norm() <= 1e-9, "frame {k}: prefix sample {i} is {} but the tail holds {}", fr[i], fr[i + 8]);
            }
        }
        // Differential: neither the gain nor the phase of the channel matters.
        let g = C64::from_polar(gain(&mut c.rng).clamp(1e-140, 1e140), c.rng.pick(&[0.0, 0.0, 0.5 * PI, PI, 0.3, -1.1, 2.0]));
        c.desc(format!(" channel={g:e}"));
        let chan: Vec<C64> = tx.iter().map(|x| x * g).collect();
        let rx = take_all(rx_baseband_fh_ofdm_dcsk_signal(src(&chan)), 7 * frames);
        ensure!(rx.len() >= n && rx.len() <= 7 * frames, "{} bits received for {n} sent in {frames} frames", rx.len());
        c.ev(tx.len() + n);
        same_bits("loopback", &rx[..n], &msg)
    }
    vec![
        group("baseband", 2500, 40_000, |c| {
            let max = c.size(20, 100, 3000);
            let n = msg_len(&mut c.rng, max);
            baseband(c, n)
        })
        .tiny(3),
        group("lengths", 200, 200, |c| {
            let n = c.idx as usize;
            baseband(c, n)
        }),
        group("long", 4, 40, |c| {
            let n = c.size(20, 300, 300_000) + c.rng.below(14);
            baseband(c, n)
        })
        .small(1),
        group("shuffle", 60, 600, |c| {
            // One zero in each frame, always at the same place in the message:
            // where does its subcarrier go?
            let p = (c.idx % 7) as usize;
            let frames = c.size(6, 20, 100);
            let msg: Vec<Bit> = (0..7 * frames).map(|i| i % 7 != p).collect();
            let all = vec![true; 7 * frames];
            c.desc(format!("position {p}, {frames} frames"));
            let a = take_all(tx_baseband_fh_ofdm_dcsk_signal(src(&msg)), 10 * frames + 10);
            let b = take_all(tx_baseband_fh_ofdm_dcsk_signal(src(&all)), 10 * frames + 10);
            ensure!(a.len() == b.len() && a.len() >= 10 * frames, "{} and {} samples", a.len(), b.len());
            let mut places = std::collections::HashSet::new();
            for k in 0..frames {
                let d: Vec<C64> = (2..10).map(|i| a[10 * k + i] - b[10 * k + i]).collect();
                let spec = dft(&d, -1.0);
                let hot: Vec<usize> = (0..8).filter(|&i| spec[i].norm() > 1e-6).collect();
                ensure!(hot.len() == 1, "frame {k}: one bit touches subcarriers {hot:?}");
                places.insert(hot[0]);
                c.ev(8);
            }
            if frames >= 50 {
                ensure!(places.len() >= 5, "in {frames} frames the bit only ever used subcarriers {places:?}");
            }
            Ok(())
        }),
        group("passband", 1500, 30_000, |c| {
            let r = if c.scale > 1 && c.rng.chance(0.004) { huge_rates(c) } else { rates(&mut c.rng, 60) };
            let max = c.size(7, 40, 8000 / (r.sps * 2) + 8);
            let n = msg_len(&mut c.rng, max);
            let msg = bits(&mut c.rng, n);
            let base = take_all(tx_baseband_fh_ofdm_dcsk_signal(src(&msg)), 10 * (n / 7 + 1));
            let m = base.len() * r.sps;
            if c.idx % 2 == 0 {
                let f = carrier(&mut c.rng, r);
                c.desc(format!("carrier fs={} sr={} sps={} f={f} msg={}", r.fs, r.sr, r.sps, show(&msg)));
                let got = take_all(tx_fh_ofdm_dcsk_signal_2(src(&msg), r.fs, r.sr, f), m);
                let want: Vec<f64> = (0..m).map(|i| (base[i / r.sps] * C64::from_polar(1.0, -cyc(f, i, r.fs))).re).collect();
                c.ev(m);
                close("passband signal", &got, &want, phase_tol(f, m, r.fs) + 1e-7)
            } else {
                let nyq = (r.fs / 2) as f64;
                let low = c.rng.uniform(0.0, nyq * 0.3);
                let high = c.rng.uniform(nyq * 0.6, nyq);
                let num = if c.rng.chance(0.8) { c.rng.range(1, 24) } else { 1 + base.len() / (1 + c.rng.below(3)) };
                c.desc(format!("hopping fs={} sr={} sps={} low={low} high={high} num={num} msg={}", r.fs, r.sr, r.sps, show(&msg)));
                let got = take_all(tx_fh_ofdm_dcsk_signal(src(&msg), low, high, num, r.fs, r.sr), m);
                ensure!(got.len() == m, "{} samples, expected {m}", got.len());
                let freqs: Vec<f64> = (0..num).map(|i| low + i as f64 * (high - low) / num as f64).collect();
                let mut seq = vec![];
                for k in 0..base.len() {
                    let fits: Vec<usize> = (0..num)
                        .filter(|&q| {
                            (0..r.sps).all(|j| {
                                let i = k * r.sps + j;
                                let w = (base[k] * C64::from_polar(1.0, -2.0 * PI * (freqs[q] * i as f64 / r.fs as f64).fract())).re;
                                (w - got[i]).abs() < 1e-7
                            })
                        })
                        .collect();
                    ensure!(!fits.is_empty(), "baseband sample {k} is mixed with no hop frequency");
                    seq.push(fits);
                }
                c.ev(m);
                // A sample may look the same at several frequencies; some choice must visit each once per block.
                for (b, blk) in seq.chunks(num).enumerate() {
                    ensure!(matching(blk, num), "block {b} cannot have visited {} different ones of {num} frequencies", blk.len());
                    c.ev(blk.len());
                }
                if seq.iter().all(|f| f.len() == 1) {
                    block_discipline(&seq.iter().map(|f| f[0]).collect::<Vec<_>>(), num)?;
                    c.ev(seq.len());
                }
                Ok(())
            }
        })
        .tiny(2),
    ]
}
