//! C01-C03: BPSK and QPSK loopback and waveforms.
use crate::core::*;
use crate::ensure;
use crate::util::*;
use komunikilo::bpsk::*;
use komunikilo::qpsk::*;

/// Energy of the reference carrier over each whole symbol.
pub fn symbol_energy(r: Rates, f: f64, nsym: usize) -> Vec<f64> {
    (0..nsym)
        .map(|k| (k * r.sps..(k + 1) * r.sps).map(|i| cyc(f, i, r.fs).cos().powi(2)).sum())
        .collect()
}

/// (sum cos^2, sum sin^2, sum sin cos) over each whole symbol.
pub fn symbol_moments(r: Rates, f: f64, nsym: usize) -> Vec<(f64, f64, f64)> {
    (0..nsym)
        .map(|k| {
            let mut m = (0.0, 0.0, 0.0);
            for i in k * r.sps..(k + 1) * r.sps {
                let (s, c) = cyc(f, i, r.fs).sin_cos();
                m.0 += c * c;
                m.1 += s * s;
                m.2 += s * c;
            }
            m
        })
        .collect()
}

const MARGIN: f64 = 1e-5;

fn check_bpsk(c: &mut Case, r: Rates, f: f64, msg: &[Bit], gain: f64) -> R {
    c.desc(format!("fs={} sr={} sps={} f={f} gain={gain:e} msg={}", r.fs, r.sr, r.sps, show(msg)));
    let n = msg.len() * r.sps;
    let tx = take_all(tx_bpsk_signal(src(msg), r.fs, r.sr, f), n);
    ensure!(tx.len() == n, "{} samples for {} bits of {} samples", tx.len(), msg.len(), r.sps);
    let chan: Vec<f64> = tx.iter().map(|x| x * gain).collect();
    let rx = take_all(rx_bpsk_signal(src(&chan), r.fs, r.sr, f), msg.len());
    ensure!(rx.len() == msg.len(), "received {} bits of {}", rx.len(), msg.len());
    let e = symbol_energy(r, f, msg.len());
    let inv: Vec<f64> = chan.iter().map(|x| -x).collect();
    let rxi = take_all(rx_bpsk_signal(src(&inv), r.fs, r.sr, f), msg.len());
    for k in 0..msg.len() {
        if e[k] > MARGIN {
            ensure!(rx[k] == msg[k], "bit {k} of {} sent {} received {} (symbol energy {:e})", msg.len(), msg[k], rx[k], e[k]);
            ensure!(rxi.get(k) == Some(&!msg[k]), "inverted signal: bit {k} of {} is not inverted", msg.len());
            c.ev(2);
        }
    }
    Ok(())
}

pub fn gain(rng: &mut Rng) -> f64 {
    match rng.below(5) {
        0 | 1 => 1.0,
        2 => 10f64.powf(rng.uniform(-6.0, 6.0)),
        3 => 10f64.powf(rng.uniform(-250.0, 250.0)),
        _ => rng.pick(&[0.5, 1e-3, 1e3, 0.1, 3.0]),
    }
}

pub fn c01() -> Vec<Group> {
    vec![
        group("baseband", 1500, 20000, |c| {
            let n = msg_len(&mut c.rng, 3000);
            let msg = bits(&mut c.rng, n);
            c.desc(show(&msg));
            let tx = take_all(tx_baseband_bpsk_signal(src(&msg)), n);
            let want: Vec<C64> = msg.iter().map(|&b| C64::new(nrz(b), 0.0)).collect();
            cclose("tx_baseband_bpsk_signal", &tx, &want, 1e-12)?;
            let g = gain(&mut c.rng);
            let im = c.rng.uniform(-5.0, 5.0);
            let chan: Vec<C64> = tx.iter().map(|x| C64::new(x.re * g, im)).collect();
            let rx = take_all(rx_baseband_bpsk_signal(src(&chan)), n);
            c.ev(2 * n);
            same_bits("rx_baseband_bpsk_signal", &rx, &msg)
        })
        .tiny(3),
        group("passband", 2500, 60000, |c| {
            let r = rates(&mut c.rng, 130);
            let f = carrier(&mut c.rng, r);
            let max = c.size(12, 40, (40_000 / r.sps).max(1));
            let n = msg_len(&mut c.rng, max);
            let msg = bits(&mut c.rng, n);
            let g = gain(&mut c.rng);
            check_bpsk(c, r, f, &msg, g)
        })
        .tiny(4),
        // Every small rate against every short message.
        group("small-exhaustive", 130, 130, |c| {
            let sps = 1 + (c.idx as usize) % 13;
            let sr = [1, 7, 250][(c.idx as usize / 13) % 3];
            let r = Rates { fs: sps * sr, sr, sps };
            let f = carrier(&mut c.rng, r);
            for n in 0..=7usize {
                for m in 0..(1usize << n) {
                    let msg: Vec<Bit> = (0..n).map(|i| m >> i & 1 == 1).collect();
                    c.desc.clear();
                    check_bpsk(c, r, f, &msg, 1.0)?;
                }
            }
            Ok(())
        })
        .small(2),
        group("long-streams", 12, 120, |c| {
            let sps = c.rng.pick(&[1usize, 2, 3, 4, 8, 16, 49]);
            let sr = c.rng.pick(&[900usize, 1000, 9600, 1]);
            let r = Rates { fs: sps * sr, sr, sps };
            let f = carrier(&mut c.rng, r);
            let n = c.size(50, 2000, if c.idx % 4 == 0 { 1_300_000 } else { 300_000 }) / sps.min(8) + c.rng.below(50);
            let msg = rand_bits(&mut c.rng, n);
            check_bpsk(c, r, f, &msg, 1.0)
        })
        .small(1),
        group("huge-symbols", 10, 150, |c| {
            let r = huge_rates(c);
            let f = carrier(&mut c.rng, r);
            let n = 2 + c.rng.below(5);
            let msg = bits(&mut c.rng, n);
            let g = gain(&mut c.rng);
            check_bpsk(c, r, f, &msg, g)
        })
        .small(1),
    ]
}

fn check_qpsk(c: &mut Case, r: Rates, f: f64, msg: &[Bit], gain: f64) -> R {
    c.desc(format!("fs={} sr={} sps={} f={f} gain={gain:e} msg={}", r.fs, r.sr, r.sps, show(msg)));
    let nsym = msg.len() / 2;
    let n = nsym * r.sps;
    let tx = take_all(tx_qpsk_signal(src(msg), r.fs, r.sr, f), n);
    ensure!(tx.len() == n, "{} samples for {} bits at {} samples per symbol", tx.len(), msg.len(), r.sps);
    let chan: Vec<f64> = tx.iter().map(|x| x * gain).collect();
    let rx = take_all(rx_qpsk_signal(src(&chan), r.fs, r.sr, f), 2 * nsym);
    ensure!(rx.len() == 2 * nsym, "received {} bits of {}", rx.len(), 2 * nsym);
    for (k, (a, b, x)) in symbol_moments(r, f, nsym).into_iter().enumerate() {
        if a > x.abs() + MARGIN && b > x.abs() + MARGIN {
            ensure!(
                rx[2 * k] == msg[2 * k] && rx[2 * k + 1] == msg[2 * k + 1],
                "symbol {k} of {nsym} sent {:?} received {:?}",
                &msg[2 * k..2 * k + 2],
                &rx[2 * k..2 * k + 2]
            );
            c.ev(2);
        }
    }
    Ok(())
}

pub fn c02() -> Vec<Group> {
    vec![
        group("baseband", 1500, 20000, |c| {
            let n = msg_len(&mut c.rng, 3000);
            let msg = bits(&mut c.rng, n);
            c.desc(show(&msg));
            let tx = take_all(tx_baseband_qpsk_signal(src(&msg)), n / 2);
            ensure!(tx.len() == n / 2, "{} symbols for {n} bits", tx.len());
            let g = gain(&mut c.rng);
            let chan: Vec<C64> = tx.iter().map(|x| x * g).collect();
            let rx = take_all(rx_baseband_qpsk_signal(src(&chan)), n);
            for (k, s) in tx.iter().enumerate() {
                ensure!(
                    (s.re - 2f64.sqrt() * nrz(msg[2 * k])).abs() < 1e-12 && (s.im - 2f64.sqrt() * nrz(msg[2 * k + 1])).abs() < 1e-12,
                    "symbol {k} is {s} for {:?}",
                    &msg[2 * k..2 * k + 2]
                );
            }
            c.ev(2 * n);
            same_bits("rx_baseband_qpsk_signal", &rx, &msg[..n / 2 * 2])
        })
        .tiny(3),
        group("passband-half-cycles", 1500, 30000, |c| {
            let mut r = rates(&mut c.rng, 130);
            if r.sps < 2 {
                r = Rates { fs: r.fs * 2, sr: r.sr, sps: 2 };
            }
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let max = c.size(14, 60, (60_000 / r.sps).max(2));
            let n = msg_len(&mut c.rng, max);
            let msg = bits(&mut c.rng, n);
            let g = gain(&mut c.rng);
            check_qpsk(c, r, f, &msg, g)
        })
        .tiny(4),
        group("passband-any-carrier", 1500, 30000, |c| {
            let r = rates(&mut c.rng, 130);
            let f = carrier(&mut c.rng, r);
            let max = c.size(14, 60, (60_000 / r.sps).max(2));
            let n = msg_len(&mut c.rng, max);
            let msg = bits(&mut c.rng, n);
            let g = gain(&mut c.rng);
            check_qpsk(c, r, f, &msg, g)
        }),
        group("small-exhaustive", 120, 120, |c| {
            let sps = 2 + (c.idx as usize) % 12;
            let sr = [1, 7, 250][(c.idx as usize / 12) % 3];
            let r = Rates { fs: sps * sr, sr, sps };
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            for n in 0..=7usize {
                for m in 0..(1usize << n) {
                    let msg: Vec<Bit> = (0..n).map(|i| m >> i & 1 == 1).collect();
                    c.desc.clear();
                    check_qpsk(c, r, f, &msg, 1.0)?;
                }
            }
            Ok(())
        })
        .small(2),
        group("huge-symbols", 10, 150, |c| {
            let r = huge_rates(c);
            let f = if c.rng.bool() { half_cycle_carrier(&mut c.rng, r).unwrap() } else { carrier(&mut c.rng, r) };
            let n = 4 + c.rng.below(7);
            let msg = bits(&mut c.rng, n);
            let g = gain(&mut c.rng);
            check_qpsk(c, r, f, &msg, g)
        })
        .small(1),
        group("long-streams", 12, 120, |c| {
            let sps = c.rng.pick(&[2usize, 3, 4, 8, 16, 49]);
            let sr = c.rng.pick(&[900usize, 1000, 9600, 1]);
            let r = Rates { fs: sps * sr, sr, sps };
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let n = c.size(50, 2000, if c.idx % 4 == 0 { 1_300_000 } else { 300_000 }) / sps.min(8) + c.rng.below(50);
            let msg = rand_bits(&mut c.rng, n);
            check_qpsk(c, r, f, &msg, 1.0)
        })
        .small(1),
    ]
}

/// Independent per-sample models of the modulated signals.
pub fn ref_bpsk(msg: &[Bit], r: Rates, f: f64) -> Vec<f64> {
    (0..msg.len() * r.sps).map(|i| nrz(msg[i / r.sps]) * cyc(f, i, r.fs).cos()).collect()
}
pub fn ref_qpsk(msg: &[Bit], r: Rates, f: f64) -> Vec<f64> {
    (0..msg.len() / 2 * r.sps)
        .map(|i| {
            let k = i / r.sps;
            let (s, c) = cyc(f, i, r.fs).sin_cos();
            nrz(msg[2 * k]) * c - nrz(msg[2 * k + 1]) * s
        })
        .collect()
}
pub fn spread(sig: &[f64], key: &[Bit], spc: usize) -> Vec<f64> {
    sig.iter().enumerate().map(|(i, s)| s * nrz(key[(i / spc) % key.len()])).collect()
}

/// Rates at which a key of `k` chips fits.
pub fn cdma_rates(rng: &mut Rng, k: usize, max_spc: usize) -> Rates {
    let spc = if rng.chance(0.3) { 2 } else { 2 + rng.below(max_spc - 1) };
    let sr = rng.pick(&[1usize, 2, 25, 900, 1000, 77, 9600]);
    Rates { fs: sr * k * spc, sr, sps: k * spc }
}

pub fn any_key(rng: &mut Rng, max: usize) -> Vec<Bit> {
    let k = match rng.below(5) {
        0 => 1 + rng.below(3.min(max)),
        1 => 1usize << rng.below(9),
        _ => 1 + rng.below(max),
    }
    .clamp(1, max);
    match rng.below(6) {
        0 => vec![true; k],
        1 => vec![false; k],
        _ => rand_bits(rng, k),
    }
}

pub fn c03() -> Vec<Group> {
    use komunikilo::cdma::*;
    #[derive(Clone, Copy, PartialEq)]
    enum Size {
        Short,
        Long,
        Huge,
    }
    let one = |c: &mut Case, size: Size| -> R {
        let long = size == Size::Long;
        let kind = c.idx % 4;
        let (r, key) = if size == Size::Huge {
            // A symbol, a chip or a key longer than sixteen or eight bits count.
            let mut r = huge_rates(c);
            let key = if kind < 2 {
                vec![]
            } else {
                let k = if c.rng.bool() { 1 + c.rng.below(2) } else { let k = 257 + c.rng.below(5000); c.size(50, 300, k) };
                rand_bits(&mut c.rng, k)
            };
            if kind >= 2 {
                r.sps = r.sps.div_ceil(key.len()).max(2) * key.len();
                r.fs = r.sps * r.sr;
            }
            (r, key)
        } else if kind < 2 {
            (rates(&mut c.rng, 130), vec![])
        } else {
            let key = any_key(&mut c.rng, 40);
            let r = cdma_rates(&mut c.rng, key.len(), 12);
            (r, key)
        };
        let f = carrier(&mut c.rng, r);
        let budget = c.size(200, 2000, if long { 1_100_000 } else { 30_000 });
        let n = match size {
            Size::Long => budget / r.sps,
            Size::Short => {
                let m = (budget / r.sps).max(2);
                msg_len(&mut c.rng, m)
            }
            Size::Huge => 2 + c.rng.below(5),
        };
        let msg = bits(&mut c.rng, n);
        c.desc(format!("kind={} fs={} sr={} sps={} f={f} key={} msg={}", ["bpsk", "qpsk", "cdma-bpsk", "cdma-qpsk"][kind as usize], r.fs, r.sr, r.sps, show(&key), show(&msg)));
        let want0 = if kind % 2 == 0 { ref_bpsk(&msg, r, f) } else { ref_qpsk(&msg, r, f) };
        let want = if kind < 2 { want0 } else { spread(&want0, &key, r.sps / key.len()) };
        let m = want.len();
        let got = match kind {
            0 => take_all(tx_bpsk_signal(src(&msg), r.fs, r.sr, f), m),
            1 => take_all(tx_qpsk_signal(src(&msg), r.fs, r.sr, f), m),
            2 => take_all(tx_cdma_bpsk_signal(src(&msg), r.fs, r.sr, f, &key), m),
            _ => take_all(tx_cdma_qpsk_signal(src(&msg), r.fs, r.sr, f, &key), m),
        };
        c.ev(m);
        close("transmitted signal", &got, &want, phase_tol(f, m, r.fs) + 1e-7)
    };
    vec![
        group("waveform", 3000, 80000, move |c| one(c, Size::Short)).tiny(4),
        group("long-waveform", 12, 160, move |c| one(c, Size::Long)).small(1),
        group("huge-symbols", 12, 160, move |c| one(c, Size::Huge)).small(1),
        // The receivers are the matched filters of these waveforms: the decision
        // on any signal is the sign of its correlation with the carrier.
        group("correlation-receiver", 2500, 60000, |c| {
            let qpsk = c.idx % 2 == 1;
            let cdma = c.idx / 2 % 2 == 1;
            let key = if cdma { any_key(&mut c.rng, 20) } else { vec![true] };
            let r = if cdma { cdma_rates(&mut c.rng, key.len(), 12) } else { rates(&mut c.rng, 130) };
            let f = carrier(&mut c.rng, r);
            let nsym = 1 + c.rng.below(c.size(6, 40, 20_000 / r.sps + 1));
            let amp = gain(&mut c.rng);
            // Noise, or signals in which single samples decide.
            let kind = c.rng.below(3);
            let mut sig: Vec<f64> = (0..nsym * r.sps)
                .map(|_| match kind {
                    0 => amp * c.rng.normal(),
                    1 => amp * c.rng.normal() * 10f64.powf(c.rng.uniform(-4.0, 0.0)),
                    _ => 0.0,
                })
                .collect();
            if kind == 2 {
                for k in 0..nsym {
                    let at = match c.rng.below(4) {
                        0 => 0,
                        1 => r.sps - 1,
                        _ => c.rng.below(r.sps),
                    };
                    sig[k * r.sps + at] = amp * c.rng.normal();
                }
            }
            c.desc(format!("qpsk={qpsk} fs={} sr={} sps={} f={f} key={} amp={amp:e} kind={kind} nsym={nsym} x0={}", r.fs, r.sr, r.sps, if cdma { show(&key) } else { "none".into() }, sig[0]));
            let m = if qpsk { 2 * nsym } else { nsym };
            let got = match (qpsk, cdma) {
                (true, false) => take_all(rx_qpsk_signal(src(&sig), r.fs, r.sr, f), m),
                (false, false) => take_all(rx_bpsk_signal(src(&sig), r.fs, r.sr, f), m),
                (true, true) => take_all(rx_cdma_qpsk_signal(src(&sig), r.fs, r.sr, f, &key), m),
                (false, true) => take_all(rx_cdma_bpsk_signal(src(&sig), r.fs, r.sr, f, &key), m),
            };
            ensure!(got.len() == m, "{} bits for {nsym} symbols", got.len());
            let spc = r.sps / key.len();
            for k in 0..nsym {
                let (mut i, mut qq) = (0.0, 0.0);
                for j in k * r.sps..(k + 1) * r.sps {
                    let (s, co) = cyc(f, j, r.fs).sin_cos();
                    let x = sig[j] * nrz(key[(j / spc) % key.len()]);
                    i += x * co;
                    qq -= x * s;
                }
                let m = 1e-6 * amp * if kind == 2 { 1.0 } else { r.sps as f64 };
                let (bi, bq) = if qpsk { (got[2 * k], Some(got[2 * k + 1])) } else { (got[k], None) };
                if i.abs() > m {
                    ensure!(bi == (i > 0.0), "symbol {k}: in-phase correlation {i:e} decided as {bi}");
                    c.ev(1);
                }
                if let Some(bq) = bq {
                    if qq.abs() > m {
                        ensure!(bq == (qq > 0.0), "symbol {k}: quadrature correlation {qq:e} decided as {bq}");
                        c.ev(1);
                    }
                }
            }
            Ok(())
        })
        .tiny(2),
    ]
}
