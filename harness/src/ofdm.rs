//! C14, C15: OFDM.
use crate::core::*;
use crate::ensure;
use crate::psk::gain;
use crate::util::*;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;

/// Data subcarriers in ascending order of frequency; place N/2 is DC.
fn data_places(n: usize, nulls: usize) -> Vec<usize> {
    let back = (nulls - 1) / 2;
    let front = nulls - 1 - back;
    (front..n - back).filter(|&i| i != n / 2).collect()
}

/// The DFT bin of a place.
fn bin(i: usize, n: usize) -> usize {
    (i + n - n / 2) % n
}

fn shape(c: &mut Case, max: usize) -> (usize, usize) {
    let n = match c.rng.below(5) {
        0 => 2 + c.rng.below(7),
        1 => 1usize << (1 + c.rng.below(8)),
        2 => c.rng.pick(&[12, 24, 48, 52, 64, 96, 120, 7, 13, 31, 63, 65, 127]),
        _ => 2 + c.rng.below(max - 1),
    }
    .clamp(2, max);
    let nulls = match c.rng.below(4) {
        0 => 1,
        1 => n - 1,
        2 => n / 4 + 1,
        _ => 1 + c.rng.below(n - 1),
    }
    .clamp(1, n - 1);
    (n, nulls)
}

/// Symbols of any amplitude; the scale of the tolerance comes with them.
fn symbols(rng: &mut Rng, n: usize) -> (Vec<C64>, f64) {
    let a = gain(rng);
    let kind = rng.below(3);
    let v: Vec<C64> = (0..n)
        .map(|_| match kind {
            0 => C64::new(nrz(rng.bool()), nrz(rng.bool())) * a,
            1 => C64::new(rng.normal(), rng.normal()) * a,
            _ => {
                if rng.chance(0.5) {
                    C64::new(0.0, 0.0)
                } else {
                    C64::new(rng.normal(), 0.0) * a
                }
            }
        })
        .collect();
    (v, a * 10.0)
}

fn baseband(c: &mut Case, n: usize, nulls: usize, len: usize, echo: bool) -> R {
    let k = n - nulls;
    let cp = n / 4;
    let (sym, scale) = symbols(&mut c.rng, len);
    c.desc(format!("N={n} nulls={nulls} symbols={len} scale={scale:e} first={}", sym.first().cloned().unwrap_or_default()));
    let groups = len.div_ceil(k);
    let tx = take_all(tx_baseband_ofdm_signal(src(&sym), n, nulls), groups * (n + cp));
    ensure!(tx.len() == groups * (n + cp), "{} samples for {groups} OFDM symbols of {}+{cp}", tx.len(), n);
    let tol = 1e-9 * scale;
    let places = data_places(n, nulls);
    ensure!(places.len() == k, "(the model has {} data places for {k})", places.len());
    let mut padded = sym.clone();
    padded.resize(groups * k, C64::new(0.0, 0.0));
    for (g, s) in tx.chunks(n + cp).enumerate() {
        for i in 0..cp {
            ensure!((s[i] - s[n + i]).norm() <= tol, "OFDM symbol {g}: prefix sample {i} is {}, the tail holds {}", s[i], s[n + i]);
        }
        let spec = dft(&s[cp..], -1.0);
        let mut want = vec![C64::new(0.0, 0.0); n];
        for (j, &p) in places.iter().enumerate() {
            want[bin(p, n)] = padded[g * k + j];
        }
        cclose(&format!("spectrum of OFDM symbol {g}"), &spec, &want, tol * (n as f64).sqrt().max(4.0))?;
    }
    c.ev(tx.len());
    let rx = take_all(rx_baseband_ofdm_signal(src(&tx), n, nulls), groups * k);
    cclose("received symbols", &rx, &padded, tol)?;
    c.ev(rx.len());
    if echo && cp > 0 && groups > 0 {
        // Up to three echoes within the prefix.
        let mut taps = vec![(0usize, C64::new(1.0, 0.0))];
        for _ in 0..1 + c.rng.below(3) {
            let d = if c.rng.bool() { cp } else { 1 + c.rng.below(cp) };
            taps.push((d, C64::new(c.rng.normal(), c.rng.normal()) * 0.5));
        }
        c.desc(format!("taps={taps:?}"));
        let mut y = vec![C64::new(0.0, 0.0); tx.len()];
        for &(d, a) in &taps {
            for i in d..tx.len() {
                y[i] += a * tx[i - d];
            }
        }
        let rx = take_all(rx_baseband_ofdm_signal(src(&y), n, nulls), groups * k);
        let want: Vec<C64> = padded
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let b = bin(places[i % k], n);
                let h: C64 = taps.iter().map(|&(d, a)| a * C64::from_polar(1.0, -2.0 * std::f64::consts::PI * ((b * d) % n) as f64 / n as f64)).sum();
                x * h
            })
            .collect();
        cclose("symbols received through an echo", &rx, &want, tol * 10.0)?;
        c.ev(rx.len());
    }
    Ok(())
}

pub fn c14() -> Vec<Group> {
    vec![
        group("random", 5000, 80_000, |c| {
            let (n, nulls) = shape(c, if c.scale == 0 { 16 } else { 260 });
            let max = c.size(6, 60, 4 * (n - nulls) + 20);
            let len = msg_len(&mut c.rng, max);
            baseband(c, n, nulls, len, true)
        })
        .tiny(3),
        // Every size up to 40 with every null count.
        group("every-shape", 39, 39, |c| {
            let n = 2 + c.idx as usize;
            for nulls in 1..n {
                c.desc.clear();
                let len = 2 * (n - nulls) + c.rng.below(n - nulls + 1);
                baseband(c, n, nulls, len, true)?;
            }
            Ok(())
        })
        .small(6),
        group("large", 12, 200, |c| {
            let n = match c.rng.below(4) {
                0 => c.rng.pick(&[65_536usize, 66_000, 131_072, 8192, 4096, 16_384]),
                _ => c.rng.pick(&[512usize, 600, 1000, 1024, 1023, 2048]),
            };
            let n = if c.scale < 2 { n.min(1024) / 8 } else { n };
            let nulls = 1 + c.rng.below(n - 1);
            let len = (n - nulls) * 2 + c.rng.below(n - nulls);
            baseband(c, n, nulls, len, true)
        })
        .small(1),
        group("long", 6, 60, |c| {
            let (n, nulls) = shape(c, 80);
            let len = c.size(20, 400, 60_000);
            baseband(c, n, nulls, len, false)
        })
        .small(1),
        // Any received samples: the receiver is the DFT of each body.
        group("receiver", 1500, 25_000, |c| {
            let (n, nulls) = shape(c, if c.scale == 0 { 12 } else { 130 });
            let (k, cp) = (n - nulls, n / 4);
            let g = c.rng.below(4);
            let tail = c.rng.below(n + cp);
            let sig: Vec<C64> = (0..g * (n + cp) + tail).map(|_| C64::new(c.rng.normal(), c.rng.normal())).collect();
            c.desc(format!("N={n} nulls={nulls} samples={}", sig.len()));
            let rx = take_all(rx_baseband_ofdm_signal(src(&sig), n, nulls), g * k);
            let places = data_places(n, nulls);
            let mut want = vec![];
            for s in sig.chunks_exact(n + cp) {
                let spec = dft(&s[cp..], -1.0);
                want.extend(places.iter().map(|&p| spec[bin(p, n)]));
            }
            c.ev(want.len() + 1);
            cclose("received symbols", &rx, &want, 1e-8 * n as f64)
        })
        .tiny(1),
    ]
}

pub fn c15() -> Vec<Group> {
    fn ref_signal(msg: &[Bit], n: usize, nulls: usize, r: Rates, f: f64) -> Vec<f64> {
        let base: Vec<C64> = tx_baseband_ofdm_signal(tx_baseband_qpsk_signal(msg.iter().cloned()), n, nulls).collect();
        (0..base.len() * r.sps).map(|i| (base[i / r.sps] * C64::from_polar(1.0, cyc(f, i, r.fs))).re).collect()
    }
    fn looped(c: &mut Case, n: usize, nulls: usize, r: Rates, f: f64, len: usize) -> R {
        let msg = bits(&mut c.rng, len);
        let g = gain(&mut c.rng);
        c.desc(format!("N={n} nulls={nulls} fs={} sr={} sps={} f={f} gain={g:e} msg={}", r.fs, r.sr, r.sps, show(&msg)));
        let k = n - nulls;
        let groups = (len / 2).div_ceil(k);
        let m = groups * (n + n / 4) * r.sps;
        let tx = take_all(tx_ofdm_qpsk_signal(src(&msg), n, nulls, r.fs, r.sr, f), m);
        ensure!(tx.len() == m, "{} samples, expected {m}", tx.len());
        let chan: Vec<f64> = tx.iter().map(|x| x * g).collect();
        let rx = take_all(rx_ofdm_qpsk_signal(src(&chan), n, nulls, r.fs, r.sr, f), groups * k * 2);
        ensure!(rx.len() == groups * k * 2, "{} bits from {groups} OFDM symbols of {k}", rx.len());
        c.ev(len);
        same_bits("loopback", &rx[..len / 2 * 2], &msg[..len / 2 * 2])
    }
    fn rate2(c: &mut Case, max: usize) -> Rates {
        let mut r = rates(&mut c.rng, max);
        if r.sps < 2 {
            r = Rates { fs: r.fs * 2, sr: r.sr, sps: 2 };
        }
        r
    }
    vec![
        group("loopback", 4000, 60_000, |c| {
            let (n, nulls) = shape(c, if c.scale == 0 { 10 } else { 130 });
            let r = rate2(c, 60);
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let per = n * 5 / 4 * r.sps;
            let max = c.size(8, 60, (60_000 / per + 1) * 2 * (n - nulls));
            let len = msg_len(&mut c.rng, max);
            looped(c, n, nulls, r, f, len)
        })
        .tiny(3),
        group("every-shape", 39, 39, |c| {
            let n = 2 + c.idx as usize;
            for nulls in 1..n {
                c.desc.clear();
                let r = rate2(c, 6);
                let f = half_cycle_carrier(&mut c.rng, r).unwrap();
                let len = 4 * (n - nulls) + c.rng.below(2 * (n - nulls) + 1);
                looped(c, n, nulls, r, f, len)?;
            }
            Ok(())
        })
        .small(4),
        group("long", 6, 60, |c| {
            let (n, nulls) = shape(c, 80);
            let r = Rates { fs: 8000, sr: 2000, sps: 4 };
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let len = c.size(20, 300, 40_000);
            let len = len.min(150_000 * (n - nulls) / n + 20);
            looped(c, n, nulls, r, f, len)
        })
        .small(1),
        group("waveform", 3000, 50_000, |c| {
            let (n, nulls) = shape(c, if c.scale == 0 { 10 } else { 130 });
            let huge = c.scale > 1 && c.rng.chance(0.002);
            let (n, nulls) = if huge { (n.min(5), nulls.min(n.min(5) - 1)) } else { (n, nulls) };
            let r = if huge { huge_rates(c) } else { rates(&mut c.rng, 60) };
            let f = carrier(&mut c.rng, r);
            let per = n * 5 / 4 * r.sps;
            let max = c.size(8, 60, (30_000 / per + 1) * 2 * (n - nulls));
            let len = msg_len(&mut c.rng, max);
            let msg = bits(&mut c.rng, len);
            c.desc(format!("N={n} nulls={nulls} fs={} sr={} sps={} f={f} msg={}", r.fs, r.sr, r.sps, show(&msg)));
            let want = ref_signal(&msg, n, nulls, r, f);
            let got = take_all(tx_ofdm_qpsk_signal(src(&msg), n, nulls, r.fs, r.sr, f), want.len());
            c.ev(want.len());
            close("passband signal", &got, &want, phase_tol(f, want.len(), r.fs) + 1e-7)
        })
        .tiny(2),
    ]
}
