//! C08, C09: frequency hopping and chirps.
use crate::core::*;
use crate::ensure;
use crate::psk::gain;
use crate::util::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use std::f64::consts::PI;

/// Index of the candidate waveform equal to `sig`, when exactly one is.
fn identify(sig: &[f64], cands: &[Vec<f64>], tol: f64) -> Option<usize> {
    cands.iter().position(|w| w.iter().zip(sig).all(|(a, b)| (a - b).abs() <= tol))
}

/// Whether the candidates differ from each other well beyond the tolerance.
fn distinguishable(cands: &[Vec<f64>]) -> bool {
    for i in 0..cands.len() {
        for j in 0..i {
            let d = cands[i].iter().zip(&cands[j]).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
            if d < 1e-4 {
                return false;
            }
        }
    }
    true
}

/// Each block of `n` hops is a permutation; the order varies.
pub fn block_discipline(seq: &[usize], n: usize) -> R {
    for (b, blk) in seq.chunks(n).enumerate() {
        let mut seen = vec![false; n];
        for &i in blk {
            ensure!(!seen[i], "block {b} of {n} hops uses frequency {i} twice: {:?}", &blk[..blk.len().min(20)]);
            seen[i] = true;
        }
    }
    if n >= 5 && seq.len() >= 5 * n {
        let first = &seq[..n];
        let whole = seq.len() / n;
        ensure!(
            (1..whole).any(|b| &seq[b * n..(b + 1) * n] != first),
            "all {whole} blocks of {n} hops use the same order"
        );
        let asc: Vec<usize> = (0..n).collect();
        let sorted = (0..whole).filter(|&b| seq[b * n..(b + 1) * n] == asc[..]).count();
        ensure!(2 * sorted < whole, "{sorted} of {whole} blocks are simply in ascending order");
    }
    Ok(())
}

struct Band {
    r: Rates,
    low: f64,
    high: f64,
    num: usize,
}

fn band(c: &mut Case, max_num: usize) -> Band {
    let r = rates(&mut c.rng, 100);
    let nyq = (r.fs / 2) as f64;
    let (mut a, mut b) = (c.rng.uniform(0.0, nyq), c.rng.uniform(0.0, nyq));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if c.rng.chance(0.2) {
        b = nyq;
    }
    if c.rng.chance(0.1) {
        a = 0.0;
    }
    if c.rng.chance(0.4) {
        a = a.floor();
        b = b.floor().max(a);
    }
    let num = match c.rng.below(4) {
        0 => 1 + c.rng.below(3),
        1 => 1usize << c.rng.below(9),
        _ => 1 + c.rng.below(max_num),
    }
    .min(max_num);
    Band { r, low: a, high: b, num }
}

fn hop_freqs(b: &Band) -> Vec<f64> {
    (0..b.num).map(|i| b.low + i as f64 * (b.high - b.low) / b.num as f64).collect()
}

pub fn c08() -> Vec<Group> {
    fn one(c: &mut Case, b: Band, n: usize) -> R {
        let r = b.r;
        let msg = bits(&mut c.rng, n);
        c.desc(format!("fs={} sr={} sps={} low={} high={} num={} msg={}", r.fs, r.sr, r.sps, b.low, b.high, b.num, show(&msg)));
        let m = n * r.sps;
        let tx = take_all(tx_fh_bpsk_signal(src(&msg), b.low, b.high, b.num, r.fs, r.sr), m);
        ensure!(tx.len() == m, "{} samples, expected {m}", tx.len());
        let rx = take_all(rx_fh_bpsk_signal(src(&tx), b.low, b.high, b.num, r.fs, r.sr), n);
        c.ev(n);
        same_bits("loopback", &rx, &msg)?;
        // Which frequency did each symbol use?
        let freqs = hop_freqs(&b);
        let cands: Vec<Vec<f64>> = freqs.iter().map(|&f| (0..r.sps).map(|j| cyc(f, j, r.fs).cos()).collect()).collect();
        let distinct = if b.num <= 300 {
            r.sps * b.num * b.num < 40_000_000 && distinguishable(&cands)
        } else {
            // Cosines of frequencies up to Nyquist fall steadily at the second sample.
            r.sps > 1 && cands.windows(2).all(|w| w[0][1] - w[1][1] > 1e-5)
        };
        let mut seq = vec![];
        for k in 0..n {
            let s: Vec<f64> = tx[k * r.sps..(k + 1) * r.sps].iter().map(|x| x * nrz(msg[k])).collect();
            match identify(&s, &cands, 1e-6) {
                Some(i) => seq.push(i),
                None => return Err(format!("symbol {k} is no hop frequency's carrier at phase zero")),
            }
        }
        c.ev(m);
        if distinct {
            block_discipline(&seq, b.num)?;
            c.ev(n);
            // Another message rides on the same hops.
            let other = bits(&mut c.rng, n);
            let tx2 = take_all(tx_fh_bpsk_signal(src(&other), b.low, b.high, b.num, r.fs, r.sr), m);
            ensure!(tx2.len() == m, "{} samples, expected {m}", tx2.len());
            for i in 0..m {
                let k = i / r.sps;
                ensure!(
                    (tx[i] * nrz(msg[k]) - tx2[i] * nrz(other[k])).abs() < 1e-6,
                    "symbol {k} of a second transmission hops elsewhere"
                );
            }
            c.ev(m);
        }
        Ok(())
    }
    vec![
        group("hops", 2500, 50_000, |c| {
            let b = band(c, 40);
            let max = c.size(10, 40, 6000 / b.r.sps + 3 * b.num + 5);
            let n = msg_len(&mut c.rng, max);
            one(c, b, n)
        })
        .tiny(3),
        group("many-blocks", 250, 4000, |c| {
            let mut b = band(c, 24);
            b.num = 1 + (c.idx as usize) % 24;
            if b.r.sps < 16 {
                b.r = Rates { fs: b.r.sr * 40, sr: b.r.sr, sps: 40 };
                b.low = b.r.fs as f64 * 0.02;
                b.high = b.r.fs as f64 * 0.48;
            }
            let n = b.num * c.size(3, 6, 60) + c.rng.below(b.num);
            one(c, b, n)
        }),
        group("large-tables", 30, 400, |c| {
            let mut b = band(c, 300);
            b.num = [64, 100, 127, 128, 129, 200, 255, 256, 257, 300][(c.idx as usize) % 10];
            b.r = Rates { fs: b.r.sr * 200, sr: b.r.sr, sps: 200 };
            b.low = b.r.fs as f64 * c.rng.uniform(0.0, 0.05);
            b.high = b.r.fs as f64 * c.rng.uniform(0.4, 0.49);
            let n = b.num * c.size(1, 2, 6) + c.rng.below(b.num);
            one(c, b, n)
        })
        .small(1),
        group("huge-symbols", 8, 100, |c| {
            let r = huge_rates(c);
            let nyq = (r.fs / 2) as f64;
            let b = Band { r, low: nyq * c.rng.uniform(0.0, 0.3), high: nyq * c.rng.uniform(0.5, 1.0), num: 1 + c.rng.below(5) };
            let n = 3 + c.rng.below(6);
            one(c, b, n)
        })
        .small(1),
        // Thousands of frequencies.
        group("huge-tables", 4, 40, |c| {
            let r = Rates { fs: 64_000, sr: 1000, sps: 64 };
            let num = 301 + c.rng.below(3500);
            let num = c.size(301, 350, num);
            let b = Band { r, low: r.fs as f64 * c.rng.uniform(0.03, 0.05), high: r.fs as f64 * c.rng.uniform(0.45, 0.48), num };
            let n = num * c.size(1, 1, 3) + c.rng.below(num);
            one(c, b, n)
        })
        .small(1),
        // The mixer without its filter: carrier times hop carrier, the bit as its sign.
        group("mixer", 600, 10_000, |c| {
            let b = band(c, 12);
            let r = b.r;
            let f = carrier(&mut c.rng, r);
            let n = 1 + c.rng.below(c.size(4, 20, 2000 / r.sps + 3 * b.num));
            let msg = bits(&mut c.rng, n);
            c.desc(format!("mixer fs={} sr={} sps={} low={} high={} num={} f={f} msg={}", r.fs, r.sr, r.sps, b.low, b.high, b.num, show(&msg)));
            let m = n * r.sps;
            let tx = take_all(tx_fh_bpsk_signal_old(src(&msg), b.low, b.high, b.num, r.fs, r.sr, f), m);
            ensure!(tx.len() == m, "{} samples, expected {m}", tx.len());
            let freqs = hop_freqs(&b);
            let mut seq = vec![];
            let mut unique = true;
            for k in 0..n {
                // Phase counted from the start of the symbol or of the stream.
                let fits: Vec<usize> = (0..b.num)
                    .filter(|&q| {
                        [k, k * r.sps, 0].iter().any(|&t| {
                            (0..r.sps).all(|j| {
                                let w = nrz(msg[k]) * cyc(f, t + j, r.fs).cos() * cyc(freqs[q], t + j, r.fs).cos();
                                (w - tx[k * r.sps + j]).abs() < 1e-6
                            })
                        })
                    })
                    .collect();
                ensure!(!fits.is_empty(), "symbol {k} is no product of the carrier and a hop frequency");
                unique &= fits.len() == 1;
                seq.push(fits[0]);
            }
            c.ev(m);
            if unique {
                block_discipline(&seq, b.num)?;
            }
            Ok(())
        })
        .tiny(1),
        // The receiver correlates any signal with the hopping carrier.
        group("receiver", 1500, 30_000, |c| {
            let b = band(c, 40);
            let r = b.r;
            let nsym = 1 + c.rng.below(c.size(4, 20, (8000 / r.sps).max(1) + b.num));
            let amp = gain(&mut c.rng);
            let kind = c.rng.below(3);
            let mut sig: Vec<f64> = (0..nsym * r.sps).map(|_| if kind == 2 { 0.0 } else { amp * c.rng.normal() }).collect();
            for k in 0..nsym {
                let at = k * r.sps + c.rng.pick(&[0, r.sps - 1, r.sps / 2, 1 % r.sps]);
                match kind {
                    0 => {}
                    1 => sig[at] *= 1e3,
                    _ => sig[at] = amp * c.rng.normal(),
                }
            }
            c.desc(format!("fs={} sr={} sps={} low={} high={} num={} kind={kind} amp={amp:e} nsym={nsym} x0={}", r.fs, r.sr, r.sps, b.low, b.high, b.num, sig[0]));
            let m = nsym * r.sps;
            let carrier = take_all(tx_fh_bpsk_signal(src(&vec![true; nsym]), b.low, b.high, b.num, r.fs, r.sr), m);
            ensure!(carrier.len() == m, "{} samples, expected {m}", carrier.len());
            let rx = take_all(rx_fh_bpsk_signal(src(&sig), b.low, b.high, b.num, r.fs, r.sr), nsym);
            ensure!(rx.len() == nsym, "{} bits for {nsym} symbols", rx.len());
            for k in 0..nsym {
                let (mut s, mut p) = (0.0, 0.0);
                for i in k * r.sps..(k + 1) * r.sps {
                    s += sig[i] * carrier[i];
                    p += sig[i].abs();
                }
                if s.abs() > 1e-6 * p {
                    ensure!(rx[k] == (s > 0.0), "symbol {k}: correlation {s:e} with its carrier decided as {}", rx[k]);
                    c.ev(1);
                }
            }
            Ok(())
        })
        .tiny(2),
        group("long-streams", 6, 60, |c| {
            let b = Band { r: Rates { fs: 12_000, sr: 1000, sps: 12 }, low: 500.0, high: 5500.0, num: 1 + c.rng.below(16) };
            let n = c.size(20, 500, 80_000);
            one(c, b, n)
        })
        .small(1),
    ]
}

/// Linear sweep f0 -> f1 in n samples over n/fs seconds.
pub fn ref_chirp(n: usize, period: f64, f0: f64, f1: f64) -> Vec<f64> {
    let k = (f1 - f0) / period;
    (0..n)
        .map(|j| {
            let t = period * j as f64 / n as f64;
            (2.0 * PI * (f0 * t + k * t * t / 2.0)).cos()
        })
        .collect()
}

pub fn c09() -> Vec<Group> {
    fn chirp_case(c: &mut Case, n: usize, rate: f64, fs: usize) -> R {
        let nyq = fs as f64 / 2.0;
        let kind = c.idx % 3;
        let (f0, f1) = (c.rng.uniform(0.0, nyq), c.rng.uniform(0.0, nyq));
        let (f0, f1) = match c.rng.below(6) {
            0 => (f0, f0),
            1 => (0.0, f1),
            _ => (f0, f1),
        };
        let period = 1.0 / rate;
        let phase = 2.0 * PI * nyq * period;
        let tol = 1e-6 + phase * 1e-12;
        let (centre, bw) = (f0.max(f1) / 2.0 + f0.min(f1) / 2.0, (f0 - f1).abs());
        // A band around zero, or one wider than twice its centre.
        let centre = match c.rng.below(8) {
            0 => 0.0,
            1 => centre.min(bw * c.rng.uniform(0.0, 0.5)),
            _ => centre,
        };
        let (got, want) = match kind {
            0 => {
                c.desc(format!("chirp rate={rate} fs={fs} f0={f0} f1={f1}"));
                (take_all(linear_chirp(rate, fs, f0, f1), n), ref_chirp(n, period, f0, f1))
            }
            1 => {
                c.desc(format!("upchirp rate={rate} fs={fs} centre={centre} bw={bw}"));
                (take_all(linear_upchirp_centered(rate, centre, bw, fs), n), ref_chirp(n, period, centre - bw / 2.0, centre + bw / 2.0))
            }
            _ => {
                c.desc(format!("downchirp rate={rate} fs={fs} centre={centre} bw={bw}"));
                (take_all(linear_downchirp_centered(rate, centre, bw, fs), n), ref_chirp(n, period, centre + bw / 2.0, centre - bw / 2.0))
            }
        };
        c.ev(n);
        close("chirp", &got, &want, tol)
    }
    fn css(c: &mut Case, b: Band, n: usize) -> R {
        let r = b.r;
        let msg = bits(&mut c.rng, n);
        c.desc(format!("fs={} sr={} sps={} low={} high={} num={} msg={}", r.fs, r.sr, r.sps, b.low, b.high, b.num, show(&msg)));
        let m = n * r.sps;
        let tx = take_all(tx_fh_css_signal(src(&msg), r.fs, r.sr, b.low, b.high, b.num), m);
        ensure!(tx.len() == m, "{} samples, expected {m}", tx.len());
        let bw = (b.high - b.low) / b.num as f64;
        let period = 1.0 / r.sr as f64;
        let up: Vec<Vec<f64>> = hop_freqs(&b).iter().map(|&f| ref_chirp(r.sps, period, f - bw / 2.0, f + bw / 2.0)).collect();
        let down: Vec<Vec<f64>> = hop_freqs(&b).iter().map(|&f| ref_chirp(r.sps, period, f + bw / 2.0, f - bw / 2.0)).collect();
        let mut seq = vec![];
        for k in 0..n {
            let s = &tx[k * r.sps..(k + 1) * r.sps];
            match identify(s, if msg[k] { &up } else { &down }, 1e-6) {
                Some(i) => seq.push(i),
                None => return Err(format!("symbol {k} (bit {}) is no {} chirp across a subchannel", msg[k], if msg[k] { "upward" } else { "downward" })),
            }
        }
        c.ev(m);
        if distinguishable(&up) && distinguishable(&down) {
            block_discipline(&seq, b.num)?;
            let other = bits(&mut c.rng, n);
            let tx2 = take_all(tx_fh_css_signal(src(&other), r.fs, r.sr, b.low, b.high, b.num), m);
            ensure!(tx2.len() == m, "{} samples, expected {m}", tx2.len());
            for k in 0..n {
                let s = &tx2[k * r.sps..(k + 1) * r.sps];
                let want = if other[k] { &up[seq[k]] } else { &down[seq[k]] };
                ensure!(s.iter().zip(want).all(|(a, b)| (a - b).abs() < 1e-6), "symbol {k} of a second transmission hops elsewhere");
            }
            c.ev(2 * n);
        }
        Ok(())
    }
    vec![
        group("chirps", 4000, 80_000, |c| {
            let n = 1 + c.rng.below(c.size(20, 200, 3000));
            if c.rng.chance(0.3) {
                // Slow chirps: less than one per second.
                let rate = c.rng.pick(&[0.5, 0.25, 0.125, 0.1, 0.2]);
                let per = (1.0f64 / rate).round() as usize;
                let fs = (n / per).max(1);
                chirp_case(c, fs * per, rate, fs)
            } else {
                let rate = c.rng.pick(&[1usize, 2, 10, 900, 777, 8]);
                chirp_case(c, n, rate as f64, n * rate)
            }
        })
        .tiny(3),
        group("spread-spectrum", 2000, 40_000, |c| {
            let b = band(c, 40);
            let max = c.size(8, 30, 6000 / b.r.sps + 3 * b.num + 5);
            let n = msg_len(&mut c.rng, max);
            css(c, b, n)
        })
        .tiny(2),
        group("many-blocks", 200, 3000, |c| {
            let mut b = band(c, 24);
            b.num = 1 + (c.idx as usize) % 24;
            b.r = Rates { fs: b.r.sr * 64, sr: b.r.sr, sps: 64 };
            b.low = b.r.fs as f64 * 0.05;
            b.high = b.r.fs as f64 * 0.45;
            let n = b.num * c.size(2, 5, 40) + c.rng.below(b.num);
            css(c, b, n)
        }),
        group("large-tables", 20, 200, |c| {
            let mut b = band(c, 300);
            b.num = [64, 127, 128, 200, 255, 256, 257, 300][(c.idx as usize) % 8];
            b.r = Rates { fs: b.r.sr * 200, sr: b.r.sr, sps: 200 };
            b.low = b.r.fs as f64 * 0.01;
            b.high = b.r.fs as f64 * 0.47;
            let n = b.num * c.size(1, 1, 5) + c.rng.below(b.num);
            css(c, b, n)
        })
        .small(1),
        group("huge-symbols", 9, 120, |c| {
            let r = huge_rates(c);
            if c.idx % 3 == 2 {
                let nyq = (r.fs / 2) as f64;
                let b = Band { r, low: nyq * c.rng.uniform(0.05, 0.3), high: nyq * c.rng.uniform(0.5, 0.9), num: 2 + c.rng.below(5) };
                let n = 3 + c.rng.below(6);
                css(c, b, n)
            } else {
                chirp_case(c, r.sps, r.sr as f64, r.fs)
            }
        })
        .small(1),
    ]
}
