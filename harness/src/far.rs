//! Streams far longer than any other workload keeps: past every counter of 24 bits (quick) or 32 bits (thorough).
//! The monitors keep nothing; what was sent is known at every index in closed form, or from a twin stream in step.
use crate::core::*;
use crate::ensure;
use crate::util::*;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::chaos::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::iter::Iter;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use std::collections::HashSet;

/// The message bit at any index.
fn bit(k: usize) -> Bit {
    let mut z = (k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z >> 63 == 1
}
fn msg(from: usize) -> impl Iterator<Item = Bit> {
    (from..).map(bit)
}
fn real(k: usize) -> f64 {
    let v = bit(k) as i32 as f64 + 2.0 * bit(k + 7) as i32 as f64 - 1.5;
    v / 4.0
}

/// How many items to watch: a little more than 24 bits count; in the thorough tier the first cases go past 32 bits.
fn far(c: &mut Case, past32: bool) -> usize {
    let more = c.rng.below(1 << 20);
    match c.scale {
        0 => 500,
        1 => 30_000,
        2 => (1 << 24) + (1 << 18) + more,
        _ if past32 => (1 << 32) + (1 << 18) + more,
        _ => (1 << 28) + more,
    }
}

/// Sample rate, symbol rate and a carrier of a 256th of the sample rate or so, at no whole ratio to it.
fn slow(c: &mut Case, sps: usize) -> (Rates, f64) {
    let sr = c.rng.pick(&[900usize, 1000, 9600]);
    let r = Rates { fs: sps * sr, sr, sps };
    (r, r.fs as f64 / 256.0 * c.rng.uniform(0.87, 0.97))
}

/// Every sample of the stream against its closed form.
fn watch(c: &mut Case, what: &str, mut it: impl Iterator<Item = f64>, n: usize, tol: f64, mut model: impl FnMut(usize) -> f64) -> R {
    for i in 0..n {
        let Some(x) = it.next() else { return Err(format!("{what}: ended after {i} samples")) };
        let w = model(i);
        ensure!((x - w).abs() <= tol, "{what}: sample {i} is {x}, expected {w}");
    }
    c.ev(n);
    Ok(())
}

fn watch_bits(c: &mut Case, what: &str, mut it: impl Iterator<Item = Bit>, n: usize, from: usize) -> R {
    for i in 0..n {
        let Some(x) = it.next() else { return Err(format!("{what}: ended after {i} bits")) };
        ensure!(x == bit(from + i), "{what}: bit {i} arrives as {x}");
    }
    c.ev(n);
    Ok(())
}

fn key(c: &mut Case) -> Vec<Bit> {
    let k = c.rng.pick(&[1usize, 3, 4, 5]);
    rand_bits(&mut c.rng, k)
}

/// Hop discipline seen by a twin stream: symbols of all ones show the hop sequence as such.
/// Each block visits each of the `num` different symbols once, and the order does not stay the same.
struct Hops {
    num: usize,
    seen: Vec<Vec<f64>>,
    block: Vec<usize>,
    last: Vec<usize>,
    same: usize,
}
impl Hops {
    fn new(num: usize) -> Self {
        Hops { num, seen: vec![], block: vec![], last: vec![], same: 0 }
    }
    fn next(&mut self, k: usize, sym: &[f64]) -> Result<usize, String> {
        let id = match self.seen.iter().position(|s| alike(s, sym)) {
            Some(i) => i,
            None => {
                ensure!(self.seen.len() < self.num && k < self.num, "symbol {k} is none of the {} seen in the first block", self.num);
                self.seen.push(sym.to_vec());
                self.seen.len() - 1
            }
        };
        ensure!(!self.block.contains(&id), "symbol {k}: its hop frequency comes twice in one block");
        self.block.push(id);
        if self.block.len() == self.num {
            self.same = if self.block == self.last { self.same + 1 } else { 0 };
            ensure!(self.same < 40, "at symbol {k} the hop order has been the same for 40 blocks of {}", self.num);
            self.last = std::mem::take(&mut self.block);
        }
        Ok(id)
    }
}

fn alike(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-7)
}

fn take<T>(it: &mut impl Iterator<Item = T>, buf: &mut Vec<T>, n: usize) -> R {
    buf.clear();
    buf.extend(it.by_ref().take(n));
    ensure!(buf.len() == n, "the stream ended");
    Ok(())
}

pub fn add(prop: &str, g: &mut Vec<Group>) {
    let f: Box<dyn Fn(&mut Case) -> R + Send + Sync> = match prop {
        "C01" => Box::new(c01),
        "C02" => Box::new(c02),
        "C03" => Box::new(c03),
        "C04" => Box::new(c04),
        "C07" => Box::new(c07),
        "C08" => Box::new(c08),
        "C09" => Box::new(c09),
        "C10" => Box::new(c10),
        "C11" => Box::new(c11),
        "C12" => Box::new(c12),
        "C13" => Box::new(c13),
        "C14" => Box::new(c14),
        "C15" => Box::new(c15),
        "C16" => Box::new(c16),
        "C18" => Box::new(c18),
        "C19" => Box::new(c19),
        "C20" => Box::new(c20),
        "C24" => Box::new(c24),
        "C25" => Box::new(c25),
        _ => return,
    };
    let (quick, thorough) = match prop {
        "C01" | "C02" => (2, 4),
        "C03" | "C04" | "C10" => (4, 8),
        "C12" => (5, 10),
        "C13" | "C18" => (2, 4),
        "C16" => (9, 18),
        "C20" => (6, 6),
        _ => (1, 2),
    };
    g.push(Group { name: "far", quick, thorough, small: quick, tiny: 0, f });
}

fn c01(c: &mut Case) -> R {
    let first = c.idx < 2;
    if c.idx % 2 == 0 {
        let n = far(c, first);
        let from = c.rng.below(1 << 30);
        c.desc(format!("baseband n={n} from={from}"));
        return watch_bits(c, "BPSK at baseband", rx_baseband_bpsk_signal(tx_baseband_bpsk_signal(msg(from))), n, from);
    }
    let (r, f) = slow(c, 4);
    let n = far(c, first) / 4;
    c.desc(format!("fs={} sr={} f={f} n={n}", r.fs, r.sr));
    watch_bits(c, "BPSK", rx_bpsk_signal(tx_bpsk_signal(msg(0), r.fs, r.sr, f), r.fs, r.sr, f), n, 0)
}

fn c02(c: &mut Case) -> R {
    let first = c.idx < 2;
    if c.idx % 2 == 0 {
        let n = far(c, first);
        let from = c.rng.below(1 << 30);
        c.desc(format!("baseband n={n} from={from}"));
        return watch_bits(c, "QPSK at baseband", rx_baseband_qpsk_signal(tx_baseband_qpsk_signal(msg(from))), n, from);
    }
    // A quarter of the sample rate over symbols of four, or a whole cycle in a long symbol.
    let sps = if c.scale < 3 { 4 } else { 256 };
    let sr = c.rng.pick(&[900usize, 1000, 9600]);
    let n = far(c, first) / sps * 2;
    c.desc(format!("sps={sps} sr={sr} n={n}"));
    let (fs, f) = (sps * sr, sr as f64);
    watch_bits(c, "QPSK", rx_qpsk_signal(tx_qpsk_signal(msg(0), fs, sr, f), fs, sr, f), n, 0)
}

fn c03(c: &mut Case) -> R {
    let kind = c.idx % 4;
    let n = {
        let first = c.idx < 4;
        far(c, first)
    };
    let key = key(c);
    let spc = 2 + c.rng.below(3);
    let sps = key.len() * spc;
    let (r, f) = slow(c, sps);
    c.desc(format!("{} fs={} sr={} sps={sps} f={f} key={} n={n}", ["bpsk", "qpsk", "cdma-bpsk", "cdma-qpsk"][kind as usize], r.fs, r.sr, show(&key)));
    let tol = phase_tol(f, n, r.fs).min(1e-3) + 1e-7;
    // Symbol bits and chips advance by counting, so that the model costs no divisions.
    let (mut j, mut k, mut at, mut chip) = (0, 0, 0, 0);
    let (mut i0, mut q0) = (nrz(bit(0)), nrz(bit(1)));
    let qpsk = kind % 2 == 1;
    let spread = kind >= 2;
    let model = |i: usize| {
        let (s, co) = cyc(f, i, r.fs).sin_cos();
        let y = if qpsk { i0 * co - q0 * s } else { i0 * co } * if spread { nrz(key[chip]) } else { 1.0 };
        at += 1;
        if at == spc {
            at = 0;
            chip = if chip + 1 == key.len() { 0 } else { chip + 1 };
        }
        j += 1;
        if j == sps {
            j = 0;
            k += 1;
            if qpsk {
                (i0, q0) = (nrz(bit(2 * k)), nrz(bit(2 * k + 1)));
            } else {
                i0 = nrz(bit(k));
            }
        }
        y
    };
    match kind {
        0 => watch(c, "BPSK", tx_bpsk_signal(msg(0), r.fs, r.sr, f), n, tol, model),
        1 => watch(c, "QPSK", tx_qpsk_signal(msg(0), r.fs, r.sr, f), n, tol, model),
        2 => watch(c, "CDMA over BPSK", tx_cdma_bpsk_signal(msg(0), r.fs, r.sr, f, &key), n, tol, model),
        _ => watch(c, "CDMA over QPSK", tx_cdma_qpsk_signal(msg(0), r.fs, r.sr, f, &key), n, tol, model),
    }
}

fn c04(c: &mut Case) -> R {
    let first = c.idx < 4;
    let key = key(c);
    let k = key.len();
    let n = far(c, first);
    // Two samples a chip, half a carrier cycle (or a tenth) in the symbol.
    let sps = 4 * k;
    let sr = 1000;
    let fs = sps * sr;
    c.desc(format!("kind={} key={} sps={sps} n={n}", c.idx % 4, show(&key)));
    match c.idx % 4 {
        0 => {
            let mut chip = 0;
            let mut b = 0;
            let mut it = tx_baseband_cdma(msg(0), &key);
            for i in 0..n {
                let x = it.next();
                ensure!(x == Some(bit(b) ^ key[chip]), "chip {i} is {x:?}");
                chip += 1;
                if chip == k {
                    chip = 0;
                    b += 1;
                }
            }
            c.ev(n);
            Ok(())
        }
        1 => watch_bits(c, "CDMA at baseband", rx_baseband_cdma(tx_baseband_cdma(msg(0), &key), &key), n / k, 0),
        2 => {
            let f = fs as f64 / 256.0 * 0.93;
            watch_bits(c, "CDMA over BPSK", rx_cdma_bpsk_signal(tx_cdma_bpsk_signal(msg(0), fs, sr, f, &key), fs, sr, f, &key), n / sps, 0)
        }
        _ => watch_bits(c, "CDMA over QPSK", rx_cdma_qpsk_signal(tx_cdma_qpsk_signal(msg(0), fs, sr, 500.0, &key), fs, sr, 500.0, &key), n / sps * 2, 0),
    }
}

fn c07(c: &mut Case) -> R {
    let key = vec![true, false];
    let n = far(c, false) / 12;
    c.desc(format!("n={n}"));
    let (fs, sr, f) = (4000, 1000, 900.0);
    watch_bits(c, "coded CDMA", rx_coded_cdma_bpsk_signal(tx_coded_cdma_bpsk_signal(msg(0), fs, sr, f, &key), fs, sr, f, &key), n, 0)
}

fn c08(c: &mut Case) -> R {
    let n = far(c, false) / 4;
    let num = c.rng.range(4, 7);
    let sps = 4;
    let (fs, sr, lo, hi) = (4000, 1000, 210.0, 1720.0);
    c.desc(format!("num={num} n={n}"));
    let mut ones = tx_fh_bpsk_signal(std::iter::repeat(true), lo, hi, num, fs, sr);
    let mut tx = tx_fh_bpsk_signal(msg(0), lo, hi, num, fs, sr);
    let mut rx = rx_fh_bpsk_signal(tx_fh_bpsk_signal(msg(0), lo, hi, num, fs, sr), lo, hi, num, fs, sr);
    let mut old = tx_fh_bpsk_signal_old(msg(0), lo, hi, num, fs, sr, 777.0);
    let mut old_ones = tx_fh_bpsk_signal_old(std::iter::repeat(true), lo, hi, num, fs, sr, 777.0);
    let mut hops = Hops::new(num);
    let (mut a, mut b) = (vec![], vec![]);
    for k in 0..n {
        take(&mut ones, &mut a, sps)?;
        let q = hops.next(k, &a)?;
        if k < num {
            let fits = (0..num).filter(|&h| {
                let f = lo + h as f64 * (hi - lo) / num as f64;
                (0..sps).all(|j| (a[j] - cyc(f, j, fs).cos()).abs() < 1e-9)
            });
            ensure!(fits.count() == 1, "symbol {k} is at no hop frequency");
        }
        take(&mut tx, &mut b, sps)?;
        let s = nrz(bit(k));
        ensure!((0..sps).all(|j| (b[j] - s * a[j]).abs() < 1e-7), "symbol {k} (hop {q}) is {b:?}, and {a:?} with all bits set");
        let x = rx.next();
        ensure!(x == Some(bit(k)), "bit {k} arrives as {x:?}");
        take(&mut old_ones, &mut a, sps)?;
        take(&mut old, &mut b, sps)?;
        ensure!((0..sps).all(|j| (b[j] - s * a[j]).abs() < 1e-7), "mixing variant: symbol {k} is {b:?}, and {a:?} with all bits set");
    }
    c.ev(n * (2 * sps + 1));
    Ok(())
}

fn c09(c: &mut Case) -> R {
    let n = far(c, false) / 8;
    let num = c.rng.range(4, 7);
    let sps = 8;
    let (fs, sr, lo, hi) = (8000, 1000, 210.0, 3720.0);
    c.desc(format!("num={num} n={n}"));
    let mut ups = tx_fh_css_signal(std::iter::repeat(true), fs, sr, lo, hi, num);
    let mut downs = tx_fh_css_signal(std::iter::repeat(false), fs, sr, lo, hi, num);
    let mut tx = tx_fh_css_signal(msg(0), fs, sr, lo, hi, num);
    let (mut hu, mut hd) = (Hops::new(num), Hops::new(num));
    let (mut u, mut d, mut b) = (vec![], vec![], vec![]);
    for k in 0..n {
        take(&mut ups, &mut u, sps)?;
        take(&mut downs, &mut d, sps)?;
        take(&mut tx, &mut b, sps)?;
        let (p, q) = (hu.next(k, &u)?, hd.next(k, &d)?);
        ensure!(p == q, "symbol {k}: the up- and the down-chirp are in different subchannels");
        ensure!(alike(&b, if bit(k) { &u } else { &d }), "symbol {k} is {b:?}, for a bit of {}", bit(k));
    }
    c.ev(n * sps);
    Ok(())
}

fn c10(c: &mut Case) -> R {
    let first = c.idx < 4;
    let n = far(c, first);
    let sps = c.rng.range(2, 6);
    let (r, f) = slow(c, sps);
    let kind = c.idx % 4;
    let (hi, lo) = if kind == 3 { (f * 1.025, f * 0.975) } else { (f, f * 0.713) };
    c.desc(format!("{} fs={} sr={} hi={hi} lo={lo} n={n}", ["bfsk", "mfsk", "fsk-list", "fsk-centred"][kind as usize], r.fs, r.sr));
    let tol = phase_tol(f, n, r.fs).min(1e-3) + 1e-7;
    let (mut j, mut k, mut cur) = (0, 0, if bit(0) { hi } else { lo });
    let model = |i: usize| {
        let y = cyc(cur, i, r.fs).cos();
        j += 1;
        if j == sps {
            j = 0;
            k += 1;
            cur = if bit(k) { hi } else { lo };
        }
        y
    };
    match kind {
        0 => watch(c, "BFSK", tx_bfsk_signal(msg(0), r.fs, r.sr, lo, hi), n, tol, model),
        1 => watch(c, "MFSK", tx_mfsk_signal(msg(0), r.fs, r.sr, lo, hi, 2), n, tol, model),
        2 => watch(c, "FSK of a list", tx_fsk_signal(msg(0), r.fs, r.sr, &[hi, lo]), n, tol, model),
        _ => {
            watch(c, "centred FSK", tx_fsk(msg(0), r.fs, r.sr, f), n, tol, model)?;
            // Tones a symbol rate apart: at 20 cycles a symbol.
            let (sps, sr) = (50, 100);
            let (fs, fc) = (sps * sr, 20.0 * sr as f64);
            let n = n / sps;
            watch_bits(c, "FSK", rx_fsk(tx_fsk(msg(0), fs, sr, fc), fs, sr, fc), n, 0)
        }
    }
}

fn c11(c: &mut Case) -> R {
    let n = far(c, c.idx == 0);
    let sps = c.rng.range(1, 6);
    let (r, f) = slow(c, sps);
    c.desc(format!("fs={} sr={} f={f} n={n}", r.fs, r.sr));
    // Plus and minus in turn at random places: the sum stays small and exact.
    let val = |k: usize| if k % 2 == 0 { real(k) } else { -real(k - 1) };
    let (mut j, mut k, mut sum) = (0, 0, 0.0);
    let tol = phase_tol(f, n, r.fs).min(1e-3) + 1e-7;
    let model = |i: usize| {
        sum += val(k);
        let y = (cyc(f, i, r.fs) + 0.05 * sum).cos();
        j += 1;
        if j == sps {
            j = 0;
            k += 1;
        }
        y
    };
    watch(c, "FM", tx_fm((0usize..).map(val), r.fs, r.sr, f), n, tol, model)
}

fn c12(c: &mut Case) -> R {
    let first = c.idx < 5;
    let n = far(c, first);
    c.desc(format!("kind={} n={n}", c.idx % 5));
    match c.idx % 5 {
        0 | 1 => {
            let (mu, x0) = (c.rng.pick(&[3.9, 4.0, 3.99]), c.rng.uniform(0.1, 0.9));
            let cheb = c.idx % 5 == 1;
            c.desc(format!("mu={mu} x0={x0} chebyshev={cheb}"));
            let mut it: Box<dyn Iterator<Item = f64>> = if cheb { Box::new(Chebyshev::new(x0)) } else { Box::new(LogisticMap::new(mu, x0)) };
            let mut prev = x0;
            for i in 0..n {
                let Some(x) = it.next() else { return Err(format!("ended after {i} values")) };
                let w = if cheb { 1.0 - 2.0 * prev * prev } else { mu * prev * (1.0 - prev) };
                ensure!((x - w).abs() <= 1e-12 && (if cheb { -1.0 } else { 0.0 } - 1e-12..=1.0 + 1e-12).contains(&x), "value {i} is {x}, but the map takes {prev} to {w}");
                prev = x;
            }
            c.ev(n);
            Ok(())
        }
        2 => {
            let mut tx = tx_baseband_csk(msg(0));
            let mut ones = tx_baseband_csk(std::iter::repeat(true));
            let mut zeros = tx_baseband_csk(std::iter::repeat(false));
            for k in 0..n {
                let (one, zero) = (ones.next(), zeros.next());
                let w = if bit(k) { one } else { zero };
                let x = tx.next();
                ensure!(x.zip(w).is_some_and(|(x, w)| (x - w).abs() < 1e-9), "CSK value {k} is {x:?}, the bit's sequence goes on with {w:?}");
            }
            c.ev(n);
            Ok(())
        }
        3 => {
            let mut tx = tx_baseband_dcsk(msg(0));
            for k in 0..n / 2 {
                let (Some(a), Some(b)) = (tx.next(), tx.next()) else { return Err(format!("DCSK ended at bit {k}")) };
                ensure!((b - a * nrz(bit(k))).abs() < 1e-12 && a.abs() <= 1.0, "DCSK pair {k} is {a} and {b} for a bit of {}", bit(k));
            }
            c.ev(n);
            Ok(())
        }
        _ => watch_bits(c, "DCSK", rx_baseband_dcsk(tx_baseband_dcsk(msg(0))), n / 2, 0),
    }
}

fn c13(c: &mut Case) -> R {
    let n = far(c, false);
    c.desc(format!("kind={} n={n}", c.idx % 2));
    if c.idx % 2 == 0 {
        return watch_bits(c, "FH-OFDM-DCSK", rx_baseband_fh_ofdm_dcsk_signal(tx_baseband_fh_ofdm_dcsk_signal(msg(0))), n / 10 * 7, 0);
    }
    let sps = c.rng.range(2, 4);
    let (r, f) = slow(c, sps);
    c.desc(format!("fs={} sr={} f={f}", r.fs, r.sr));
    let mut base = tx_baseband_fh_ofdm_dcsk_signal(msg(0));
    let (mut j, mut cur) = (0, base.next());
    let tol = phase_tol(f, n, r.fs).min(1e-3) + 1e-7;
    watch(c, "FH-OFDM-DCSK", tx_fh_ofdm_dcsk_signal_2(msg(0), r.fs, r.sr, f), n, tol, |i| {
        let y = cur.map_or(f64::NAN, |b| (b * C64::from_polar(1.0, -cyc(f, i, r.fs))).re);
        j += 1;
        if j == sps {
            j = 0;
            cur = base.next();
        }
        y
    })
}

fn c14(c: &mut Case) -> R {
    let n = far(c, false);
    let nsub = c.rng.pick(&[4usize, 6, 8]);
    let nulls = c.rng.range(1, nsub - 1);
    let (d, o) = (nsub - nulls, nsub + nsub / 4);
    c.desc(format!("N={nsub} nulls={nulls} n={n}"));
    let sym = |k: usize| C64::new(real(2 * k), real(2 * k + 1));
    let mut tx = tx_baseband_ofdm_signal((0usize..).map(sym), nsub, nulls);
    let mut rx = rx_baseband_ofdm_signal(tx_baseband_ofdm_signal((0usize..).map(sym), nsub, nulls), nsub, nulls);
    let mut a = vec![];
    let mut scale = 0.0;
    for g in 0..n / o {
        take(&mut tx, &mut a, o)?;
        for (x, y) in a[..nsub / 4].iter().zip(&a[nsub..]) {
            ensure!((x - y).norm() < 1e-9, "OFDM symbol {g}: the prefix {:?} is not its end {:?}", &a[..nsub / 4], &a[nsub..]);
        }
        // All the energy there is, is that of the symbols sent.
        let e: f64 = a[nsub / 4..].iter().map(|x| x.norm_sqr()).sum();
        let mut want = 0.0;
        for k in g * d..(g + 1) * d {
            let x = rx.next();
            let s = sym(k);
            want += s.norm_sqr();
            ensure!(x.is_some_and(|x| (x - s).norm() < 1e-9), "symbol {k} of {d} per OFDM symbol: sent {s} received {x:?}");
        }
        // The same scale in every OFDM symbol.
        if g == 0 {
            scale = e / want;
        }
        ensure!((e - scale * want).abs() < 1e-9 * e, "OFDM symbol {g} holds an energy of {e}, its data {want}; the first one's ratio was {scale}");
    }
    c.ev(n + n / o * d);
    Ok(())
}

fn c15(c: &mut Case) -> R {
    let n = far(c, false);
    let (nsub, nulls, sps, sr) = (8, c.rng.range(1, 5), 4, 1000);
    let (fs, f) = (sps * sr, sr as f64);
    c.desc(format!("N={nsub} nulls={nulls} n={n}"));
    let sent = |from: usize| tx_baseband_ofdm_signal(tx_baseband_qpsk_signal(msg(from)), nsub, nulls);
    let mut base = sent(0);
    let (mut j, mut cur) = (0, base.next());
    watch(c, "OFDM", tx_ofdm_qpsk_signal(msg(0), nsub, nulls, fs, sr, f), n, 1e-6, |i| {
        let y = cur.map_or(f64::NAN, |b| (b * C64::from_polar(1.0, cyc(f, i, fs))).re);
        j += 1;
        if j == sps {
            j = 0;
            cur = base.next();
        }
        y
    })?;
    let m = n / (10 * sps) * 2 * (nsub - nulls);
    watch_bits(c, "OFDM-QPSK", rx_ofdm_qpsk_signal(tx_ofdm_qpsk_signal(msg(0), nsub, nulls, fs, sr, f), nsub, nulls, fs, sr, f), m, 0)
}

fn c16(c: &mut Case) -> R {
    let kind = c.idx % 9;
    let first = c.idx < 9;
    let n = far(c, first);
    let k = c.rng.range(2, 5);
    c.desc(format!("kind={kind} k={k} n={n}"));
    let xs = || (0usize..).map(real);
    match kind {
        0 | 1 => {
            let mut it: Box<dyn Iterator<Item = Vec<usize>>> = if kind == 0 { Box::new((0..n).chunks(k)) } else { Box::new((0..n).wchunks(k)) };
            let mut i = 0;
            while i < n {
                let Some(v) = it.next() else { return Err(format!("ended at item {i} of {n}")) };
                let m = k.min(n - i);
                ensure!(v.len() == if kind == 0 { m } else { k } && (0..m).all(|j| v[j] == i + j) && v[m..].iter().all(|&x| x == 0), "the chunk at item {i} is {v:?}");
                i += m;
            }
            ensure!(it.next().is_none(), "more chunks than {n} items fill");
        }
        2 => {
            let mut it = (0usize..).inflate(k);
            for i in 0..n / k {
                for j in 0..k {
                    let x = it.next();
                    ensure!(x == Some(i), "copy {j} of item {i} is {x:?}");
                }
            }
        }
        3 => {
            let mut sum = 0.0;
            return watch(c, "integral", xs().integrate(), n, 0.0, |i| {
                sum += real(i);
                sum
            });
        }
        4 => {
            return watch(c, "integrate and dump", xs().integrate_and_dump(k), n / k, 1e-12, |i| (i * k..(i + 1) * k).map(real).sum());
        }
        5 => {
            let mut it = (0..n).take_every(k);
            for i in (0..n).step_by(k) {
                let x = it.next();
                ensure!(x == Some(i), "item {i} of every {k}: {x:?}");
            }
            ensure!(it.next().is_none(), "more items than every {k} of {n}");
        }
        6 => {
            let taps: Vec<f64> = (0..k).map(|j| real(j) + 0.125).collect();
            let w = taps.clone();
            return watch(c, "convolution", xs().convolve(taps), n / 2, 1e-12, move |i| (0..k.min(i + 1)).map(|j| w[j] * real(i - j)).sum());
        }
        7 => {
            let (mut a, mut b) = (0.0, 0.0);
            let mut it = xs().map(|x| [x, 1.0 - x]).nintegrate();
            let mut dump = xs().map(|x| [x, 1.0 - x]).nintegrate_and_dump(2);
            for i in 0..n / 2 {
                let x = it.next();
                let (pa, pb) = (a, b);
                a += real(i);
                b += 1.0 - real(i);
                ensure!(x == Some([a, b]), "two-channel integral {i}: {x:?}, expected {a} and {b}");
                if i % 2 == 1 {
                    let (da, db) = (real(i - 1) + real(i), 2.0 - real(i - 1) - real(i));
                    let _ = (pa, pb);
                    let x = dump.next();
                    ensure!(x.is_some_and(|x| (x[0] - da).abs() < 1e-12 && (x[1] - db).abs() < 1e-12), "two-channel sum {}: {x:?}, expected {da} and {db}", i / 2);
                }
            }
        }
        _ => {
            let taps: Vec<f64> = (0..k).map(|j| real(j) + 0.125).collect();
            let w = taps.clone();
            let mut it = xs().map(|x| [x, -x]).nonvolve(taps);
            for i in 0..n / 4 {
                let y: f64 = (0..k.min(i + 1)).map(|j| w[j] * real(i - j)).sum();
                let x = it.next();
                ensure!(x.is_some_and(|x| (x[0] - y).abs() < 1e-12 && (x[1] + y).abs() < 1e-12), "two-channel convolution {i}: {x:?}, expected {y}");
            }
            return watch(c, "scaling", xs().scale(-2.5), n / 2, 0.0, |i| -2.5 * real(i));
        }
    }
    c.ev(n);
    Ok(())
}

fn c18(c: &mut Case) -> R {
    let n = far(c, false);
    let complex = c.idx % 2 == 1;
    let sigma = c.rng.uniform(0.5, 2.0);
    c.desc(format!("complex={complex} sigma={sigma} n={n}"));
    let mut it: Box<dyn Iterator<Item = f64>> = if complex {
        Box::new(komunikilo::awgn_complex(std::iter::repeat(C64::new(0.0, 0.0)), sigma).flat_map(|z| [z.re, z.im]))
    } else {
        Box::new(komunikilo::awgn(std::iter::repeat(0.0), sigma))
    };
    // Values of the first million samples never come again, but for coincidences; block moments and short lags stay those of white noise.
    let mut head: HashSet<u64> = HashSet::new();
    let mut again = 0;
    let block = 1 << 18;
    let (mut i, mut blk) = (0, 0);
    while i < n {
        let m = block.min(n - i);
        let (mut s1, mut s2, mut s4) = (0.0, 0.0, 0.0);
        let mut lag = [0.0f64; 4];
        let mut old = [0.0f64; 4];
        for _ in 0..m {
            let Some(x) = it.next() else { return Err(format!("ended after {i} samples")) };
            let seen = if i < 1 << 20 { !head.insert(x.abs().to_bits()) } else { head.contains(&x.abs().to_bits()) };
            if seen {
                again += 1;
                ensure!(again < 8, "the noise repeats earlier values, their signs aside, the {again}th time at sample {i}");
            }
            let z = x / sigma;
            s1 += z;
            s2 += z * z;
            s4 += z * z * z * z;
            for l in 0..4 {
                lag[l] += z * old[l];
            }
            old = [z, old[0], old[1], old[2]];
            i += 1;
        }
        let d = (m as f64).sqrt();
        // Seven deviations: a false alarm in 10^11 block statistics.
        let t = |s: f64, dev: f64| (s / d / dev).abs() <= 7.0;
        if m >= 4096 {
            ensure!(t(s1, 1.0), "block {blk} has mean {}", sigma * s1 / m as f64);
            ensure!(t(s2 - m as f64, 2f64.sqrt()), "block {blk} has variance {}", sigma * sigma * s2 / m as f64);
            ensure!(t(s4 - 3.0 * m as f64, 96f64.sqrt()) || m < 1 << 16, "block {blk} has a fourth moment of {} deviations^4", s4 / m as f64);
            for l in 0..4 {
                ensure!(t(lag[l], 1.0), "block {blk} correlates at lag {}: {}", l + 1, lag[l] / m as f64);
            }
        }
        blk += 1;
    }
    c.ev(n);
    Ok(())
}

/// More bits, and more errors among them, than 24 bits count.
fn c19(c: &mut Case) -> R {
    let n = 2 * far(c, false).min(1 << 29);
    c.desc(format!("n={n}"));
    let a: Vec<Bit> = (0..n).map(bit).collect();
    let mut b = a.clone();
    let mut d = 0;
    for (i, x) in b.iter_mut().enumerate() {
        if i % 16 != 3 && i > n / 50 {
            *x = !*x;
            d += 1;
        }
    }
    let (got, want) = (komunikilo::ber(&a, &b), d as f64 / n as f64);
    c.ev(n);
    ensure!((got - want).abs() <= 1e-12, "ber of {n} bits with {d} errors is {got}, expected {want}");
    Ok(())
}

fn c20(c: &mut Case) -> R {
    let n = far(c, false).min(1 << 26);
    c.desc(format!("kind={} n={n}", c.idx));
    let near = |what: &str, x: f64, w: f64| -> R {
        ensure!((x - w).abs() <= 1e-9 * w.abs(), "{what} of {n} samples is {x}, expected {w}");
        Ok(())
    };
    match c.idx {
        0 => near("energy", komunikilo::energy(std::iter::repeat(0.5).take(n), 8.0), n as f64 / 32.0)?,
        1 => near("power", komunikilo::power(std::iter::repeat(0.5).take(n), 8.0), 1.0 / 32.0)?,
        2 => near("average energy", komunikilo::avg_energy(&vec![0.5; n]), 0.25)?,
        3 => {
            watch(c, "linspace", komunikilo::linspace(-1.0, 3.0, n), n, 1e-9, |i| -1.0 + 4.0 * (i as f64 / n as f64))?;
            ensure!(komunikilo::linspace(-1.0, 3.0, n).count() == n, "linspace does not give {n} points");
        }
        4 => {
            let w = komunikilo::hamming_window(n);
            ensure!(w.len() == n, "a Hamming window of {} for {n}", w.len());
            for i in 0..n {
                let x = 0.54 - 0.46 * (2.0 * std::f64::consts::PI * (i as f64 / n as f64)).cos();
                ensure!((w[i] - x).abs() < 1e-9, "Hamming window of {n}: entry {i} is {}, expected {x}", w[i]);
            }
        }
        _ => {
            let a: Vec<Bit> = (0..n).map(bit).collect();
            let mut b = a.clone();
            let d = n / 3;
            b[n - d..].iter_mut().for_each(|x| *x = !*x);
            near("error rate", komunikilo::ber(&a, &b), d as f64 / n as f64)?;
        }
    }
    c.ev(n);
    Ok(())
}

fn periodic(c: &mut Case, what: &str, mut it: impl Iterator<Item = f64>, len: usize, blocks: usize) -> R {
    let (mut a, mut b) = (vec![], vec![]);
    take(&mut it, &mut a, len)?;
    for k in 1..blocks {
        take(&mut it, &mut b, len)?;
        if let Some(j) = (0..len).find(|&j| (a[j] - b[j]).abs() > 1e-9) {
            return Err(format!("{what}: block {k} has the first block's input, but its sample {j} is {} instead of {}", b[j], a[j]));
        }
    }
    c.ev(len * blocks);
    Ok(())
}

fn c24(c: &mut Case) -> R {
    let n = far(c, false);
    let len = c.rng.pick(&[64usize, 100, 256]);
    c.desc(format!("len={len} n={n}"));
    periodic(c, "band-pass filter", komunikilo::bpf::bandpass(900.0, 3100.0, (0usize..).map(move |i| real(i % len)), 10_000, len), len, n / len)
}

fn c25(c: &mut Case) -> R {
    let n = far(c, false);
    let len = 81_920;
    c.desc(format!("n={n}"));
    periodic(c, "Butterworth filter", komunikilo::bpf::butterpass(1000.0, 2000.0, (0usize..).map(move |i| real(i % len)), 10_000), len, n / len)
}
