//! Generators, probes and independent arithmetic shared by the monitors.
use crate::core::*;
use num_complex::Complex;
use std::f64::consts::PI;

pub type Bit = bool;
pub type C64 = Complex<f64>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

/// Message bits with structure as well as noise.
pub fn bits(rng: &mut Rng, n: usize) -> Vec<Bit> {
    match rng.below(10) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => (0..n).map(|i| i % 2 == 0).collect(),
        3 => {
            let mut v = vec![rng.bool(); n];
            if n > 0 {
                let i = rng.below(n);
                v[i] = !v[i];
            }
            v
        }
        4 => {
            // Runs.
            let mut v = Vec::with_capacity(n);
            let mut b = rng.bool();
            while v.len() < n {
                let k = 1 + rng.below(20);
                for _ in 0..k.min(n - v.len()) {
                    v.push(b);
                }
                b = !b;
            }
            v
        }
        _ => (0..n).map(|_| rng.bool()).collect(),
    }
}

pub fn rand_bits(rng: &mut Rng, n: usize) -> Vec<Bit> {
    (0..n).map(|_| rng.bool()).collect()
}

/// Show bits compactly in a case description.
pub fn show(b: &[Bit]) -> String {
    let s: String = b.iter().take(48).map(|&x| if x { '1' } else { '0' }).collect();
    if b.len() > 48 {
        let t: String = b.iter().map(|&x| if x { '1' } else { '0' }).collect();
        format!("{s}...({} bits, h={:x})", b.len(), hash(&t) & 0xffff)
    } else {
        format!("{s}({} bits)", b.len())
    }
}

/// A message length that favours the small and the boundaries.
pub fn msg_len(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(8) {
        0 => rng.below(4),
        1 => rng.below(10),
        2 => {
            let p = 1usize << rng.below(17);
            (p + rng.below(3)).saturating_sub(1)
        }
        3 => 7 * rng.below(20) + rng.below(2),
        4 => 8 * rng.below(40),
        _ => rng.below(max.max(1)),
    };
    n.min(max)
}

/// `msg_len`, and now and then more than sixteen bits count.
pub fn any_len(c: &mut Case, tiny: usize, small: usize, full: usize) -> usize {
    if c.scale > 1 && c.rng.chance(0.004) {
        let spread = if c.rng.bool() { 4 } else { 100_000 };
        return 65_534 + c.rng.below(spread);
    }
    let max = c.size(tiny, small, full);
    msg_len(&mut c.rng, max)
}

#[derive(Clone, Copy, Debug)]
pub struct Rates {
    pub fs: usize,
    pub sr: usize,
    pub sps: usize,
}

/// A sample rate that is a whole multiple of the symbol rate.
pub fn rates(rng: &mut Rng, max_sps: usize) -> Rates {
    let sps = match rng.below(6) {
        0 => 1 + rng.below(4),
        1 => 1 << rng.below(8),
        2 => 1 + 2 * rng.below(40),
        3 => rng.pick(&[49, 44, 48, 100, 256, 10, 25, 80]),
        _ => 1 + rng.below(max_sps),
    }
    .clamp(1, max_sps);
    // Now and then a symbol of thousands of samples.
    let sps = if max_sps >= 60 && rng.chance(0.02) { 130 + rng.below(6000) } else { sps };
    let sr = match rng.below(6) {
        0 => 1 + rng.below(4),
        1 => rng.pick(&[900, 1000, 256, 1200, 9600]),
        2 => rng.pick(&[1_000_000, 250_000, 30_720, 100_000_000, 3_000_000_000]),
        _ => 1 + rng.below(5000),
    };
    Rates { fs: sps * sr, sr, sps }
}

/// A symbol of more samples than sixteen bits count.
pub fn huge_rates(c: &mut Case) -> Rates {
    let sps = match c.rng.below(4) {
        0 => c.rng.pick(&[65_535usize, 65_536, 65_537]),
        1 => 131_072 + c.rng.below(3),
        _ => 65_536 + c.rng.below(70_000),
    };
    let sps = sps.min(c.size(300, 7000, usize::MAX));
    let sr = c.rng.pick(&[1usize, 2, 9, 10]);
    Rates { fs: sps * sr, sr, sps }
}

/// A carrier the library accepts (at most half of the sample rate).
pub fn carrier(rng: &mut Rng, r: Rates) -> f64 {
    let nyq = (r.fs / 2) as f64;
    match rng.below(9) {
        0 => 0.0,
        1 => nyq,
        2 => (r.fs / 4) as f64,
        3 => (rng.below(r.fs / 2 + 1)) as f64,
        4 => (r.sr as f64 * rng.range(0, 8) as f64 / 2.0).min(nyq),
        5 => rng.uniform(0.0, (r.sr as f64 / 3.0).min(nyq)),
        6 => (nyq - rng.f64()).max(0.0),
        _ => rng.uniform(0.0, nyq),
    }
}

pub fn nrz(b: Bit) -> f64 {
    if b {
        1.0
    } else {
        -1.0
    }
}

/// Phase in cycles of frequency f at sample i, reduced before the multiply by 2 pi.
pub fn cyc(f: f64, i: usize, fs: usize) -> f64 {
    let x = f * i as f64 / fs as f64;
    2.0 * PI * (x - x.floor())
}

/// How far two phases computed at sample i may drift apart through rounding alone.
pub fn phase_tol(f: f64, n: usize, fs: usize) -> f64 {
    let ph = 2.0 * PI * f.abs() * n as f64 / fs as f64;
    1e-8 + ph * 1e-13 * (1.0 + (n as f64) / 1e4)
}

pub fn same_bits(what: &str, got: &[Bit], want: &[Bit]) -> R {
    if got.len() != want.len() {
        return Err(format!("{what}: {} bits, expected {}", got.len(), want.len()));
    }
    if let Some(i) = (0..got.len()).find(|&i| got[i] != want[i]) {
        let wrong = (0..got.len()).filter(|&i| got[i] != want[i]).count();
        return Err(format!(
            "{what}: {wrong} of {} bits differ, first at {i}: got {} expected {}",
            got.len(),
            got[i],
            want[i]
        ));
    }
    Ok(())
}

pub fn close(what: &str, got: &[f64], want: &[f64], tol: f64) -> R {
    if got.len() != want.len() {
        return Err(format!("{what}: {} values, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        if !((got[i] - want[i]).abs() <= tol) {
            return Err(format!(
                "{what}: value {i} of {} is {:e}, expected {:e} (tolerance {tol:e})",
                got.len(),
                got[i],
                want[i]
            ));
        }
    }
    Ok(())
}

pub fn cclose(what: &str, got: &[C64], want: &[C64], tol: f64) -> R {
    if got.len() != want.len() {
        return Err(format!("{what}: {} values, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        if !((got[i] - want[i]).norm() <= tol) {
            return Err(format!(
                "{what}: value {i} of {} is {}, expected {} (tolerance {tol:e})",
                got.len(),
                got[i],
                want[i]
            ));
        }
    }
    Ok(())
}

/// Collect at most a bit more than expected, so that a stream that forgot to
/// end is an error rather than a hang.
pub fn take_all<T>(it: impl Iterator<Item = T>, expect: usize) -> Vec<T> {
    it.take(expect * 2 + 4096).collect()
}

/// A source that counts how it is polled and refuses to be polled for ever
/// after its end.
pub struct Src<'a, T> {
    data: &'a [T],
    pos: usize,
    past: usize,
}

pub fn src<T: Copy>(data: &[T]) -> Src<'_, T> {
    Src { data, pos: 0, past: 0 }
}

impl<T: Copy> Iterator for Src<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.pos < self.data.len() {
            self.pos += 1;
            Some(self.data[self.pos - 1])
        } else {
            self.past += 1;
            if self.past > 2_000_000 + 2 * self.data.len() {
                panic!("PROBE: the exhausted input was polled {} times without the output ending", self.past);
            }
            None
        }
    }
}

/// DFT from its definition (sign = -1 forward, +1 inverse, unnormalised),
/// split into even and odd places while the length allows it.
pub fn dft(x: &[C64], sign: f64) -> Vec<C64> {
    let n = x.len();
    let tw: Vec<C64> = (0..n)
        .map(|k| C64::from_polar(1.0, sign * 2.0 * PI * k as f64 / n as f64))
        .collect();
    if n > 64 && n % 2 == 0 {
        let part = |r: usize| dft(&x.iter().skip(r).step_by(2).cloned().collect::<Vec<_>>(), sign);
        let (e, o) = (part(0), part(1));
        return (0..n).map(|k| e[k % (n / 2)] + tw[k] * o[k % (n / 2)]).collect();
    }
    (0..n)
        .map(|k| {
            let mut s = C64::new(0.0, 0.0);
            let mut j = 0;
            for v in x {
                s += v * tw[j];
                j += k;
                if j >= n {
                    j -= n;
                }
            }
            s
        })
        .collect()
}

/// Complementary error function to near machine precision (series / continued fraction).
pub fn erfc_ref(x: f64) -> f64 {
    let a = x.abs();
    let v = if a < 2.5 {
        // 1 - erf by the Maclaurin series.
        let mut term = a;
        let mut sum = a;
        let mut n = 0.0;
        while term.abs() > 1e-18 * sum.abs() && n < 200.0 {
            n += 1.0;
            term *= -a * a / n;
            sum += term / (2.0 * n + 1.0);
        }
        1.0 - 2.0 / PI.sqrt() * sum
    } else {
        // Lentz continued fraction.
        let mut f = 0.0;
        for k in (1..=120).rev() {
            f = (k as f64 / 2.0) / (a + f);
        }
        (-a * a).exp() / PI.sqrt() / (a + f)
    };
    if x >= 0.0 {
        v
    } else {
        2.0 - v
    }
}

pub fn q(x: f64) -> f64 {
    0.5 * erfc_ref(x / 2f64.sqrt())
}

/// Whole half cycles per symbol without landing on DC or Nyquist:
/// the sum of cos^2 and sin^2 over a symbol is sps/2 and that of sin*cos is 0.
pub fn half_cycle_carrier(rng: &mut Rng, r: Rates) -> Option<f64> {
    // f = h * fs / (2 sps) = h * sr / 2, 1 <= h <= sps - 1.
    if r.sps < 2 {
        return None;
    }
    let h = rng.range(1, r.sps - 1);
    Some(h as f64 * r.sr as f64 / 2.0)
}
