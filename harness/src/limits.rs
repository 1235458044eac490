//! C26: configurations at and beyond the limits.
use crate::core::*;
use crate::ensure;
use crate::util::*;
use komunikilo::bpf::*;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::chaos::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::hadamard::HadamardMatrix;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use komunikilo::ssca::*;

/// Run a transmitter over a short message: how many samples, or the panic.
type Tx<'a> = &'a dyn Fn(&[Bit]) -> usize;

fn rejects(what: &str, tx: Tx) -> R {
    // Even without a single bit of message the configuration is refused.
    for msg in [&[][..], &[true][..], &[true, false, true, true, false, false, true, false][..]] {
        match catch(|| tx(msg)) {
            Ok(n) => return Err(format!("{what}: accepted, with {n} samples for {} bits", msg.len())),
            Err(e) if e.starts_with("PROBE") => return Err(format!("{what}: {e}")),
            Err(_) => {}
        }
    }
    Ok(())
}

fn accepts(what: &str, want: usize, tx: Tx) -> R {
    let msg = [true, false, true, true, false, false, true, false];
    match catch(|| tx(&msg)) {
        Ok(n) if n == want => Ok(()),
        Ok(n) => Err(format!("{what}: {n} samples, expected {want}")),
        Err(e) => Err(format!("{what}: rejected with a panic: {e}")),
    }
}

/// Counts outputs; a transmitter that should have refused must not have output anything,
/// so building it is enough to make it panic.
fn count<T>(it: impl Iterator<Item = T>) -> usize {
    it.take(1_000_000).count()
}

const KINDS: [&str; 12] = [
    "tx_bpsk_signal", "tx_qpsk_signal", "tx_cdma_bpsk_signal", "tx_cdma_qpsk_signal", "tx_coded_cdma_bpsk_signal", "tx_bfsk_signal", "tx_mfsk_signal", "tx_fsk_signal", "tx_fsk", "tx_fm", "tx_fh_ofdm_dcsk_signal_2", "tx_ofdm_qpsk_signal",
];
const HOPS: [&str; 4] = ["tx_fh_bpsk_signal", "rx_fh_bpsk_signal", "tx_fh_css_signal", "tx_fh_ofdm_dcsk_signal"];

/// The transmitter of a kind; its highest frequency is `f`.
fn run(kind: usize, msg: &[Bit], fs: usize, sr: usize, f: f64, key: &[Bit]) -> usize {
    let m = msg.iter().cloned();
    match kind {
        0 => count(tx_bpsk_signal(m, fs, sr, f)),
        1 => count(tx_qpsk_signal(m, fs, sr, f)),
        2 => count(tx_cdma_bpsk_signal(m, fs, sr, f, key)),
        3 => count(tx_cdma_qpsk_signal(m, fs, sr, f, key)),
        4 => count(tx_coded_cdma_bpsk_signal(m, fs, sr, f, key)),
        5 => count(tx_bfsk_signal(m, fs, sr, f / 2.0, f)),
        6 => count(tx_mfsk_signal(m, fs, sr, f / 3.0, f, 4)),
        7 => count(tx_fsk_signal(m, fs, sr, &[f, f / 4.0])),
        8 => count(tx_fsk(m, fs, sr, f / 1.025)),
        9 => count(tx_fm(m.map(nrz), fs, sr, f)),
        10 => count(tx_fh_ofdm_dcsk_signal_2(m, fs, sr, f)),
        _ => count(tx_ofdm_qpsk_signal(m, 8, 3, fs, sr, f)),
    }
}

fn samples(kind: usize, sps: usize) -> usize {
    match kind {
        1 | 3 => 4 * sps,
        4 => 6 * 8 * sps,
        10 => 20 * sps,
        11 => 10 * sps,
        _ => 8 * sps,
    }
}

fn hop(kind: usize, msg: &[Bit], fs: usize, sr: usize, low: f64, high: f64, num: usize) -> usize {
    let m = msg.iter().cloned();
    match kind {
        0 => count(tx_fh_bpsk_signal(m, low, high, num, fs, sr)),
        1 => count(rx_fh_bpsk_signal(m.map(nrz), low, high, num, fs, sr)),
        2 => count(tx_fh_css_signal(m, fs, sr, low, high, num)),
        _ => count(tx_fh_ofdm_dcsk_signal(m, low, high, num, fs, sr)),
    }
}

/// Symbol rates from one to a billion a second.
fn rate(c: &mut Case) -> usize {
    match c.rng.below(3) {
        0 => c.rng.pick(&[1usize, 2, 25, 100, 441, 900, 1575, 9600]),
        1 => 1 + 10f64.powf(c.rng.uniform(0.0, 9.0)) as usize,
        // Sample rates near the powers of two, where narrow integers end.
        _ => 1 + ((1usize << (6 + c.rng.below(28))) as f64 * c.rng.uniform(0.02, 1.0)) as usize,
    }
}

pub fn c26() -> Vec<Group> {
    vec![
        group("carrier", 2400, 30_000, |c| {
            let kind = c.idx as usize % KINDS.len();
            let sps = 2 + c.rng.below(40);
            let sr = rate(c);
            let fs = sps * sr;
            let key = [true];
            let nyq = fs as f64 / 2.0;
            let whole = (fs / 2) as f64;
            let over = match c.rng.below(4) {
                0 => nyq + 1.0,
                1 => nyq + 1.0 + c.rng.f64() * 10.0,
                2 => nyq * c.rng.uniform(1.5, 10.0) + 1.0,
                _ => fs as f64 + 1.0,
            };
            // Computed through a division where the tone is given as carrier plus 2.5 %.
            let over = if kind == 8 { over + 1e-6 * over } else { over };
            c.desc(format!("{} fs={fs} sr={sr} over={over}", KINDS[kind]));
            c.ev(4);
            rejects(&format!("{} at {over} Hz with {fs} samples per second", KINDS[kind]), &|m| run(kind, m, fs, sr, over, &key))?;
            let under = match c.rng.below(3) {
                0 => whole,
                1 => whole * c.rng.f64(),
                _ => 0.0,
            };
            let under = if kind == 8 { under * (1.0 - 1e-9) } else { under };
            accepts(&format!("{} at {under} Hz with {fs} samples per second", KINDS[kind]), samples(kind, sps), &|m| run(kind, m, fs, sr, under, &key))
        })
        .small(24)
        .tiny(4),
        group("hop-band", 800, 10_000, |c| {
            let kind = c.idx as usize % HOPS.len();
            let sps = 2 + c.rng.below(40);
            let sr = rate(c);
            let fs = sps * sr;
            let whole = (fs / 2) as f64;
            let num = c.rng.range(1, 12);
            let low = whole * c.rng.uniform(0.0, 0.9);
            let over = fs as f64 / 2.0 + 1.0 + if c.rng.bool() { 0.0 } else { c.rng.f64() * whole };
            c.desc(format!("{} fs={fs} sr={sr} low={low} over={over} num={num}", HOPS[kind]));
            c.ev(4);
            rejects(&format!("{} up to {over} Hz with {fs} samples per second", HOPS[kind]), &|m| hop(kind, m, fs, sr, low, over, num))?;
            let n = match kind {
                1 => 8usize.div_euclid(sps),
                3 => 20 * sps,
                _ => 8 * sps,
            };
            accepts(&format!("{} up to {whole} Hz with {fs} samples per second", HOPS[kind]), n, &|m| hop(kind, m, fs, sr, low, whole, num))
        })
        .small(8)
        .tiny(2),
        group("symbol-rate", 1600, 20_000, |c| {
            let kinds = KINDS.len() + HOPS.len();
            let kind = c.idx as usize % kinds;
            let sr = 1 + rate(c).max(1 + c.rng.below(2000));
            let sps = 2 + c.rng.below(30);
            let off = if c.rng.bool() { 1 } else { 1 + c.rng.below(sr - 1) };
            let fs = if c.rng.bool() { sr * sps + off } else { sr * sps - off };
            let (fs, why) = if c.rng.chance(0.15) { (1 + c.rng.below(sr - 1), "below the symbol rate") } else { (fs, "no multiple of the symbol rate") };
            let name = if kind < KINDS.len() { KINDS[kind] } else { HOPS[kind - KINDS.len()] };
            c.desc(format!("{name} fs={fs} sr={sr}"));
            if fs % sr == 0 {
                return Ok(());
            }
            c.ev(3);
            let go = |m: &[Bit]| if kind < KINDS.len() { run(kind, m, fs, sr, 0.0, &[true]) } else { hop(kind - KINDS.len(), m, fs, sr, 0.0, (fs / 4) as f64, 2) };
            rejects(&format!("{name}: sample rate {fs} {why} {sr}"), &go)
        })
        .small(16)
        .tiny(4),
        group("keys", 1200, 15_000, |c| {
            let which = c.idx as usize % 5;
            let name = ["tx_cdma_bpsk_signal", "tx_cdma_qpsk_signal", "tx_coded_cdma_bpsk_signal", "rx_cdma_bpsk_signal", "rx_cdma_qpsk_signal"][which];
            let k = if c.rng.chance(0.02) { 2 + c.rng.below(2000) } else { 2 + c.rng.below(40) };
            let key = rand_bits(&mut c.rng, k);
            let sr = rate(c);
            let go = |m: &[Bit], sps: usize, key: &[Bit]| -> usize {
                let fs = sr * sps;
                let b = m.iter().cloned();
                let s = m.iter().cloned().map(nrz);
                match which {
                    0 => count(tx_cdma_bpsk_signal(b, fs, sr, 0.0, key)),
                    1 => count(tx_cdma_qpsk_signal(b, fs, sr, 0.0, key)),
                    2 => count(tx_coded_cdma_bpsk_signal(b, fs, sr, 0.0, key)),
                    3 => count(rx_cdma_bpsk_signal(s, fs, sr, 0.0, key)),
                    _ => count(rx_cdma_qpsk_signal(s, fs, sr, 0.0, key)),
                }
            };
            // Samples per symbol no multiple of the key, or chips of less than two samples.
            let bad = match c.rng.below(3) {
                0 => k,
                1 => 1 + c.rng.below(k),
                _ => k * (2 + c.rng.below(5)) + 1 + c.rng.below(k - 1),
            };
            let good = k * (2 + c.rng.below(6));
            c.desc(format!("{name} key={k} sr={sr} bad={bad} good={good}"));
            c.ev(4);
            rejects(&format!("{name}: a key of {k} chips in {bad} samples"), &|m| go(m, bad, &key))?;
            let want = match which {
                0 => 8 * good,
                1 => 4 * good,
                2 => 48 * good,
                3 => 8 / good,
                _ => 8 / good * 2,
            };
            accepts(&format!("{name}: a key of {k} chips in {good} samples"), want, &|m| go(m, good, &key))
        })
        .small(5)
        .tiny(2),
        group("walsh-size", 340, 600, |c| {
            let n = match c.idx {
                0..300 => 2 + c.idx as usize,
                // Powers of two, their neighbours, and sizes with many factors of two.
                _ => match c.rng.below(4) {
                    0 => 1 << c.rng.range(9, 12),
                    1 => (1 << c.rng.range(9, 12)) + 1,
                    2 => (1 << c.rng.range(9, 12)) - 1,
                    _ => (3 + 2 * c.rng.below(8)) << c.rng.range(4, 8),
                },
            };
            c.desc(format!("n={n}"));
            c.ev(1);
            let r = catch(|| HadamardMatrix::new(n).key(0).len());
            if n.is_power_of_two() {
                ensure!(r == Ok(n), "Walsh size {n}: {r:?}");
            } else {
                ensure!(r.is_err(), "Walsh size {n} was accepted");
            }
            Ok(())
        })
        .small(20)
        .tiny(8),
        group("chaotic-seed", 1500, 15_000, |c| {
            let above = c.rng.pick(&[1.0 + 2.3e-16, 1.0 + 1e-12, 1.5, 2.0, 1e300, f64::INFINITY, f64::NAN, 1.0 + c.idx as f64 * 1e-3 + 1e-9]);
            let x = c.rng.f64();
            c.desc(format!("above={above:e} x={x}"));
            c.ev(8);
            for bad in [above, -above] {
                ensure!(catch(|| Chebyshev::new(bad).next()).is_err(), "Chebyshev seed {bad:e} was accepted");
            }
            for bad in [above, -above, -1e-300, -5e-324, -x - 1e-9] {
                ensure!(catch(|| LogisticMap::new(3.9, bad).next()).is_err(), "logistic seed {bad:e} was accepted");
            }
            for ok in [-1.0, 1.0, 0.0, x, -x] {
                let r = catch(|| Chebyshev::new(ok).take(5).count());
                ensure!(r == Ok(5), "Chebyshev seed {ok}: {r:?}");
            }
            for ok in [0.0, -0.0, 1.0, x] {
                let r = catch(|| LogisticMap::new(4.0, ok).take(5).count());
                ensure!(r == Ok(5), "logistic seed {ok}: {r:?}");
            }
            Ok(())
        })
        .small(10)
        .tiny(2),
        group("spectral-estimate", 200, 2500, |c| {
            let np = 2 * if c.rng.chance(0.1) { 1 + c.rng.below(400) } else { 1 + c.rng.below(16) };
            let bad = if c.rng.bool() { np } else { 1 + c.rng.below(np) };
            c.desc(format!("np={np} bad={bad}"));
            c.ev(4);
            let s = vec![1.0; 2 * np + bad + 8];
            ensure!(catch(|| ssca_base(s.clone(), bad, np)).is_err(), "an estimate with n={bad} np={np} was accepted");
            ensure!(catch(|| ssca_mapped(s.clone(), bad, np)).is_err(), "a mapped estimate with n={bad} np={np} was accepted");
            let r = catch(|| ssca_base(s.clone(), np + 1, np).shape().to_vec());
            ensure!(r == Ok(vec![np + 1, np]), "an estimate with n={} np={np}: {r:?}", np + 1);
            Ok(())
        })
        .small(4)
        .tiny(1),
        group("ofdm-nulls", 600, 8000, |c| {
            let n = if c.rng.chance(0.05) { 2 + c.rng.below(20_000) } else { 2 + c.rng.below(100) };
            let bad = match c.rng.below(3) {
                0 => 0,
                1 => n,
                _ => n + 1 + c.rng.below(50),
            };
            let good = if c.rng.bool() { 1 } else { n - 1 };
            c.desc(format!("N={n} bad={bad} good={good}"));
            c.ev(8);
            let go = |which: usize, m: &[Bit], nulls: usize| -> usize {
                let z = m.iter().map(|&b| C64::new(nrz(b), 0.0));
                match which {
                    0 => count(tx_baseband_ofdm_signal(z, n, nulls)),
                    1 => count(rx_baseband_ofdm_signal(z, n, nulls)),
                    2 => count(tx_ofdm_qpsk_signal(m.iter().cloned(), n, nulls, 4000, 1000, 1000.0)),
                    _ => count(rx_ofdm_qpsk_signal(m.iter().cloned().map(nrz), n, nulls, 4000, 1000, 1000.0)),
                }
            };
            let sym = n + n / 4;
            for which in 0..4 {
                let name = ["tx_baseband_ofdm_signal", "rx_baseband_ofdm_signal", "tx_ofdm_qpsk_signal", "rx_ofdm_qpsk_signal"][which];
                rejects(&format!("{name}: {bad} nulls of {n} subcarriers"), &|m| go(which, m, bad))?;
                let k = n - good;
                let want = match which {
                    0 => 8usize.div_ceil(k) * sym,
                    1 => 8 / sym * k,
                    2 => 4usize.div_ceil(k) * sym * 4,
                    _ => 8 / (4 * sym) * k * 2,
                };
                accepts(&format!("{name}: {good} nulls of {n} subcarriers"), want, &|m| go(which, m, good))?;
            }
            Ok(())
        })
        .small(6)
        .tiny(1),
        group("bandpass-blocks", 300, 4000, |c| {
            let len = 2 + c.rng.below(60);
            let nb = c.rng.below(3);
            let part = 1 + c.rng.below(len - 1);
            let n = nb * len + part;
            c.desc(format!("len={len} n={n}"));
            c.ev(n + 1);
            let mut seen = 0;
            let r = catch(|| {
                for _ in bandpass(0.0, 1e9, (0..n).map(|i| i as f64), 1000, len) {
                    seen += 1;
                }
            });
            ensure!(r.is_err(), "a stream of {n} samples in blocks of {len} was accepted");
            ensure!(seen <= nb * len, "{seen} samples came out of {nb} whole blocks of {len}");
            let r = catch(|| bandpass(0.0, 1e9, (0..nb * len).map(|i| i as f64), 1000, len).count());
            ensure!(r == Ok(nb * len), "{nb} whole blocks of {len}: {r:?}");
            Ok(())
        })
        .small(4)
        .tiny(1),
    ]
}
