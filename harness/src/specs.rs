//! A table of every stream the library builds, behind one interface, for the
//! monitors of streaming (C17), determinism (C27) and robustness (C29).
use crate::core::*;
use crate::psk::{any_key, cdma_rates};
use crate::util::*;
use komunikilo::bpf::*;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::chaos::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::iter::Iter;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use std::sync::OnceLock;

/// One output item, bit for bit.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Out(pub u64, pub u64);

/// Which of the NaNs an operation gives is the compiler's choice.
fn bits_of(x: f64) -> u64 {
    if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }
}

pub trait ToOut {
    fn out(self) -> Out;
}
impl ToOut for bool {
    fn out(self) -> Out {
        Out(self as u64, 0)
    }
}
impl ToOut for f64 {
    fn out(self) -> Out {
        Out(bits_of(self), 0)
    }
}
impl ToOut for C64 {
    fn out(self) -> Out {
        Out(bits_of(self.re), bits_of(self.im))
    }
}
impl<const N: usize> ToOut for [f64; N] {
    fn out(self) -> Out {
        Out(bits_of(self[0]), bits_of(self[N - 1]))
    }
}
impl ToOut for Vec<f64> {
    fn out(self) -> Out {
        let mut h = Rng(self.len() as u64);
        for x in &self {
            h.0 ^= bits_of(*x);
            h.0 = h.u64();
        }
        Out(self.len() as u64, h.u64())
    }
}

pub type It<T> = Box<dyn Iterator<Item = T>>;
type Mk<T> = Box<dyn Fn(It<T>) -> It<Out> + Send + Sync>;

pub enum Make {
    Bits(Mk<bool>),
    Real(Mk<f64>),
    Cplx(Mk<C64>),
}

pub struct Spec {
    pub name: &'static str,
    pub desc: String,
    /// Block sizes: outputs [k*out, (k+1)*out) belong to inputs [k*inp, (k+1)*inp).
    pub inp: usize,
    pub out: usize,
    /// Most outputs there may be beyond those of the whole input blocks.
    pub extra: usize,
    pub receiver: bool,
    /// The output depends on a random generator.
    pub noisy: bool,
    pub make: Make,
}

/// Input data of any of the three kinds.
#[derive(Clone)]
pub enum Data {
    Bits(Vec<bool>),
    Real(Vec<f64>),
    Cplx(Vec<C64>),
}

impl Data {
    pub fn len(&self) -> usize {
        match self {
            Data::Bits(v) => v.len(),
            Data::Real(v) => v.len(),
            Data::Cplx(v) => v.len(),
        }
    }
    pub fn truncate(&mut self, n: usize) {
        match self {
            Data::Bits(v) => v.truncate(n),
            Data::Real(v) => v.truncate(n),
            Data::Cplx(v) => v.truncate(n),
        }
    }
}

impl Spec {
    pub fn data(&self, rng: &mut Rng, n: usize) -> Data {
        match self.make {
            Make::Bits(_) => Data::Bits(rand_bits(rng, n)),
            Make::Real(_) => Data::Real(signal(rng, n)),
            Make::Cplx(_) => {
                let (a, b) = (signal(rng, n), signal(rng, n));
                Data::Cplx(a.into_iter().zip(b).map(|(x, y)| C64::new(x, y)).collect())
            }
        }
    }
    /// Build the stream over the data, through a wrapper around its source.
    pub fn open(&self, d: &Data, w: &dyn Wrap) -> It<Out> {
        match (&self.make, d) {
            (Make::Bits(f), Data::Bits(v)) => f(w.bits(Box::new(v.clone().into_iter()))),
            (Make::Real(f), Data::Real(v)) => f(w.real(Box::new(v.clone().into_iter()))),
            (Make::Cplx(f), Data::Cplx(v)) => f(w.cplx(Box::new(v.clone().into_iter()))),
            _ => unreachable!(),
        }
    }
    /// The data repeated for ever.
    pub fn open_cycle(&self, d: &Data, w: &dyn Wrap) -> It<Out> {
        match (&self.make, d) {
            (Make::Bits(f), Data::Bits(v)) => f(w.bits(round(v))),
            (Make::Real(f), Data::Real(v)) => f(w.real(round(v))),
            (Make::Cplx(f), Data::Cplx(v)) => f(w.cplx(round(v))),
            _ => unreachable!(),
        }
    }
    pub fn run(&self, d: &Data) -> Vec<Out> {
        let n = (d.len() / self.inp + 1) * self.out + self.extra;
        take_all(self.open(d, &Plain), n)
    }
    pub fn whole(&self, n: usize) -> usize {
        n / self.inp * self.out
    }
}

/// Noise mostly; else silence, constants, gaps, huge and tiny values, and no numbers at all.
pub fn signal(rng: &mut Rng, n: usize) -> Vec<f64> {
    let how = rng.below(24);
    let c = rng.normal();
    let at = rng.below(n.max(1));
    (0..n)
        .map(|i| {
            let x = rng.normal();
            match how {
                0 => 0.,
                1 => c,
                2 => x * 1e300,
                3 => x * 5e-324,
                4 if i == at => f64::NAN,
                5 if i == at => f64::INFINITY,
                6 => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][at % 3],
                7 if i / 50 % 2 == at % 2 => 0.,
                _ => x,
            }
        })
        .collect()
}

/// The data again and again, without touching the heap on the way. It says of its
/// length what endless iterators say.
struct Round<T>(Vec<T>, usize);
impl<T: Copy> Iterator for Round<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.0[self.1];
        self.1 = if self.1 + 1 == self.0.len() { 0 } else { self.1 + 1 };
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (usize::MAX, None)
    }
}
fn round<T: Copy + 'static>(v: &[T]) -> It<T> {
    Box::new(Round(v.to_vec(), 0))
}

pub trait Wrap {
    fn bits(&self, i: It<bool>) -> It<bool>;
    fn real(&self, i: It<f64>) -> It<f64>;
    fn cplx(&self, i: It<C64>) -> It<C64>;
}

pub struct Plain;
impl Wrap for Plain {
    fn bits(&self, i: It<bool>) -> It<bool> {
        i
    }
    fn real(&self, i: It<f64>) -> It<f64> {
        i
    }
    fn cplx(&self, i: It<C64>) -> It<C64> {
        i
    }
}

/// Keys with a static lifetime.
fn keys() -> &'static Vec<Vec<bool>> {
    static K: OnceLock<Vec<Vec<bool>>> = OnceLock::new();
    K.get_or_init(|| {
        let mut rng = Rng(77);
        (0..64).map(|i| if i < 8 { rand_bits(&mut rng, i + 1) } else { any_key(&mut rng, 32) }).collect()
    })
}

pub const KINDS: usize = 47;

fn b<T: ToOut + 'static>(i: impl Iterator<Item = T> + 'static) -> It<Out> {
    Box::new(i.map(|x| x.out()))
}

/// Everything a stream of any kind is built from.
#[derive(Clone)]
pub struct Params {
    tiny: bool,
    r: Rates,
    f: f64,
    key: usize,
    kr: Rates,
    kf: f64,
    nsub: usize,
    nulls: usize,
    lo: f64,
    hi: f64,
    num: usize,
    n: usize,
    c: f64,
    filt: Vec<f64>,
    flen: usize,
    sub: usize,
}

/// The ways a parameter can be changed alone.
pub const VARIED: usize = 10;

impl Params {
    pub fn new(rng: &mut Rng, tiny: bool) -> Self {
        let cap = if tiny { 6 } else { 40 };
        let r = {
            let mut r = rates(rng, cap);
            if r.sps < 2 && rng.bool() {
                r = Rates { fs: r.fs * 3, sr: r.sr, sps: 3 };
            }
            r
        };
        let f = carrier(rng, r);
        let key = if tiny { rng.below(6) } else { rng.below(64) };
        let kr = cdma_rates(rng, keys()[key].len(), if tiny { 3 } else { 8 });
        let kf = carrier(rng, kr);
        let nsub = if tiny { 2 + rng.below(7) } else { 2 + rng.below(40) };
        let nulls = 1 + rng.below(nsub - 1);
        let nyq = (r.fs / 2) as f64;
        let mut p = Params {
            tiny,
            r,
            f,
            key,
            kr,
            kf,
            nsub,
            nulls,
            lo: rng.uniform(0.0, nyq * 0.4),
            hi: rng.uniform(nyq * 0.5, nyq),
            num: 1 + rng.below(if tiny { 4 } else { 20 }),
            n: 1 + rng.below(cap),
            c: rng.uniform(-3.0, 3.0),
            filt: (0..1 + rng.below(9)).map(|_| rng.normal()).collect(),
            flen: 2 + rng.below(if tiny { 6 } else { 62 }),
            sub: rng.below(12),
        };
        if !tiny && rng.below(50) == 0 {
            // Sizes beyond the usual.
            p.nsub = 65 + {
                let top = rng.pick(&[200, 1200, 4096]);
                rng.below(top)
            };
            p.nulls = 1 + rng.below(p.nsub - 1);
            p.num = 20 + rng.below(600);
            p.n = 40 + rng.below(6000);
            p.flen = 64 + rng.below(9000);
            p.filt = (0..10 + rng.below(300)).map(|_| rng.normal()).collect();
        }
        p
    }
    /// The same parameters but for one.
    pub fn vary(&self, which: usize, rng: &mut Rng) -> Self {
        let o = Params::new(rng, self.tiny);
        let mut p = self.clone();
        let nyq = (p.r.fs / 2) as f64;
        match which % VARIED {
            0 => p.lo = rng.uniform(0.0, nyq * 0.4),
            1 => p.hi = rng.uniform(nyq * 0.5, nyq),
            2 => p.num = o.num,
            3 => {
                p.f = carrier(rng, p.r);
                p.kf = carrier(rng, p.kr);
            }
            // Another symbol rate at the same sample rate, or the reverse.
            4 => {
                let d: Vec<usize> = (1..=p.r.sps).filter(|d| p.r.sps % d == 0).collect();
                let d = rng.pick(&d);
                p.r = Rates { fs: p.r.fs, sr: p.r.sr * d, sps: p.r.sps / d };
                let m = 1 + rng.below(3);
                p.kr = Rates { fs: p.kr.fs * m, sr: p.kr.sr, sps: p.kr.sps * m };
            }
            5 => {
                let m = 1 + rng.below(3);
                p.r = Rates { fs: p.r.fs * m, sr: p.r.sr, sps: p.r.sps * m };
            }
            // Another key of the same length.
            6 => {
                let l = keys()[p.key].len();
                let same: Vec<usize> = (0..keys().len()).filter(|&i| keys()[i].len() == l).collect();
                p.key = rng.pick(&same);
            }
            7 => {
                p.nsub = o.nsub.max(p.nulls + 1);
                p.n = o.n;
                p.flen = o.flen;
            }
            8 => {
                p.nulls = 1 + rng.below(p.nsub - 1);
                p.c = o.c;
            }
            _ => {
                let l = p.filt.len();
                p.filt[rng.below(l)] = rng.normal();
                p.sub = o.sub;
            }
        }
        p
    }
}

/// One randomly parametrised stream of the given kind.
pub fn spec(kind: usize, rng: &mut Rng, tiny: bool) -> Spec {
    spec_of(kind, &Params::new(rng, tiny))
}

pub fn spec_of(kind: usize, p: &Params) -> Spec {
    let Params { r, f, kr, kf, nsub, nulls, lo, hi, num, n, c, flen, .. } = *p;
    let Rates { fs, sr, sps } = r;
    let filt = p.filt.clone();
    let key: &'static [bool] = &keys()[p.key];
    let k = key.len();
    let data = nsub - nulls;
    let osym = nsub + nsub / 4;
    let fl = filt.len();
    let psk = format!("fs={fs} sr={sr} sps={sps} f={f}");
    let cd = format!("fs={} sr={} sps={} f={kf} key={}", kr.fs, kr.sr, kr.sps, show(key));
    let of = format!("N={nsub} nulls={nulls}");
    let hop = format!("fs={fs} sr={sr} sps={sps} low={lo} high={hi} num={num}");
    let tx = |name, desc: &str, inp, out, make| Spec { name, desc: desc.to_string(), inp, out, extra: 0, receiver: false, noisy: false, make };
    let rx = |name, desc: &str, inp, out, make| Spec { name, desc: desc.to_string(), inp, out, extra: 0, receiver: true, noisy: false, make };
    let ex = |s: Spec, extra| Spec { extra, ..s };
    use Make::*;
    match kind {
        0 => tx("tx_baseband_bpsk_signal", "", 1, 1, Bits(Box::new(|i| b(tx_baseband_bpsk_signal(i))))),
        1 => rx("rx_baseband_bpsk_signal", "", 1, 1, Cplx(Box::new(|i| b(rx_baseband_bpsk_signal(i))))),
        2 => tx("tx_bpsk_signal", &psk, 1, sps, Bits(Box::new(move |i| b(tx_bpsk_signal(i, fs, sr, f))))),
        3 => rx("rx_bpsk_signal", &psk, sps, 1, Real(Box::new(move |i| b(rx_bpsk_signal(i, fs, sr, f))))),
        4 => tx("tx_baseband_qpsk_signal", "", 2, 1, Bits(Box::new(|i| b(tx_baseband_qpsk_signal(i))))),
        5 => rx("rx_baseband_qpsk_signal", "", 1, 2, Cplx(Box::new(|i| b(rx_baseband_qpsk_signal(i))))),
        6 => tx("tx_qpsk_signal", &psk, 2, sps, Bits(Box::new(move |i| b(tx_qpsk_signal(i, fs, sr, f))))),
        7 => rx("rx_qpsk_signal", &psk, sps, 2, Real(Box::new(move |i| b(rx_qpsk_signal(i, fs, sr, f))))),
        8 => tx("tx_baseband_cdma", &cd, 1, k, Bits(Box::new(move |i| b(tx_baseband_cdma(i, key))))),
        9 => ex(rx("rx_baseband_cdma", &cd, k, 1, Bits(Box::new(move |i| b(rx_baseband_cdma(i, key))))), 1),
        10 => tx("tx_cdma_bpsk_signal", &cd, 1, kr.sps, Bits(Box::new(move |i| b(tx_cdma_bpsk_signal(i, kr.fs, kr.sr, kf, key))))),
        11 => rx("rx_cdma_bpsk_signal", &cd, kr.sps, 1, Real(Box::new(move |i| b(rx_cdma_bpsk_signal(i, kr.fs, kr.sr, kf, key))))),
        12 => tx("tx_cdma_qpsk_signal", &cd, 2, kr.sps, Bits(Box::new(move |i| b(tx_cdma_qpsk_signal(i, kr.fs, kr.sr, kf, key))))),
        13 => rx("rx_cdma_qpsk_signal", &cd, kr.sps, 2, Real(Box::new(move |i| b(rx_cdma_qpsk_signal(i, kr.fs, kr.sr, kf, key))))),
        14 => ex(tx("tx_coded_cdma_bpsk_signal", &cd, 56, 96 * kr.sps, Bits(Box::new(move |i| b(tx_coded_cdma_bpsk_signal(i, kr.fs, kr.sr, kf, key))))), 96 * kr.sps),
        15 => ex(rx("rx_coded_cdma_bpsk_signal", &cd, 96 * kr.sps, 56, Real(Box::new(move |i| b(rx_coded_cdma_bpsk_signal(i, kr.fs, kr.sr, kf, key))))), 56),
        16 => tx("tx_fh_bpsk_signal", &hop, 1, sps, Bits(Box::new(move |i| b(tx_fh_bpsk_signal(i, lo, hi, num, fs, sr))))),
        17 => rx("rx_fh_bpsk_signal", &hop, sps, 1, Real(Box::new(move |i| b(rx_fh_bpsk_signal(i, lo, hi, num, fs, sr))))),
        18 => tx("tx_fh_css_signal", &hop, 1, sps, Bits(Box::new(move |i| b(tx_fh_css_signal(i, fs, sr, lo, hi, num))))),
        19 => tx("tx_bfsk_signal", &hop, 1, sps, Bits(Box::new(move |i| b(tx_bfsk_signal(i, fs, sr, lo, hi))))),
        20 => tx("tx_mfsk_signal", &hop, 1, sps, Bits(Box::new(move |i| b(tx_mfsk_signal(i, fs, sr, lo, hi, num))))),
        21 => tx("tx_fsk_signal", &hop, 1, sps, Bits(Box::new(move |i| b(tx_fsk_signal(i, fs, sr, &[hi, lo]))))),
        22 => tx("tx_fsk", &psk, 1, sps, Bits(Box::new(move |i| b(tx_fsk(i, fs, sr, f / 1.05))))),
        23 => ex(rx("rx_fsk", &psk, sps, 1, Real(Box::new(move |i| b(rx_fsk(i, fs, sr, f / 1.05))))), 1),
        24 => tx("tx_fm", &psk, 1, sps, Real(Box::new(move |i| b(tx_fm(i, fs, sr, f))))),
        25 => tx("tx_baseband_csk", "", 1, 1, Bits(Box::new(|i| b(tx_baseband_csk(i))))),
        26 => tx("tx_baseband_dcsk", "", 1, 2, Bits(Box::new(|i| b(tx_baseband_dcsk(i))))),
        27 => rx("rx_baseband_dcsk", "", 2, 1, Real(Box::new(|i| b(rx_baseband_dcsk(i))))),
        28 => ex(tx("tx_baseband_fh_ofdm_dcsk_signal", "", 7, 10, Bits(Box::new(|i| b(tx_baseband_fh_ofdm_dcsk_signal(i))))), 10),
        29 => rx("rx_baseband_fh_ofdm_dcsk_signal", "", 10, 7, Cplx(Box::new(|i| b(rx_baseband_fh_ofdm_dcsk_signal(i))))),
        30 => ex(tx("tx_fh_ofdm_dcsk_signal", &hop, 7, 10 * sps, Bits(Box::new(move |i| b(tx_fh_ofdm_dcsk_signal(i, lo, hi, num, fs, sr))))), 10 * sps),
        31 => ex(tx("tx_fh_ofdm_dcsk_signal_2", &psk, 7, 10 * sps, Bits(Box::new(move |i| b(tx_fh_ofdm_dcsk_signal_2(i, fs, sr, f))))), 10 * sps),
        32 => ex(tx("tx_baseband_ofdm_signal", &of, data, osym, Cplx(Box::new(move |i| b(tx_baseband_ofdm_signal(i, nsub, nulls))))), osym),
        33 => rx("rx_baseband_ofdm_signal", &of, osym, data, Cplx(Box::new(move |i| b(rx_baseband_ofdm_signal(i, nsub, nulls))))),
        34 => ex(tx("tx_ofdm_qpsk_signal", &format!("{of} {psk}"), 2 * data, osym * sps, Bits(Box::new(move |i| b(tx_ofdm_qpsk_signal(i, nsub, nulls, fs, sr, f))))), osym * sps),
        35 => rx("rx_ofdm_qpsk_signal", &format!("{of} {psk}"), osym * sps, 2 * data, Real(Box::new(move |i| b(rx_ofdm_qpsk_signal(i, nsub, nulls, fs, sr, f))))),
        36 => ex(tx("chunks", &format!("n={n}"), n, 1, Real(Box::new(move |i| b(i.chunks(n))))), 1),
        37 => ex(tx("wchunks", &format!("n={n}"), n, 1, Real(Box::new(move |i| b(i.wchunks(n))))), 1),
        38 => tx("inflate", &format!("n={n}"), 1, n, Real(Box::new(move |i| b(i.inflate(n))))),
        39 => tx("integrate", "", 1, 1, Real(Box::new(|i| b(i.integrate())))),
        40 => tx("integrate_and_dump", &format!("n={n}"), n, 1, Real(Box::new(move |i| b(i.integrate_and_dump(n))))),
        41 => tx("nintegrate", "", 1, 1, Real(Box::new(|i| b(i.map(|x| [x, 2.0 * x]).nintegrate())))),
        42 => tx("nintegrate_and_dump", &format!("n={n}"), n, 1, Real(Box::new(move |i| b(i.map(|x| [x, x * x]).nintegrate_and_dump(n))))),
        43 => match p.sub % 3 {
            0 => tx("scale", &format!("c={c}"), 1, 1, Real(Box::new(move |i| b(i.scale(c))))),
            1 => ex(tx("convolve", &format!("taps={fl}"), 1, 1, Real(Box::new(move |i| b(i.convolve(filt.clone()))))), fl - 1),
            _ => ex(tx("nonvolve", &format!("taps={fl}"), 1, 1, Real(Box::new(move |i| b(i.map(|x| [x, -x]).nonvolve(filt.clone()))))), fl - 1),
        },
        44 => ex(tx("take_every", &format!("n={n}"), n, 1, Real(Box::new(move |i| b(i.take_every(n))))), 1),
        46 => tx("tx_fh_bpsk_signal_old", &format!("{hop} f={f}"), 1, sps, Bits(Box::new(move |i| b(tx_fh_bpsk_signal_old(i, lo, hi, num, fs, sr, f))))),
        _ => match p.sub % 4 {
            0 => tx("bandpass", &format!("low={lo} high={hi} fs={fs} len={flen}"), flen, flen, Real(Box::new(move |i| b(bandpass(lo, hi, i, fs, flen))))),
            1 => Spec { noisy: true, ..tx("awgn", "", 1, 1, Real(Box::new(|i| b(komunikilo::awgn(i, 1.0))))) },
            2 => Spec { noisy: true, ..tx("awgn_complex", "", 1, 1, Cplx(Box::new(|i| b(komunikilo::awgn_complex(i, 1.0))))) },
            _ => {
                let x0 = c / 3.0;
                let s = tx("chaos zipped", &format!("x0={x0}"), 1, 1, Real(Box::new(move |i| b(i.zip(Chebyshev::new(x0)).zip(LogisticMap::new(3.9, x0.abs())).map(|((a, u), v)| a + u + v)))));
                s
            }
        },
    }
}

/// The receivers of the table.
pub const RECEIVERS: [usize; 15] = [1, 3, 5, 7, 9, 11, 13, 15, 17, 23, 27, 29, 33, 35, 3];
