//! `kmon eval`: the library's answers for the Python drivers.
//! Each input line is `name ints floats bits signal`, each field comma-separated
//! (floats and signal as hexadecimal bit patterns, bits as a 0/1 string), `-` if empty.
use crate::core::catch;
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use komunikilo::fh_css::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fsk::*;
use komunikilo::hadamard::HadamardMatrix;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use std::io::{BufRead, Write};

enum A {
    B(Vec<bool>),
    F(Vec<f64>),
}

fn hexs(s: &str) -> Vec<f64> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect()
}

fn eval(line: &str) -> Option<A> {
    let w: Vec<&str> = line.split(' ').collect();
    let ints: Vec<usize> = if w[1] == "-" { vec![] } else { w[1].split(',').map(|x| x.parse().unwrap()).collect() };
    let fl = hexs(w[2]);
    let bits: Vec<bool> = if w[3] == "-" { vec![] } else { w[3].bytes().map(|b| b == b'1').collect() };
    let sig = hexs(w[4]);
    let cx = |i: &mut dyn Iterator<Item = crate::util::C64>| A::F(i.flat_map(|c| [c.re, c.im]).collect());
    let m = bits.into_iter();
    let s = sig.iter().cloned();
    catch(|| match w[0] {
        "tx_baseband_bpsk" => cx(&mut tx_baseband_bpsk_signal(m)),
        "tx_bpsk" => A::F(tx_bpsk_signal(m, ints[0], ints[1], fl[0]).collect()),
        "rx_bpsk" => A::B(rx_bpsk_signal(s, ints[0], ints[1], fl[0]).collect()),
        "tx_qpsk" => A::F(tx_qpsk_signal(m, ints[0], ints[1], fl[0]).collect()),
        "tx_baseband_qpsk" => cx(&mut tx_baseband_qpsk_signal(m)),
        "rx_qpsk" => A::B(rx_qpsk_signal(s, ints[0], ints[1], fl[0]).collect()),
        "tx_cdma_bpsk" => {
            let h = HadamardMatrix::new(16);
            let key = h.key(0).clone();
            A::F(tx_cdma_bpsk_signal(m, ints[0], ints[1], fl[0], &key).collect())
        }
        // The key arrives as the first ints[2] bits of the message field.
        "tx_cdma_bpsk_key" | "tx_cdma_qpsk_key" => {
            let all: Vec<bool> = m.collect();
            let (key, msg) = all.split_at(ints[2]);
            if w[0] == "tx_cdma_bpsk_key" {
                A::F(tx_cdma_bpsk_signal(msg.iter().cloned(), ints[0], ints[1], fl[0], key).collect())
            } else {
                A::F(tx_cdma_qpsk_signal(msg.iter().cloned(), ints[0], ints[1], fl[0], key).collect())
            }
        }
        // The key arrives as the bits, the signal as the signal.
        "rx_cdma_bpsk_key" => {
            let key: Vec<bool> = m.collect();
            A::B(rx_cdma_bpsk_signal(s, ints[0], ints[1], fl[0], &key).collect())
        }
        "rx_cdma_qpsk_key" => {
            let key: Vec<bool> = m.collect();
            A::B(rx_cdma_qpsk_signal(s, ints[0], ints[1], fl[0], &key).collect())
        }
        "tx_ofdm" => A::F(tx_ofdm_qpsk_signal(m, ints[0], ints[1], ints[2], ints[3], fl[0]).collect()),
        "rx_ofdm" => A::B(rx_ofdm_qpsk_signal(s, ints[0], ints[1], ints[2], ints[3], fl[0]).collect()),
        "tx_csk" => A::F(tx_baseband_csk(m).collect()),
        "tx_dcsk" => A::F(tx_baseband_dcsk(m).collect()),
        "tx_bfsk" => A::F(tx_bfsk_signal(m, ints[0], ints[1], fl[0], fl[1]).collect()),
        "tx_fh_css" => A::F(tx_fh_css_signal(m, ints[0], ints[1], fl[0], fl[1], ints[2]).collect()),
        "tx_fh_ofdm_dcsk" => A::F(tx_fh_ofdm_dcsk_signal_2(m, ints[0], ints[1], fl[0]).collect()),
        "chirp" => A::F(komunikilo::fh_css::linear_chirp(fl[0], ints[0], fl[1], fl[2]).collect()),
        "avg_energy" => A::F(vec![komunikilo::avg_energy(&sig)]),
        "ssca" => {
            let x = if ints[2] == 1 { komunikilo::ssca::ssca_mapped(sig.clone(), ints[0], ints[1]) } else { komunikilo::ssca::ssca_base(sig.clone(), ints[0], ints[1]) };
            let mut v = vec![x.nrows() as f64, x.ncols() as f64];
            v.extend(x.iter().flat_map(|c| [c.re, c.im]));
            A::F(v)
        }
        "walsh" => {
            let h = HadamardMatrix::new(ints[0]);
            A::B(h.key(ints[1]).clone())
        }
        other => {
            eprintln!("unknown function {other}");
            std::process::exit(2);
        }
    })
    .ok()
}

pub fn main() {
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let r = match eval(&line) {
            None => "panic".to_string(),
            Some(A::B(b)) => format!("bits {}", b.iter().map(|&x| if x { '1' } else { '0' }).collect::<String>()),
            Some(A::F(f)) => format!("real {}", f.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",")),
        };
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}
