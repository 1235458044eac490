//! C04-C07: spreading, Walsh keys and the coded link.
use crate::core::*;
use crate::ensure;
use crate::psk::*;
use crate::util::*;
use komunikilo::cdma::*;
use komunikilo::hadamard::HadamardMatrix;

const MARGIN: f64 = 1e-5;

pub fn key_for(c: &mut Case) -> Vec<Bit> {
    if c.rng.chance(0.3) {
        let n = 2usize << c.rng.below(6);
        HadamardMatrix::new(n).key(c.rng.below(3 * n)).clone()
    } else {
        any_key(&mut c.rng, 96)
    }
}

pub fn c04() -> Vec<Group> {
    vec![
        group("baseband", 6000, 120_000, |c| {
            let key = match c.rng.below(600) {
                0 if c.scale > 1 => {
                    let k = if c.rng.bool() { 1000 + c.rng.below(9000) } else { 65_000 + c.rng.below(3000) };
                    rand_bits(&mut c.rng, k)
                }
                1..=60 => any_key(&mut c.rng, 700),
                _ => key_for(c),
            };
            let max = c.size(12, 60, 4000 / key.len() + 3);
            let n = if key.len() > 60_000 { 1 + c.rng.below(3) } else { msg_len(&mut c.rng, max) };
            let msg = bits(&mut c.rng, n);
            c.desc(format!("key={} msg={}", show(&key), show(&msg)));
            let k = key.len();
            let tx = take_all(tx_baseband_cdma(src(&msg), &key), n * k);
            let want: Vec<Bit> = (0..n * k).map(|i| msg[i / k] ^ key[i % k]).collect();
            same_bits("tx_baseband_cdma", &tx, &want)?;
            let rx = take_all(rx_baseband_cdma(src(&tx), &key), n);
            same_bits("rx_baseband_cdma", &rx, &msg)?;
            // A minority of wrong chips per bit.
            let mut bad = tx.clone();
            let worst = (k - 1) / 2;
            for b in 0..n {
                let w = if c.rng.bool() { worst } else { c.rng.below(worst + 1) };
                let mut pos: Vec<usize> = (0..k).collect();
                c.rng.shuffle(&mut pos);
                for &p in &pos[..w] {
                    bad[b * k + p] ^= true;
                }
            }
            let rx = take_all(rx_baseband_cdma(src(&bad), &key), n);
            c.ev(n * k + 2 * n);
            same_bits("rx_baseband_cdma with a minority of wrong chips", &rx, &msg)
        })
        .tiny(3),
        group("passband", 6000, 120_000, |c| {
            let qpsk = c.idx % 2 == 1;
            let mut key = key_for(c);
            let mut r = cdma_rates(&mut c.rng, key.len(), 20);
            if c.scale > 1 && c.rng.chance(0.004) {
                // Keys of thousands of chips, chips of thousands of samples.
                let k = if c.rng.bool() { 257 + c.rng.below(4000) } else { 1 + c.rng.below(3) };
                key = rand_bits(&mut c.rng, k);
                let spc = 2 + c.rng.below(140_000 / k - 1);
                r = Rates { fs: spc * k * 9, sr: 9, sps: spc * k };
            }
            let f = if qpsk && c.rng.bool() { half_cycle_carrier(&mut c.rng, r).unwrap() } else { carrier(&mut c.rng, r) };
            let max = c.size(6, 30, (40_000 / r.sps).max(4));
            let n = msg_len(&mut c.rng, max);
            let msg = bits(&mut c.rng, n);
            let g = gain(&mut c.rng);
            c.desc(format!("qpsk={qpsk} fs={} sr={} sps={} f={f} gain={g:e} key={} msg={}", r.fs, r.sr, r.sps, show(&key), show(&msg)));
            let nbits = if qpsk { n / 2 * 2 } else { n };
            let nsym = if qpsk { n / 2 } else { n };
            let m = nsym * r.sps;
            let tx = if qpsk {
                take_all(tx_cdma_qpsk_signal(src(&msg), r.fs, r.sr, f, &key), m)
            } else {
                take_all(tx_cdma_bpsk_signal(src(&msg), r.fs, r.sr, f, &key), m)
            };
            ensure!(tx.len() == m, "{} samples, expected {m}", tx.len());
            let chan: Vec<f64> = tx.iter().map(|x| x * g).collect();
            let rx = if qpsk {
                take_all(rx_cdma_qpsk_signal(src(&chan), r.fs, r.sr, f, &key), nbits)
            } else {
                take_all(rx_cdma_bpsk_signal(src(&chan), r.fs, r.sr, f, &key), nbits)
            };
            ensure!(rx.len() == nbits, "{} bits received, expected {nbits}", rx.len());
            for (k, (a, b, x)) in symbol_moments(r, f, nsym).into_iter().enumerate() {
                if qpsk {
                    if a > x.abs() + MARGIN && b > x.abs() + MARGIN {
                        ensure!(rx[2 * k..2 * k + 2] == msg[2 * k..2 * k + 2], "symbol {k}: sent {:?} received {:?}", &msg[2 * k..2 * k + 2], &rx[2 * k..2 * k + 2]);
                        c.ev(2);
                    }
                } else if a > MARGIN {
                    ensure!(rx[k] == msg[k], "bit {k}: sent {} received {}", msg[k], rx[k]);
                    c.ev(1);
                }
            }
            Ok(())
        })
        .tiny(4),
        group("long-streams", 10, 120, |c| {
            let qpsk = c.idx % 2 == 1;
            let key = any_key(&mut c.rng, 64);
            let r = cdma_rates(&mut c.rng, key.len(), 3);
            let f = half_cycle_carrier(&mut c.rng, r).unwrap();
            let n = c.size(10, 100, 1_200_000) / r.sps;
            let msg = rand_bits(&mut c.rng, n);
            c.desc(format!("qpsk={qpsk} fs={} sr={} sps={} f={f} key={} msg={}", r.fs, r.sr, r.sps, show(&key), show(&msg)));
            let m = n * r.sps;
            let rx = if qpsk {
                take_all(rx_cdma_qpsk_signal(tx_cdma_qpsk_signal(src(&msg), r.fs, r.sr, f, &key), r.fs, r.sr, f, &key), m)
            } else {
                take_all(rx_cdma_bpsk_signal(tx_cdma_bpsk_signal(src(&msg), r.fs, r.sr, f, &key), r.fs, r.sr, f, &key), m)
            };
            let nbits = if qpsk { n / 2 * 2 } else { n };
            c.ev(nbits);
            same_bits("loopback", &rx, &msg[..nbits])
        })
        .small(1),
    ]
}

pub fn c05() -> Vec<Group> {
    let one = |c: &mut Case, big: bool| -> R {
        let qpsk = c.idx % 2 == 1;
        let k = 2usize << c.rng.below(if big { 11 } else { 6 });
        let h = HadamardMatrix::new(k);
        let spc = 2 + c.rng.below(6);
        let sr = c.rng.pick(&[1usize, 25, 900, 1000]);
        let r = Rates { fs: sr * k * spc, sr, sps: k * spc };
        // Whole half cycles per chip.
        let hc = if qpsk { c.rng.range(1, spc - 1) } else { c.rng.range(0, spc) };
        let f = hc as f64 * (sr * k) as f64 / 2.0;
        let f = f.min((r.fs / 2) as f64);
        let users = if c.rng.chance(0.25) { k - 1 } else { 1 + c.rng.below(k - 1) };
        let users = if k > 256 { users.min(12) } else { users };
        let mut idx: Vec<usize> = (0..k - 1).collect();
        c.rng.shuffle(&mut idx);
        idx.truncate(users);
        let max = c.size(3, 8, (150_000 / (users * r.sps)).clamp(2, 60));
        let n = if qpsk { 2 * (1 + c.rng.below(max)) } else { 1 + c.rng.below(max) };
        let nsym = if qpsk { n / 2 } else { n };
        let near_far = c.rng.chance(0.4);
        c.desc(format!("qpsk={qpsk} K={k} spc={spc} sr={sr} f={f} users={users} n={n} near_far={near_far} first={:?}", &idx[..users.min(6)]));
        let mut chan = vec![0.0; nsym * r.sps];
        let mut msgs = vec![];
        for &u in &idx {
            let msg = bits(&mut c.rng, n);
            let a = if near_far { 10f64.powf(c.rng.uniform(-3.0, 3.0)) } else { 1.0 };
            let key = h.key(u);
            let tx = if qpsk {
                take_all(tx_cdma_qpsk_signal(src(&msg), r.fs, r.sr, f, key), chan.len())
            } else {
                take_all(tx_cdma_bpsk_signal(src(&msg), r.fs, r.sr, f, key), chan.len())
            };
            ensure!(tx.len() == chan.len(), "user {u}: {} samples, expected {}", tx.len(), chan.len());
            for (y, x) in chan.iter_mut().zip(&tx) {
                *y += a * x;
            }
            msgs.push(msg);
        }
        for (&u, msg) in idx.iter().zip(&msgs) {
            let key = h.key(u);
            let rx = if qpsk {
                take_all(rx_cdma_qpsk_signal(src(&chan), r.fs, r.sr, f, key), n)
            } else {
                take_all(rx_cdma_bpsk_signal(src(&chan), r.fs, r.sr, f, key), n)
            };
            c.ev(n);
            same_bits(&format!("user {u} among {users}"), &rx, msg)?;
        }
        Ok(())
    };
    vec![
        group("walsh-users", 2500, 50_000, move |c| one(c, false)).tiny(2),
        group("walsh-users-large", 60, 1500, move |c| one(c, true)).small(1),
    ]
}

pub fn c06() -> Vec<Group> {
    vec![
        group("matrices", 12, 13, |c| {
            let n = 2usize << c.idx;
            let n = n.min(c.size(16, 128, 4096));
            c.desc(format!("n={n}"));
            let h = HadamardMatrix::new(n);
            let h2 = HadamardMatrix::new(n);
            ensure!(h == h2, "two matrices of size {n} differ");
            let keys: Vec<&Vec<Bit>> = (0..n - 1).map(|i| h.key(i)).collect();
            // Rows packed into words.
            let pack = |k: &[Bit]| -> Vec<u64> { k.chunks(64).map(|w| w.iter().enumerate().fold(0, |a, (i, &b)| a | ((b as u64) << i))).collect() };
            let sylv: std::collections::HashSet<Vec<u64>> =
                (1..n).map(|r| pack(&(0..n).map(|col| ((r & col) as u64).count_ones() % 2 == 0).collect::<Vec<_>>())).collect();
            let packed: Vec<Vec<u64>> = keys.iter().map(|k| pack(k)).collect();
            for (i, k) in keys.iter().enumerate() {
                ensure!(k.len() == n, "key {i} of {n} has {} chips", k.len());
                let t = k.iter().filter(|&&b| b).count();
                ensure!(2 * t == n, "key {i} of {n} has {t} true chips");
                ensure!(sylv.contains(&packed[i]), "key {i} of {n} is no Sylvester-Hadamard row");
                for rep in [1usize, 2, 5] {
                    ensure!(h.key(i + rep * (n - 1)) == *k, "key {} differs from key {i} of {n}", i + rep * (n - 1));
                }
                ensure!(h2.key(i) == *k, "key {i} of {n} differs in a rebuilt matrix");
                c.ev(n);
            }
            for i in 0..n - 1 {
                for j in 0..i {
                    let d: u32 = packed[i].iter().zip(&packed[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
                    if 2 * d as usize != n {
                        return Err(format!("keys {i} and {j} of {n} differ in {d} chips"));
                    }
                }
            }
            c.ev(n * n / 2);
            if n <= 1024 {
                let text = format!("{h}");
                let rows: Vec<Vec<Bit>> = text
                    .lines()
                    .filter(|l| !l.trim().is_empty())
                    .map(|l| l.split_whitespace().map(|t| t == "T").collect())
                    .collect();
                ensure!(rows.len() == n && rows.iter().all(|r| r.len() == n), "printed matrix of size {n} is not {n} by {n}");
                ensure!(text.split_whitespace().all(|t| t == "T" || t == "F"), "printed matrix holds something else than T and F");
                let set: std::collections::HashSet<&Vec<Bit>> = rows.iter().collect();
                ensure!(set.len() == n, "printed matrix of size {n} repeats a row");
                ensure!(set.contains(&vec![true; n]), "printed matrix of size {n} lacks the all-true row");
                for (i, k) in keys.iter().enumerate() {
                    ensure!(set.contains(k), "key {i} of {n} is not printed");
                }
                c.ev(n * n);
            }
            Ok(())
        })
        .small(5)
        .tiny(3),
        group("indices", 400, 4000, |c| {
            let n = 2usize << c.rng.below(8);
            let i = if c.rng.bool() { c.rng.below(4 * n) } else { c.rng.below(1 << 40) };
            let j = i % (n - 1);
            c.desc(format!("n={n} i={i}"));
            let h = HadamardMatrix::new(n);
            ensure!(h.key(i) == h.key(j), "key {i} of {n} is not key {j}");
            c.ev(n);
            Ok(())
        }),
    ]
}

/// Least significant bit first.
fn pack(b: &[Bit]) -> u8 {
    b.iter().enumerate().map(|(i, &x)| (x as u8) << i).sum()
}

/// Remainder of data(x) x^5 by the generator with roots a^0..a^4 over GF(256) mod 0x11d.
fn rs_parity(data: &[u8]) -> [u8; 5] {
    fn mul(x: u8, y: u8) -> u8 {
        let mut r = 0u32;
        for i in 0..8 {
            if y >> i & 1 == 1 {
                r ^= (x as u32) << i;
            }
        }
        for i in (8..16).rev() {
            if r >> i & 1 == 1 {
                r ^= 0x11d << (i - 8);
            }
        }
        r as u8
    }
    let mut g = [0u8; 6]; // highest power first
    g[0] = 1;
    let mut a = 1u8;
    for d in 0..5 {
        for i in (0..=d).rev() {
            g[i + 1] ^= mul(g[i], a);
        }
        a = mul(a, 2);
    }
    let mut rem = [0u8; 5];
    for &x in data {
        let q = x ^ rem[0];
        rem.rotate_left(1);
        rem[4] = 0;
        for i in 0..5 {
            rem[i] ^= mul(q, g[i + 1]);
        }
    }
    rem
}

fn pad_bytes(msg: &[Bit]) -> Vec<Bit> {
    let mut v = msg.to_vec();
    while v.len() % 8 != 0 {
        v.push(false);
    }
    v
}

pub fn c07() -> Vec<Group> {
    struct Link {
        r: Rates,
        f: f64,
        key: Vec<Bit>,
    }
    fn link(c: &mut Case) -> Link {
        let k = 1 + c.rng.below(8);
        let key = rand_bits(&mut c.rng, k);
        let spc = 2 + c.rng.below(3);
        let sr = c.rng.pick(&[1usize, 100, 900]);
        let r = Rates { fs: sr * k * spc, sr, sps: k * spc };
        let f = c.rng.range(0, spc - 1) as f64 * (sr * k) as f64 / 2.0;
        Link { r, f, key }
    }
    let one = |c: &mut Case, n: usize| -> R {
        let l = link(c);
        let (r, f, key) = (l.r, l.f, &l.key);
        let msg = bits(&mut c.rng, n);
        let padded = pad_bytes(&msg);
        let nb = padded.len() / 8;
        let frames = nb.div_ceil(7);
        let coded = nb + 5 * frames;
        c.desc(format!("fs={} sr={} f={f} key={} msg={}", r.fs, r.sr, show(key), show(&msg)));
        let m = coded * 8 * r.sps;
        let tx = take_all(tx_coded_cdma_bpsk_signal(src(&msg), r.fs, r.sr, f, key), m);
        ensure!(tx.len() == m, "{} samples for {n} bits, expected {coded} coded bytes = {m} samples", tx.len());
        // Frame layout: data bytes first, then parity.
        let plain = take_all(rx_cdma_bpsk_signal(src(&tx), r.fs, r.sr, f, key), coded * 8);
        ensure!(plain.len() == coded * 8, "coded stream of {} bits", plain.len());
        let mut at = 0;
        for fr in 0..frames {
            let k = (nb - 7 * fr).min(7);
            same_bits(&format!("data bytes of frame {fr}"), &plain[at..at + 8 * k], &padded[56 * fr..56 * fr + 8 * k])?;
            let data: Vec<u8> = padded[56 * fr..56 * fr + 8 * k].chunks(8).map(pack).collect();
            let parity: Vec<Bit> = rs_parity(&data).iter().flat_map(|y| (0..8).map(move |i| y >> i & 1 == 1)).collect();
            same_bits(&format!("parity bytes of frame {fr}"), &plain[at + 8 * k..at + 8 * k + 40], &parity)?;
            at += 8 * (k + 5);
        }
        let rx = take_all(rx_coded_cdma_bpsk_signal(src(&tx), r.fs, r.sr, f, key), padded.len());
        c.ev(plain.len() + rx.len());
        same_bits("clean coded loopback", &rx, &padded)?;
        // Up to two corrupted bytes in each frame.
        for round in 0..3 {
            let mut chan = tx.clone();
            let mut at = 0;
            let mut log = String::new();
            for fr in 0..frames {
                let len = (nb - 7 * fr).min(7) + 5;
                let errs = if round == 0 { 2 } else { c.rng.below(3) };
                let mut pos: Vec<usize> = (0..len).collect();
                c.rng.shuffle(&mut pos);
                for &p in &pos[..errs] {
                    let pat = match c.rng.below(3) {
                        0 => 0xff,
                        1 => 1 << c.rng.below(8),
                        _ => 1 + c.rng.below(255),
                    };
                    log.push_str(&format!(" {fr}:{p}^{pat:02x}"));
                    for b in 0..8 {
                        if pat >> b & 1 == 1 {
                            let s = ((at + p) * 8 + b) * r.sps;
                            for y in &mut chan[s..s + r.sps] {
                                *y = -*y;
                            }
                        }
                    }
                }
                at += len;
            }
            let rx = take_all(rx_coded_cdma_bpsk_signal(src(&chan), r.fs, r.sr, f, key), padded.len());
            c.ev(rx.len());
            same_bits(&format!("corrupted frames (frame:byte^pattern{})", trunc(&log, 200)), &rx, &padded)?;
        }
        // Too many errors, or an end inside a frame: no panic, sane length.
        let mut chan = tx.clone();
        let cut = c.rng.below(chan.len() + 1);
        chan.truncate(cut);
        for y in chan.iter_mut() {
            if c.rng.chance(0.2) {
                *y = c.rng.normal();
            }
        }
        let rx = take_all(rx_coded_cdma_bpsk_signal(src(&chan), r.fs, r.sr, f, key), padded.len());
        ensure!(rx.len() <= padded.len(), "{} bits out of a damaged stream of {} bits", rx.len(), padded.len());
        Ok(())
    };
    vec![
        group("lengths", 300, 300, move |c| {
            let n = c.idx as usize;
            one(c, n)
        })
        .small(3)
        .tiny(2),
        group("random", 2500, 50_000, move |c| {
            let max = c.size(30, 200, 1200);
            let n = msg_len(&mut c.rng, max);
            one(c, n)
        }),
        group("long", 6, 60, move |c| {
            let n = c.size(30, 500, 20_000) + c.rng.below(64);
            one(c, n)
        })
        .small(1),
    ]
}
