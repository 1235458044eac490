From cc270e2a1d1498041a15750996793bed1007a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 01/30] fix: hadamard: key() panicked when the index wrapped
 onto the last row

There are n-1 keys (row 0 is all ones), but the index was reduced modulo n
and then offset by one, so key(n-1) indexed past the end of the matrix.
---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..20664b3 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get((n % (self.matrix.len() - 1)) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From 820cce3654be770af7031d6184ee4d7807a6aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 02/30] fix: power: divide by the number of samples, not the
 last index

The accumulated count was the index of the last sample, so the mean was
taken over n-1 samples (and a one-sample signal had infinite power).
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..61d2d0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -254,7 +254,7 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
     let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+        (idx + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From 2e73c75fb76eef34130a9a43a9a33244424cb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 03/30] fix: convolve/nonvolve: compute the linear convolution

The newest sample was paired with the last tap, and the flush dropped the
oldest sample without advancing the taps, so any filter whose taps are not
all equal gave wrong values; a signal shorter than the filter also lost the
end of its response.
---
 src/iter/convolution.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..4f8023e 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    flushed: usize,
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            flushed: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.flushed))
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -60,11 +62,11 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                // The newest sample still has `filter.len() - 1` taps to go through.
+                if self.buffer.is_empty() || self.flushed + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.flushed += 1;
                     Some(self._convolve())
                 }
             }
@@ -80,6 +82,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    flushed: usize,
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +96,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            flushed: 0,
         }
     }
 
@@ -100,7 +104,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.flushed))
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -130,10 +134,10 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                if self.buffer.is_empty() || self.flushed + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.flushed += 1;
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From 68a62da69d0a5197e54456ee085154822fe5759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 04/30] fix: chebyshev: use the documented map, which stays in
 [-1, 1]

The cubic in use diverges from every non-zero start (0.5 overflows to
infinity within 8 steps), which made every FH-OFDM-DCSK frame NaN.
---
 src/chaos/chebyshev.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..49dcfc7 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -1,10 +1,7 @@
 #[inline]
 /// Can be either 1-2(x_n^2) or 2(x_n^2)-1.
 pub fn chebyshev(xn: f64) -> f64 {
-    let mu = 3f64;
-    // 1f64 - 2f64 * xn.powi(2)
-    // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    1f64 - 2f64 * xn.powi(2)
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From 9d9940ecc5ab15e5b7e6cb429b5ad5a14c93a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 05/30] fix: bch: don't panic on a stream that ends inside a
 frame's parity

A trailing fragment of fewer than ECC_VALUE bytes underflowed the data length
(in the decoder and in the fallback slice).
---
 src/bch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bch.rs b/src/bch.rs
index 9ff0102..4e13ce1 100644
--- a/src/bch.rs
+++ b/src/bch.rs
@@ -21,6 +21,8 @@ pub fn bch_stream_encode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item
 pub fn bch_stream_decode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
     bools_to_u8s(data)
         .chunks(FRAME_VALUE)
+        // A trailing fragment too short to hold any data can't be decoded.
+        .filter(|chunk| chunk.len() > ECC_VALUE)
         .flat_map(|chunk| {
             let dec = Decoder::new(ECC_VALUE);
             // let decoded: Vec<u8> = dec.correct(&chunk, None);
-- 
2.43.0


From f68843ffe312754dc86b1b27d83a3aab451c28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 06/30] fix: ofdm, fh-ofdm-dcsk: don't panic on a signal that
 ends inside a symbol

The receivers handed a short trailing chunk to a fixed-length FFT (or sliced
past its end). An incomplete trailing symbol is now dropped, as the other
receivers do.
---
 src/fh_ofdm_dcsk.rs | 1 +
 src/ofdm.rs         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 160690d..2b0f606 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Complex<f64>>>(
 
     signal
         .chunks(NUM_SUBCARRIERS + CP_LEN)
+        .filter(|chunk| chunk.len() == NUM_SUBCARRIERS + CP_LEN)
         .flat_map(move |chunk| {
             let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal
 
diff --git a/src/ofdm.rs b/src/ofdm.rs
index bbaabf2..9123ab9 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
 
     message
         .chunks(subcarriers + cp_len) // S/P
+        .filter(move |ofdm_symbol_data| ofdm_symbol_data.len() == subcarriers + cp_len)
         .flat_map(move |ofdm_symbol_data| {
             // let mut buffer: Vec<Complex<f64>> = fftshift(&ofdm_symbol_data[cp_len..]); // CP Removal
             let mut buffer: Vec<Complex<f64>> = Vec::from(&ofdm_symbol_data[cp_len..]); // CP Removal
-- 
2.43.0


From ac84aa19f89da7adabd68012108ea0b62b428209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 07/30] fix: ofdm: transmit the right subcarriers when their
 number is odd

The transmitter shifted the spectrum with fftshift, which the receiver's
fftshift only undoes for an even number of subcarriers.
---
 src/lib.rs  | 9 +++++++++
 src/ofdm.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 61d2d0c..14a4ea5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -147,6 +147,15 @@ fn fftshift<T: Clone>(x: &[T]) -> Vec<T> {
     v
 }
 
+/// The inverse of `fftshift` (they differ for odd lengths).
+fn ifftshift<T: Clone>(x: &[T]) -> Vec<T> {
+    let mut v = Vec::with_capacity(x.len());
+    let pivot = x.len() / 2;
+    v.extend_from_slice(&x[pivot..]);
+    v.extend_from_slice(&x[..pivot]);
+    v
+}
+
 fn fftshift_mut<T: Copy>(x: &mut [T]) {
     let pivot = x.len().div_ceil(2);
     let v: Vec<T> = Vec::from(&x[..pivot]);
diff --git a/src/ofdm.rs b/src/ofdm.rs
index 9123ab9..5644e48 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -1,6 +1,6 @@
 use crate::iter::Iter;
 use crate::qpsk::{rx_baseband_qpsk_signal, tx_baseband_qpsk_signal};
-use crate::{fftshift, is_int, Bit};
+use crate::{fftshift, ifftshift, is_int, Bit};
 use rustfft::num_traits::Zero;
 use rustfft::{num_complex::Complex, FftPlanner};
 use std::f64::consts::PI;
@@ -41,7 +41,7 @@ pub fn tx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
                 .zip(data_chunk)
                 .for_each(|(&carrier, datum)| ofdm_symbol_data[carrier] = datum);
 
-            let mut ofdm_symbols = fftshift(&ofdm_symbol_data);
+            let mut ofdm_symbols = ifftshift(&ofdm_symbol_data);
             fft.process_with_scratch(&mut ofdm_symbols, &mut fft_scratch); // IFFT
 
             let cp = ofdm_symbols[subcarriers - cp_len..subcarriers]
-- 
2.43.0


From a0701db36193c735bdc2b55ad794a306bc62ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 08/30] fix: ofdm: integrate each received symbol over its own
 samples

The sampled moving sum was one sample late, so every symbol leaked into its
neighbour (bit errors on a clean channel at few samples per symbol), and with
one sample per symbol the first symbol was lost.
---
 src/ofdm.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index 5644e48..9b814c6 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -128,7 +128,6 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     let samples_per_symbol = sample_rate / symbol_rate;
 
-    let filter: Vec<f64> = (0..samples_per_symbol).map(|_| 1f64).collect();
     let ofdm_symbols = message
         .enumerate()
         .map(move |(idx, sample)| {
@@ -138,10 +137,8 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
 
             [ii, qi]
         })
-        .nonvolve(filter)
-        .map(|s_i| Complex::new(s_i[0], s_i[1]))
-        .take_every(samples_per_symbol)
-        .skip(1);
+        .nintegrate_and_dump(samples_per_symbol)
+        .map(|s_i| Complex::new(s_i[0], s_i[1]));
 
     let qpsk_symbols = rx_baseband_ofdm_signal(ofdm_symbols, subcarriers, pilots);
     rx_baseband_qpsk_signal(qpsk_symbols)
-- 
2.43.0


From 0ca669cb161630d6b5e9d0c4c734f50f9afc6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 09/30] fix: hop table: a table of one frequency panicked on
 its second hop

---
 src/fh.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..bae27c7 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -42,15 +42,10 @@ impl Iterator for HopTable {
     fn next(&mut self) -> Option<f64> {
         if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
-        } else if self.idx == self.hopping_table.len() - 1 {
-            self.idx = 0;
-            Some(self.hopping_table[self.hopping_table.len() - 1])
-        } else {
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
         }
+        let hop_freq = self.hopping_table[self.idx];
+        self.idx = (self.idx + 1) % self.hopping_table.len();
+        Some(hop_freq)
     }
 }
 
-- 
2.43.0


From 55eced9e225e5e1a4f0b4713af17050d3c69054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 10/30] fix: inflate: zero copies of each item is an empty
 stream, not an endless one

---
 src/iter/inflate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter/inflate.rs b/src/iter/inflate.rs
index 6218e64..258bf8f 100644
--- a/src/iter/inflate.rs
+++ b/src/iter/inflate.rs
@@ -21,6 +21,9 @@ impl<T: Copy, I: Iterator<Item = T>> Iterator for Inflate<T, I> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
+        if self.copies == 0 {
+            return None;
+        }
         if self.curr.is_none() || self.curr_copy == self.copies {
             self.curr = self.source.next();
             self.curr_copy = 1;
-- 
2.43.0


From 6cd79141c0a5a043be539a1ef8741ef1060655f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 11/30] fix: linear_downchirp_centered swept upwards

---
 src/fh_css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..ece8aab 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -36,7 +36,7 @@ pub fn linear_downchirp_centered(
 ) -> impl Iterator<Item = f64> {
     let f0: f64 = center_freq - bandwidth / 2f64;
     let f1: f64 = center_freq + bandwidth / 2f64;
-    linear_chirp(chirp_rate, sample_rate, f0, f1)
+    linear_chirp(chirp_rate, sample_rate, f1, f0)
 }
 
 pub fn tx_fh_css_signal<I: Iterator<Item = Bit>>(
-- 
2.43.0


From 653897e82a8464060f08314c98844d9ab7aef422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 12/30] fix: awgn_complex: add noise to both axes, not only the
 real one

---
 src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14a4ea5..f9ed6d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -226,13 +226,11 @@ pub fn awgn_complex<I: Iterator<Item = Complex<f64>>>(
     signal: I,
     sigma: f64,
 ) -> impl Iterator<Item = Complex<f64>> {
-    signal
-        .zip(
-            Normal::new(0f64, sigma)
-                .unwrap()
-                .sample_iter(rand::thread_rng()),
-        )
-        .map(|(sample, noise)| sample + noise)
+    let noise = Normal::new(0f64, sigma).unwrap();
+    let mut rng = rand::thread_rng();
+
+    // Independent noise on both axes.
+    signal.map(move |sample| sample + Complex::new(noise.sample(&mut rng), noise.sample(&mut rng)))
 }
 
 pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {
-- 
2.43.0


From 017246c7af981c9f40803d1dd995d10548c599d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 13/30] fix: ofdm: reject pilot counts that leave no DC null or
 no data subcarrier

---
 src/ofdm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index 9b814c6..3997f49 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -22,6 +22,7 @@ pub fn tx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
     subcarriers: usize,
     pilots: usize,
 ) -> impl Iterator<Item = Complex<f64>> {
+    assert!(1 <= pilots && pilots < subcarriers);
     let num_data_subcarriers = subcarriers - pilots;
     let cp_len = subcarriers / 4;
 
@@ -64,6 +65,7 @@ pub fn rx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
     subcarriers: usize,
     pilots: usize,
 ) -> impl Iterator<Item = Complex<f64>> {
+    assert!(1 <= pilots && pilots < subcarriers);
     let num_data_subcarriers = subcarriers - pilots;
     let cp_len = subcarriers / 4;
 
-- 
2.43.0


From 4c6393da79b45ec8987a13438261508f027b39a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 14/30] fix: kom_py: tx_qpsk modulated at half of the carrier
 frequency

---
 kom_py/psk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index 8928f26..ebcf579 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -72,7 +72,7 @@ def tx_qpsk(
     # Make time array
     # time = [i / samp_rate for i in range(len(symbols))]
     return [
-        (c_i * np.exp(1j * np.pi * carrier_freq * (i / samp_rate))).real
+        (c_i * np.exp(2j * np.pi * carrier_freq * (i / samp_rate))).real
         for (i, c_i) in enumerate(symbols)
     ]
 
-- 
2.43.0


From ff5580e9da26ab24e8e44aa0ab578663edd82899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 15/30] fix: kom_py: rx_bpsk and rx_qpsk sampled one sample
 after the end of each symbol

---
 kom_py/psk.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index ebcf579..81d6b76 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -55,8 +55,10 @@ def rx_bpsk(
     ]
 
     sig = np.convolve(if_sig, filter)
+    # The last sample of each whole symbol.
+    sampling = slice(samples_per_symbol - 1, len(if_sig), samples_per_symbol)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[sampling]]
 
 
 def tx_qpsk(
@@ -101,7 +103,9 @@ def rx_qpsk(
         filter,
     )
 
-    i_bits = [i > 0 for i in ii[::samples_per_symbol]][1:]
-    q_bits = [i > 0 for i in qi[::samples_per_symbol]][1:]
+    # The last sample of each whole symbol.
+    sampling = slice(samples_per_symbol - 1, len(signal), samples_per_symbol)
+    i_bits = [i > 0 for i in ii[sampling]]
+    q_bits = [i > 0 for i in qi[sampling]]
 
     return list(np.array(list(zip(i_bits, q_bits))).flatten())
-- 
2.43.0


From 1b1108b578c4c0a1777c2091bff41e5e18d9e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 16/30] fix: kom_py: rx_bpsk_cdma never applied the spreading
 key

---
 kom_py/cdma.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 57765aa..57edbb0 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -32,6 +32,7 @@ def rx_bpsk_cdma(
     signal: List[float], samp_rate: int, symb_rate: int, carrier_freq: float
 ) -> List[bool]:
     samples_per_symbol = int(samp_rate / symb_rate)
+    samples_per_chip = int(samples_per_symbol / len(KEY))
     assert samp_rate / 2 >= carrier_freq
     assert samp_rate / 2 >= len(KEY) * symb_rate
     assert samp_rate % symb_rate == 0
@@ -40,13 +41,17 @@ def rx_bpsk_cdma(
     filter = [1 for _ in range(samples_per_symbol)]
 
     if_sig = [
-        s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
+        s_i
+        * KEY[i // samples_per_chip % len(KEY)]
+        * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
         for (i, s_i) in enumerate(signal)
     ]
 
     sig = np.convolve(if_sig, filter)
+    # The last sample of each whole symbol.
+    sampling = slice(samples_per_symbol - 1, len(if_sig), samples_per_symbol)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[sampling]]
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 0d619274bef4190e37149e491ad8426599ae1158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 17/30] fix: kom_py: floor_power_of_2 halved some powers of two
 (2**29)

---
 kom_py/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 461cf9d..0dcb9ac 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python3
 from contextlib import contextmanager
 from itertools import zip_longest
-from math import ceil, log
+from math import ceil
 import numpy as np
 import time
 from typing import Any, Iterable, Generator, List, Union, Optional
@@ -23,10 +23,8 @@ def floor_power_of_2(x):
     x = int(x)
     if x == 0:
         return 0
-    elif log(x, 2).is_integer():
-        return x
     else:
-        return 2 ** (int(x - 1).bit_length() - 1)
+        return 2 ** (x.bit_length() - 1)
 
 
 def bit_to_nrz(bit: bool) -> float:
-- 
2.43.0


From fec477fb173002a30103aebe1e8a6185f9cecd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 18/30] fix: kom_py: ber.py's OFDM receiver demodulated the
 data instead of the signal

---
 kom_py/ber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/ber.py b/kom_py/ber.py
index 6438cc0..6e14e22 100644
--- a/kom_py/ber.py
+++ b/kom_py/ber.py
@@ -92,7 +92,7 @@ if __name__ == "__main__":
         subcarriers = 16
         pilots = int(subcarriers * 0.8)
         return rx_ofdm(
-            data, subcarriers, pilots, SAMPLE_RATE, SYMBOL_RATE, CARRIER_FREQ
+            signal, subcarriers, pilots, SAMPLE_RATE, SYMBOL_RATE, CARRIER_FREQ
         )
 
     comms_schemes: List[BitErrorTestResults] = [
-- 
2.43.0


From 01e6c1d47e273c4520934002c3f918fdfba77ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 19/30] fix: kom_py: rs_ssca.py imported a function the
 extension does not export

---
 kom_py/rs_ssca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kom_py/rs_ssca.py b/kom_py/rs_ssca.py
index 4d80990..115de0f 100644
--- a/kom_py/rs_ssca.py
+++ b/kom_py/rs_ssca.py
@@ -10,7 +10,7 @@ from ssca import (
     max_cut,
     dcs,
 )
-from komunikilo import ssca_mapped
+from komunikilo import ssca
 
 import random
 from typing import List
@@ -53,7 +53,7 @@ if __name__ == "__main__":
             # N = floor_power_of_2(len(sig) - Np)
             N = 4096
             # sx = ssca(sig, N, Np)
-            sx = ssca_mapped(sig, N, Np)
+            sx = ssca(sig, N, Np, map_output=True)
             mc = max_cut(sx)
             dc = dcs(sx)
             # plot_ssca_diamond(sx)
-- 
2.43.0


From 5c380947514b346e3f1bf1cb5332ebddf13a5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 20/30] fix: qpsk, fsk, fm, ofdm: reject carriers above Nyquist
 and fractional symbol lengths, like the other transmitters

---
 src/fm.rs   | 6 +++++-
 src/ofdm.rs | 1 +
 src/qpsk.rs | 5 ++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fm.rs b/src/fm.rs
index 0bde625..fc02882 100644
--- a/src/fm.rs
+++ b/src/fm.rs
@@ -1,4 +1,4 @@
-use crate::{bit_to_nrz, iter::Iter, Bit};
+use crate::{bit_to_nrz, is_int, iter::Iter, Bit};
 use std::f64::consts::PI;
 
 pub fn tx_fsk<I: Iterator<Item = Bit>>(
@@ -10,6 +10,8 @@ pub fn tx_fsk<I: Iterator<Item = Bit>>(
     let samples_per_symbol: usize = sample_rate / symbol_rate;
 
     let sep: f64 = 0.05 * carrier_freq;
+    assert!(sample_rate / 2 >= (carrier_freq + sep / 2f64) as usize);
+    assert!(is_int(sample_rate as f64 / symbol_rate as f64));
 
     message
         .map(bit_to_nrz)
@@ -65,6 +67,8 @@ pub fn tx_fm<I: Iterator<Item = f64>>(
 ) -> impl Iterator<Item = f64> {
     let k = 0.05;
     let samples_per_symbol: usize = sample_rate / symbol_rate;
+    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(is_int(sample_rate as f64 / symbol_rate as f64));
 
     signal
         .inflate(samples_per_symbol)
diff --git a/src/ofdm.rs b/src/ofdm.rs
index 3997f49..55635a4 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -103,6 +103,7 @@ pub fn tx_ofdm_qpsk_signal<I: Iterator<Item = Bit>>(
     symbol_rate: usize,
     carrier_freq: f64,
 ) -> impl Iterator<Item = f64> {
+    assert!(sample_rate / 2 >= carrier_freq as usize);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     let samples_per_symbol = sample_rate / symbol_rate;
 
diff --git a/src/qpsk.rs b/src/qpsk.rs
index 601d308..8f0c799 100644
--- a/src/qpsk.rs
+++ b/src/qpsk.rs
@@ -1,4 +1,4 @@
-use crate::{bit_to_nrz, iter::Iter, Bit};
+use crate::{bit_to_nrz, is_int, iter::Iter, Bit};
 use itertools::Itertools;
 use num::complex::Complex;
 use std::f64::consts::PI;
@@ -27,6 +27,9 @@ pub fn tx_qpsk_signal<I: Iterator<Item = Bit>>(
     carrier_freq: f64,
 ) -> impl Iterator<Item = f64> {
     let samples_per_symbol: usize = sample_rate / symbol_rate;
+    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(is_int(sample_rate as f64 / symbol_rate as f64));
+
     message
         .tuples()
         .inflate(samples_per_symbol)
-- 
2.43.0


From 7ba144de67fe6da5805c0c85666b455df1fe052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 21/30] fix: kom_py: max_cut took the lexicographic maximum of
 complex cells, not the largest magnitude

---
 kom_py/ssca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/ssca.py b/kom_py/ssca.py
index 412bd32..4c0072a 100755
--- a/kom_py/ssca.py
+++ b/kom_py/ssca.py
@@ -101,7 +101,7 @@ def ssca(s: List[float], N, Np, map_output=True) -> np.ndarray:
 def max_cut(sx: np.ndarray) -> np.ndarray:
     # l_max(t, a) = 10 log_10( max_f( | S(a, f) |^2 ) )
     # TODO: verify if axis zero or axis 1.
-    λ = np.abs(np.max(sx, axis=1)) ** 2
+    λ = np.max(np.abs(sx), axis=1) ** 2
     return 10 * np.log10(λ)
     # return λ
 
-- 
2.43.0


From 8b7c9cfd938d3f5c853dd6ac59c57c80b6a2281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 22/30] fix: kom_py: chirpCtr passed the sample rate as the
 chirp rate and the phase as a period count

---
 kom_py/chirp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/chirp.py b/kom_py/chirp.py
index c6f1a5b..2695c21 100644
--- a/kom_py/chirp.py
+++ b/kom_py/chirp.py
@@ -89,7 +89,7 @@ def chirpCtr(fs_Hz, fc_Hz, rep_Hz, bw_Hz, phase_rad=0):
     """
     f0_Hz = fc_Hz - bw_Hz / 2.0
     f1_Hz = fc_Hz + bw_Hz / 2.0
-    return chirpz(fs_Hz, rep_Hz, f0_Hz, f1_Hz, phase_rad)
+    return chirpz(rep_Hz, fs_Hz, f0_Hz, f1_Hz, phase_rad=phase_rad)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c8829dd9679a72b66309ccc0108eb7311552206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 23/30] fix: kom_py: noise_sig read an undefined name instead
 of its signal

---
 kom_py/ber.py        | 2 +-
 kom_py/ber_theory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kom_py/ber.py b/kom_py/ber.py
index 6e14e22..81c3efa 100644
--- a/kom_py/ber.py
+++ b/kom_py/ber.py
@@ -43,7 +43,7 @@ def get_ber(data, tx_sig, rx_func, n0) -> float:
 
 
 def noise_sig(tx_sig, n0, konst) -> float:
-    return [s_i + gauss(sigma=n0) * konst for s_i in signal]
+    return [s_i + gauss(sigma=n0) * konst for s_i in tx_sig]
 
 
 def calc_ber(ber_test: BitErrorTestResults) -> BitErrorTestResults:
diff --git a/kom_py/ber_theory.py b/kom_py/ber_theory.py
index 6628a65..9c86e87 100644
--- a/kom_py/ber_theory.py
+++ b/kom_py/ber_theory.py
@@ -39,7 +39,7 @@ def get_ber(data, tx_sig, rx_func, n0) -> float:
 
 
 def noise_sig(tx_sig, n0, konst) -> float:
-    return [s_i + gauss(sigma=n0) * konst for s_i in signal]
+    return [s_i + gauss(sigma=n0) * konst for s_i in tx_sig]
 
 
 ##
-- 
2.43.0


From d66f61276158b8ac88035c75bc2c5f78f13ef19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 24/30] fix: kom_py: lambdas.py's regression table failed on
 tied detector statistics

---
 kom_py/lambdas.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index aa4edfc..0d18a3c 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -100,14 +100,10 @@ def __log_regress(
     # sort it by predicted probabilities
     # because thresholds[1:] = y_proba[::-1]
     df_test.sort_values(by="proba", inplace=True)
-    if len(tpr) == len(h0_λs):
-        df_test["tpr"] = tpr[::-1]
-    else:
-        df_test["tpr"] = tpr[1:][::-1]
-    if len(fpr) == len(h0_λs):
-        df_test["fpr"] = fpr[::-1]
-    else:
-        df_test["fpr"] = fpr[1:][::-1]
+    # The curve has one row per distinct probability, from the highest down.
+    rows = np.searchsorted(-thresholds, -df_test["proba"].to_numpy())
+    df_test["tpr"] = tpr[rows]
+    df_test["fpr"] = fpr[rows]
     df_test["youden_j"] = df_test.tpr - df_test.fpr
     if return_lr:
         return df_test, log_regression
-- 
2.43.0


From ea80d61e427c1351faa174b91a5dd4ab019712bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 25/30] fix: the Python tx_fh_ofdm_dcsk wrote a debug line to
 standard output

---
 src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f9ed6d3..1c78002 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -606,11 +606,7 @@ fn module_with_functions(m: &Bound<'_, PyModule>) -> PyResult<()> {
         symbol_rate: usize,
         carrier_freq: f64,
     ) -> Vec<f64> {
-        let res =
-            tx_fh_ofdm_dcsk_signal_2(message.into_iter(), sample_rate, symbol_rate, carrier_freq)
-                .collect();
-        println!("RUST: FHOFDMDCSK symbols ready for python");
-        res
+        tx_fh_ofdm_dcsk_signal_2(message.into_iter(), sample_rate, symbol_rate, carrier_freq).collect()
     }
 
     m.add_function(wrap_pyfunction!(tx_baseband_bpsk, m)?)?;
-- 
2.43.0


From 940a50b5767894da5209dff450b3a7f46b2f6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 26/30] fix: plot_auc_vs_snr passes the two sets of statistics
 to a function that takes a regression's table

---
 kom_py/lambdas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index 0d18a3c..c83708b 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -130,7 +130,9 @@ def plot_multi_roc_curve(lrs: List[pd.DataFrame], label=""):
 
 
 def plot_auc_vs_snr(h0_λs: List[np.array], h1_λs: List[np.array], snrs: List[float]):
-    aucs: List[float] = [__auc(h0_λ, h1_λ) for h0_λ, h1_λ in zip(h0_λs, h1_λs)]
+    aucs: List[float] = [
+        __auc(__log_regress(h0_λ, h1_λ)) for h0_λ, h1_λ in zip(h0_λs, h1_λs)
+    ]
     fig, ax = plt.subplots()
     ax.plot(db(snrs), aucs)
     ax.set_xlabel("SNR (db)")
-- 
2.43.0


From d7d2392fb4a91468ceb5319306f046ad588961d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 27/30] fix: plot_best_lambda takes the truth of a table and an
 attribute of the threshold it was given

---
 kom_py/lambdas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index c83708b..f0d7757 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -194,7 +194,7 @@ def plot_youden_j_with_multiple_modulations(
 
 def plot_best_lambda(h0_λs: np.array, h1_λs: np.array, lr=None):
     # Get cutoff
-    if not lr:
+    if lr is None:
         lr = __log_regress(h0_λs, h1_λs)
     cut_off = __best_threshold(lr)
 
@@ -210,7 +210,7 @@ def plot_best_lambda(h0_λs: np.array, h1_λs: np.array, lr=None):
     fig, ax = plt.subplots()
     ax.plot(x_hist, h0_hist.pdf(x_hist))
     ax.plot(x_hist, h1_hist.pdf(x_hist))
-    ax.axvline(cut_off.x, color="k", ls="--")
+    ax.axvline(cut_off, color="k", ls="--")
 
 
 def __best_threshold(lr: pd.DataFrame) -> float:
-- 
2.43.0


From 9b321c9941b4fb4957dbeeeb5e4b4d3d06bec5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 28/30] fix: the theoretical QPSK bit error rate is that of
 BPSK at the same energy per bit

---
 kom_py/ber_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/ber_theory.py b/kom_py/ber_theory.py
index 9c86e87..05fdf18 100644
--- a/kom_py/ber_theory.py
+++ b/kom_py/ber_theory.py
@@ -29,7 +29,7 @@ def ber_bpsk(eb_n0: float) -> float:
 
 
 def ber_qpsk(eb_n0: float) -> float:
-    return 0.5 * erfc(np.sqrt(eb_n0)) - 0.25 * erfc(np.sqrt(eb_n0)) ** 2
+    return 0.5 * erfc(np.sqrt(eb_n0))
 
 
 def get_ber(data, tx_sig, rx_func, n0) -> float:
-- 
2.43.0


From 55a6d7defca85cd2b8b0788819a440fecb25e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 29/30] fix: secs_to_str adds a quarter of a day to the hours
 of every year

---
 kom_py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 0dcb9ac..574eb04 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -64,7 +64,7 @@ def secs_to_str(seconds: float) -> str:
     if days:
         out += f"{int(seconds % s_y // s_d)}d:"
     if hours:
-        out += f"{int(seconds % s_d // s_h)}h:"
+        out += f"{int(seconds % s_y % s_d // s_h)}h:"
     if minutes:
         out += f"{int(seconds % s_h // s_m)}m:"
     if seconds:
-- 
2.43.0


From 88b34c96dc15a11925c4458108ed8f934df90a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 30/30] fix: the detectors answer silent and non-finite signals
 instead of panicking

---
 src/lib.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c78002..680f527 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -329,10 +329,7 @@ fn dcs_detector(signal: Vec<f64>) -> f64 {
     let top = sx.map(Complex::<f64>::norm_sqr).sum_axis(Axis(0));
     let bot = sx.row(0).map(Complex::<f64>::norm_sqr);
 
-    let lambda = (top / bot)
-        .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
+    let lambda = (top / bot).into_iter().fold(f64::NAN, f64::max);
 
     10f64 * lambda.log10()
 }
@@ -344,10 +341,7 @@ fn dcs_detector_sxf(sxf: PyReadonlyArray2<'_, Complex<f64>>) -> f64 {
     let top = sx.map(Complex::<f64>::norm_sqr).sum_axis(Axis(0));
     let bot = sx.row(0).map(Complex::<f64>::norm_sqr);
 
-    let lambda = (top / bot)
-        .into_iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
+    let lambda = (top / bot).into_iter().fold(f64::NAN, f64::max);
 
     10f64 * lambda.log10()
 }
@@ -359,8 +353,7 @@ fn max_cut_detector(signal: Vec<f64>) -> f64 {
     let lambda: f64 = ssca_base(signal, n, np)
         .iter()
         .map(|&s_i| s_i.norm_sqr())
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
+        .fold(f64::NAN, f64::max);
 
     10f64 * lambda.log10()
 }
@@ -371,8 +364,7 @@ fn max_cut_detector_sxf(sxf: PyReadonlyArray2<'_, Complex<f64>>) -> f64 {
         .as_array()
         .iter()
         .map(|s_i| s_i.norm_sqr())
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
+        .fold(f64::NAN, f64::max);
     10f64 * lambda.log10()
 }
 
-- 
2.43.0

