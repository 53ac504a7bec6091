From 7a84d713462820d81c53134f38f7eac185900fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 1/5] fix: Dst1ConvertToFft: write the zero cells of the FFT
 input

The first and middle cells of the FFT input were assumed to be zero, so a
caller-provided scratch buffer with other contents corrupted the result.
---
 src/algorithm/type1_convert_to_fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/type1_convert_to_fft.rs b/src/algorithm/type1_convert_to_fft.rs
index 6e5f9a5..ff4d5dd 100644
--- a/src/algorithm/type1_convert_to_fft.rs
+++ b/src/algorithm/type1_convert_to_fft.rs
@@ -169,11 +169,14 @@ impl<T: DctNum> Dst1<T> for Dst1ConvertToFft<T> {
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
         // the first half of the FFT input will be a 0, followed by the input array
+        // the scratch may contain anything, so the zeros have to be written explicitly
+        fft_buffer[0] = Complex::from(T::zero());
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().skip(1)) {
             *fft_cell = Complex::from(input_val);
         }
 
         // the second half of the FFT input will be a 0, followed by the input array, reversed and negated
+        fft_buffer[buffer.len() + 1] = Complex::from(T::zero());
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().rev()) {
             *fft_cell = Complex::from(-*input_val);
         }
-- 
2.43.0


From c6107aac66a584ac71a38e179a24c961176db227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 2/5] fix: Dst6And7ConvertToFft: zero the rest of the DST6 FFT
 input

Only the imaginary parts of the odd cells were written, so a caller-provided
scratch buffer that was not all zeros corrupted the result.
---
 src/algorithm/type6and7_convert_to_fft.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c630774..c465a16 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -65,7 +65,11 @@ impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
-        // Copy the buffer to the odd imaginary components of the FFT inputs
+        // Copy the buffer to the odd imaginary components of the FFT inputs. Everything else has to be zero, and the
+        // scratch may contain anything, so the zeros have to be written explicitly
+        for fft_cell in fft_buffer.iter_mut() {
+            *fft_cell = Complex::from(T::zero());
+        }
         for i in 0..buffer.len() {
             fft_buffer[i * 2 + 1].im = buffer[i];
         }
-- 
2.43.0


From 6fa8c18f1e7a8e85dee8fdbfe664e5196727e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 3/5] fix: Dst6And7ConvertToFft: zero the first cell of the
 DST7 FFT input

It was left as found in the caller-provided scratch buffer.
---
 src/algorithm/type6and7_convert_to_fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c465a16..4a5daaa 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -99,6 +99,9 @@ impl<T: DctNum> Dst7<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        // The first element of the FFT input is zero
+        fft_buffer[0] = Complex::from(T::zero());
+
         // Copy all the even-indexed elements to the back of the FFT buffer array
         let even_count = (buffer.len() + 1) / 2;
         for i in 0..even_count {
-- 
2.43.0


From 1a3cbbc97bcd309a94e2f85ed02a72ce110cf0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 4/5] fix: Type2And3SplitRadix: request enough scratch for the
 inner DCTs

The buffer was used as the inner DCTs' scratch space whatever they asked for,
so an inner DCT that needs more scratch than that (for example one computed
via FFT) made every call panic with 'Not enough scratch space'.
---
 src/algorithm/type2and3_splitradix.rs | 47 ++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index 62ce78b..0f85d16 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -32,6 +32,7 @@ pub struct Type2And3SplitRadix<T> {
     half_dct: Arc<dyn TransformType2And3<T>>,
     quarter_dct: Arc<dyn TransformType2And3<T>>,
     twiddles: Box<[Complex<T>]>,
+    scratch_len: usize,
 }
 
 impl<T: DctNum> Type2And3SplitRadix<T> {
@@ -56,10 +57,21 @@ impl<T: DctNum> Type2And3SplitRadix<T> {
             .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
             .collect();
 
+        // the inner DCTs can use the buffer as scratch space, unless they need more than that
+        let inner_scratch = half_dct
+            .get_scratch_len()
+            .max(quarter_dct.get_scratch_len());
+        let scratch_len = if inner_scratch <= len {
+            len
+        } else {
+            len + inner_scratch
+        };
+
         Self {
             half_dct: half_dct,
             quarter_dct: quarter_dct,
             twiddles: twiddles.into_boxed_slice(),
+            scratch_len,
         }
     }
 }
@@ -73,7 +85,8 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         //preprocess the data by splitting it up into vectors of size n/2, n/4, and n/4
-        let (input_dct2, input_dct4) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (input_dct2, input_dct4) = self_scratch.split_at_mut(half_len);
         let (input_dct4_even, input_dct4_odd) = input_dct4.split_at_mut(quarter_len);
 
         for i in 0..quarter_len {
@@ -103,12 +116,18 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
             
         }
 
-        // compute the recursive DCT2s, using the original buffer as scratch space
-        self.half_dct.process_dct2_with_scratch(input_dct2, buffer);
+        // compute the recursive DCT2s, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
+        self.half_dct
+            .process_dct2_with_scratch(input_dct2, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_even, buffer);
+            .process_dct2_with_scratch(input_dct4_even, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_odd, buffer);
+            .process_dct2_with_scratch(input_dct4_odd, inner_scratch);
 
         unsafe {
             //post process the 3 DCT2 outputs. the first few and the last will be done outside of the loop
@@ -155,7 +174,8 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         // divide the output into 3 sub-lists to use for our inner DCTs, one of size N/2 and two of size N/4
-        let (recursive_input_evens, recursive_input_odds) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (recursive_input_evens, recursive_input_odds) = self_scratch.split_at_mut(half_len);
         let (recursive_input_n1, recursive_input_n3) =
             recursive_input_odds.split_at_mut(quarter_len);
 
@@ -183,13 +203,18 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
             }
         }
 
-        //perform our recursive DCTs, using the original buffer as scratch space
+        //perform our recursive DCTs, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
         self.half_dct
-            .process_dct3_with_scratch(recursive_input_evens, buffer);
+            .process_dct3_with_scratch(recursive_input_evens, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n1, buffer);
+            .process_dct3_with_scratch(recursive_input_n1, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n3, buffer);
+            .process_dct3_with_scratch(recursive_input_n3, inner_scratch);
 
         //merge the results. we're going to combine 2 separate things:
         // - merging the two smaller DCT3 outputs into a DCT4 output
@@ -240,7 +265,7 @@ impl<T> Length for Type2And3SplitRadix<T> {
 }
 impl<T> RequiredScratch for Type2And3SplitRadix<T> {
     fn get_scratch_len(&self) -> usize {
-        self.len()
+        self.scratch_len
     }
 }
 
-- 
2.43.0


From f680e15926bf5d254a9f767825b85725fcbd0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 5/5] fix: DctPlanner: honour the window function of every
 plan_mdct call

MDCT instances were cached by length only, so planning the same length again
with another window function returned an instance with the first window.
---
 src/plan.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/plan.rs b/src/plan.rs
index addb08a..ad7d529 100644
--- a/src/plan.rs
+++ b/src/plan.rs
@@ -53,8 +53,6 @@ pub struct DctPlanner<T: DctNum> {
     dst6_cache: HashMap<usize, Arc<dyn Dst6And7<T>>>,
     dct8_cache: HashMap<usize, Arc<dyn Dct8<T>>>,
     dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
-
-    mdct_cache: HashMap<usize, Arc<dyn Mdct<T>>>,
 }
 impl<T: DctNum> DctPlanner<T> {
     pub fn new() -> Self {
@@ -70,7 +68,6 @@ impl<T: DctNum> DctPlanner<T> {
             dst6_cache: HashMap::new(),
             dct8_cache: HashMap::new(),
             dst8_cache: HashMap::new(),
-            mdct_cache: HashMap::new(),
         }
     }
 
@@ -336,13 +333,8 @@ impl<T: DctNum> DctPlanner<T> {
     where
         F: (FnOnce(usize) -> Vec<T>),
     {
-        if self.mdct_cache.contains_key(&len) {
-            Arc::clone(self.mdct_cache.get(&len).unwrap())
-        } else {
-            let result = self.plan_new_mdct(len, window_fn);
-            self.mdct_cache.insert(len, Arc::clone(&result));
-            result
-        }
+        // the result depends on the window function, so it can't be cached by length. The inner DCT4 is cached though
+        self.plan_new_mdct(len, window_fn)
     }
 
     fn plan_new_mdct<F>(&mut self, len: usize, window_fn: F) -> Arc<dyn Mdct<T>>
-- 
2.43.0

