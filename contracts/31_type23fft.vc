@@ type Type2And3ConvertToFft
    open spec fn slen(&self) -> int { self.twiddles@.len() as int }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn wf(&self) -> bool {
        &&& 1 <= self.slen() <= max_len()
        &&& self.fft.flen() == self.slen() && self.fft.fwd()
        &&& 0 <= self.fft.iscratch() <= fft_max()
        &&& self.scratch_len == 2 * (self.slen() + self.fft.iscratch())
        &&& forall|j: int| 0 <= j < self.twiddles@.len() ==> (#[trigger] self.twiddles@[j]).re@ == cc(2 * self.slen(), j) && self.twiddles@[j].im@ == -ss(2 * self.slen(), j)
    }
@@ fn Type2And3ConvertToFft::new
@requires
    1 <= inner_fft.flen() <= max_len(),
@panics !inner_fft.fwd()
@ensures
    inner_fft.fwd(), //#new
    r.wf(), //#new
    r.slen() == inner_fft.flen(), //#new
@loop 0
    invariant
        $hi == inner_fft.flen(), $v@.len() == $i, len == inner_fft.flen(),
        forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]).re@ == cc(2 * inner_fft.flen(), j) && $v@[j].im@ == -ss(2 * inner_fft.flen(), j),
@at loop0 begin
    proof { cc_scale2(2 * inner_fft.flen(), $i as int); }
//# filling the FFT input: cell j receives W(eo(n, j))
@def FFTIN(D; W)
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost ee = (n + 1) / 2;
@loop 0
    invariant
        $hi == ee, fft_buffer@.len() == n, buffer@ == b0, even_end == ee,
        forall|j: int| 0 <= j < $i ==> (#[trigger] fft_buffer@[j]).re@ == $W(eo(n, j)) && fft_buffer@[j].im@ == 0real,
@at loop0 begin
    proof { lem_eo_range(n, $i as int); }
@loop 1
    invariant
        $hi == n / 2, fft_buffer@.len() == n, buffer@ == b0, even_end == ee, odd_end == n - 1 - n % 2,
        forall|j: int| 0 <= j < ee + $i ==> (#[trigger] fft_buffer@[j]).re@ == $W(eo(n, j)) && fft_buffer@[j].im@ == 0real,
@at loop1 begin
    proof { lem_eo_range(n, ee + $i as int); }
@at before-call process_with_scratch
    let ghost s = fft_buffer@;
    proof { assert(forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == $W(eo(n, j)) && s[j].im@ == 0real); }
@at loop2 before
    let ghost o = fft_buffer@;
@enddef
@@ fn Type2And3ConvertToFft::process_dct2_with_scratch
@use FFTIN(dct2; x)
@loop 2
    invariant
        $hi == n, fft_buffer@ == o, buffer@.len() == n,
        forall|k: int| 0 <= k < $i ==> (#[trigger] buffer@[k])@ == dct2(x, n, k),
@at loop2 begin
    proof { let k = $i as int; lem_dct2_fft(s, x, n, k); assert(o[k].re@ == fft_re(s, n, k)); assert(o[k].im@ == fft_im(s, n, k)); }
@@ fn Type2And3ConvertToFft::process_dst2_with_scratch
@use FFTIN(dst2; alt(x))
@loop 2
    invariant
        $hi == n, fft_buffer@ == o, buffer@.len() == n,
        forall|k: int| n - $i <= k < n ==> (#[trigger] buffer@[k])@ == dst2(x, n, k),
@at loop2 begin
    proof { let k = $i as int; lem_dct2_fft(s, alt(x), n, k); lem_dst2_alt(x, n, k); assert(o[k].re@ == fft_re(s, n, k)); assert(o[k].im@ == fft_im(s, n, k)); }
//# W: the DCT3 input in terms of x; O: wanted output k
@def FFTOUT(W; O; A; B)
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost ee = (n + 1) / 2; let ghost y = $W;
@loop 0
    invariant
        $hi == n, fft_buffer@.len() == n, buffer@ == b0,
        forall|j: int| 0 <= j < $i ==> (#[trigger] fft_buffer@[j]).re@ == pre3_re(y, n)(j) && fft_buffer@[j].im@ == pre3_im(y, n)(j),
@at loop0 begin
    proof { let j = $i as int; assert(y(j) == $A); assert(y(n - j) == $B); }
@at before-call process_with_scratch
    let ghost s = fft_buffer@;
    proof { assert(forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == pre3_re(y, n)(j) && s[j].im@ == pre3_im(y, n)(j)); }
@at after-call process_with_scratch
    let ghost o = fft_buffer@;
@loop 1
    invariant
        $hi == ee, buffer@.len() == n, fft_buffer@ == o, even_end == ee,
        forall|k: int| 0 <= k < 2 * $i && k % 2 == 0 && k < n ==> (#[trigger] buffer@[k])@ == $O(x, n, k),
@at loop1 begin
    proof { let m = $i as int; lem_eo_range(n, m); lem_dct3_fft(s, y, n, m); lem_dst3_rev(x, n, eo(n, m)); assert(o[m].re@ == fft_re(s, n, m)); }
@loop 2
    invariant
        $hi == n / 2, buffer@.len() == n, fft_buffer@ == o, even_end == ee, odd_end == n - 1 - n % 2,
        forall|k: int| 0 <= k < n && k % 2 == 0 ==> (#[trigger] buffer@[k])@ == $O(x, n, k),
        forall|k: int| odd_end - 2 * $i < k < n && k % 2 == 1 ==> (#[trigger] buffer@[k])@ == $O(x, n, k),
@at loop2 begin
    proof { let m = ee + $i as int; lem_eo_range(n, m); lem_dct3_fft(s, y, n, m); lem_dst3_rev(x, n, eo(n, m)); assert(o[m].re@ == fft_re(s, n, m)); }
@enddef
@@ fn Type2And3ConvertToFft::process_dct3_with_scratch
@use FFTOUT(x; dct3; b0[j]@; b0[n - j]@)
@@ fn Type2And3ConvertToFft::process_dst3_with_scratch
@use FFTOUT(revf(x, n); dst3; b0[n - 1 - j]@; b0[j - 1]@)
