@@ type Type4ConvertToFftOdd
    open spec fn slen(&self) -> int { self.len as int }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn wf(&self) -> bool {
        &&& 1 <= self.slen() <= max_len() && self.slen() % 2 == 1
        &&& self.fft.flen() == self.slen() && self.fft.fwd()
        &&& 0 <= self.fft.iscratch() <= fft_max()
        &&& self.scratch_len == 2 * (self.slen() + self.fft.iscratch())
    }
@@ fn Type4ConvertToFftOdd::new
@requires
    1 <= inner_fft.flen() <= max_len(),
@panics !(inner_fft.fwd() && inner_fft.flen() % 2 == 1)
@ensures
    inner_fft.fwd() && inner_fft.flen() % 2 == 1, //#new
    r.wf(), //#new
    r.slen() == inner_fft.flen(), //#new
//# one of the five passes that fill the FFT input: entries below t*n of the walk half, half + 4, ...
@def PASS(T; L; M)
@loop $L
    invariant
        n % 2 == 1, 1 <= n <= max_len(), n == len, buffer@ == b0, b0.len() == n, fft_buffer@.len() == n, 0 <= fft_index <= n,
        input_index + $T * n == n / 2 + 4 * fft_index, $M
        forall|j: int| 0 <= j < fft_index ==> (#[trigger] fft_buffer@[j]).re@ == xf4(y, n)(j) && fft_buffer@[j].im@ == 0real,
    decreases n - fft_index
@at loop$L begin
    proof { assert($T * n == ($T) * n); lem_xf4_at(y, n, fft_index as int, $T); }
@enddef
@def FOLD(D; Y; L1; L2; Z)
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost y = $Y;
@use PASS(0; 0; input_index < n + 4,)
@use PASS(1; 1; input_index < n + 4,)
@use PASS(2; 2; input_index < n + 4,)
@use PASS(3; 3; input_index < n + 4,)
@use PASS(4; 4; true,)
@at before-call process_with_scratch
    let ghost s = fft_buffer@;
    proof { assert(forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == xf4(y, n)(j) && s[j].im@ == 0real); }
@at after-call process_with_scratch
    let ghost o = fft_buffer@;
@at after-let result_scale
    proof { lem_scale4(result_scale@); }
@loop 5
    invariant
        $hi == n / 4, fft_buffer@ == o, buffer@.len() == n, second_half_sign@ == sn4(n), output_sign@ == sg($i as int), result_scale@ == fr2(),
        forall|p: int| 0 <= p < 2 * $i || n - 2 * $i <= p < n ==> (#[trigger] buffer@[p])@ == $D(x, n, p),
@at loop5 begin
    proof {
        let gi = $i as int; let w = output_sign@ * fr2();
        $L1(s, $Z, n, gi, w);
        let cw = o[4 * gi + 3].re@ * w; let dw = o[4 * gi + 3].im@ * w; mul_neg(o[4 * gi + 3].re@, w); mul_neg(cw + dw, sn4(n)); mul_neg(cw, w);
    }
@at loop5 after
    proof {
        let w = output_sign@ * fr2(); $L2(s, $Z, n, w);
        let z = o[0].re@; mul_neg(z, output_sign@); rassoc(z, output_sign@, fr2()); rassoc(-z, output_sign@, fr2()); mul_neg(z, w); mul_neg(z * output_sign@, fr2());
    }
@enddef
@@ fn Type4ConvertToFftOdd::process_dct4_with_scratch
@use FOLD(dct4; x; lem_t4_out; lem_t4_mid; x)
@@ fn Type4ConvertToFftOdd::process_dst4_with_scratch
@use FOLD(dst4; revf(x, n); lem_t4s_out; lem_t4s_mid; x)
