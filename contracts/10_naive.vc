//# W: weighted input (function of x); table: entry j holds the angle a*j+b over q, period len; m: angle of the definition
@def NAIVE(key; D; W; q; a; b; len; start; stride; m; first; i0s; o; p)
@@ fn $key
@at entry
    let ghost x = rv(old(buffer)@); let ghost n = self.slen();
@at loop$o before
    let ghost s = scratch@;
    proof { assert(forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ == $W(i)); }
@loop $o
    invariant
        scratch@ == s, buffer@.len() == n, $hi == n,
        forall|j: int| 0 <= j < $i ==> (#[trigger] buffer@[j])@ == $D(x, n, j),
@at loop$o begin
    let ghost gk = $i as int;
@at loop$p before
    proof { walk_init($start, $stride, $i0s, $len, twiddle_index as int); $first }
@loop $p
    invariant
        scratch@ == s, $hi == n, at_walk(twiddle_index as int, $start, $stride, $i as int, $len),
        $acc@ == sum($i as int, t_$D(x, n, gk)),
@at loop$p begin
    proof {
        let gi = $i as int;
        assert($a * ($start + $stride * gi) + $b == $m) by(nonlinear_arith);
        walk($q, $a, $b, $len, $start, $stride, gi, twiddle_index as int, $m);
        mul_neg($W(gi), ss($q, $m));
        sum_step(gi, t_$D(x, n, gk));
    }
@enddef
@def TYPEN(T; len; off; f)
@@ type $T
    open spec fn slen(&self) -> int { $len }
    open spec fn sscratch(&self) -> int { self.slen() }
    open spec fn wf(&self) -> bool {
        &&& 1 <= self.slen() <= max_len()
        &&& self.twiddles@.len() == $off
        &&& forall|j: int| 0 <= j < self.twiddles@.len() ==> $f
    }
@enddef
@use TYPEN(Type2And3Naive; self.twiddles@.len() as int / 4; 4 * self.slen(); (#[trigger] self.twiddles@[j]).re@ == cc(2 * self.slen(), 1 * j + 0) && self.twiddles@[j].im@ == -ss(2 * self.slen(), 1 * j + 0))
@use TYPEN(Type4Naive; self.twiddles@.len() as int / 4; 4 * self.slen(); (#[trigger] self.twiddles@[j]).re@ == cc(4 * self.slen(), 2 * j + 1) && self.twiddles@[j].im@ == -ss(4 * self.slen(), 2 * j + 1))
@use TYPEN(Dct1Naive; self.twiddles@.len() as int / 2 + 1; 2 * (self.slen() - 1) && 2 <= self.slen(); (#[trigger] self.twiddles@[j])@ == cc(self.slen() - 1, 1 * j + 0))
@use TYPEN(Dst1Naive; self.twiddles@.len() as int / 2 - 1; 2 * (self.slen() + 1); (#[trigger] self.twiddles@[j])@ == ss(self.slen() + 1, 1 * j + 0))
@use TYPEN(Dct5Naive; (self.twiddles@.len() as int + 1) / 2; 2 * self.slen() - 1; (#[trigger] self.twiddles@[j])@ == cc(2 * self.slen() - 1, 2 * j + 0))
@use TYPEN(Dst5Naive; (self.twiddles@.len() as int - 1) / 2; 2 * self.slen() + 1; (#[trigger] self.twiddles@[j])@ == ss(2 * self.slen() + 1, 2 * j + 0))
@use TYPEN(Dct6And7Naive; (self.twiddles@.len() as int + 2) / 4; 4 * self.slen() - 2; (#[trigger] self.twiddles@[j])@ == cc(2 * self.slen() - 1, 1 * j + 0))
@use TYPEN(Dst6And7Naive; (self.twiddles@.len() as int - 2) / 4; 4 * self.slen() + 2; (#[trigger] self.twiddles@[j])@ == ss(2 * self.slen() + 1, 1 * j + 0))
@use TYPEN(Dct8Naive; (self.twiddles@.len() as int - 2) / 4; 4 * self.slen() + 2; (#[trigger] self.twiddles@[j])@ == cc(2 * (2 * self.slen() + 1), 2 * j + 1))
@use TYPEN(Dst8Naive; (self.twiddles@.len() as int + 2) / 4; 4 * self.slen() - 2; (#[trigger] self.twiddles@[j])@ == ss(2 * (2 * self.slen() - 1), 2 * j + 1))

@use NAIVE(Type2And3Naive::process_dct2_with_scratch; dct2; x; 2 * n; 1; 0; 4 * n; gk; (2 * gk); gk * (2 * gi + 1); ; 0; 0; 1)
@use NAIVE(Type2And3Naive::process_dst2_with_scratch; dst2; x; 2 * n; 1; 0; 4 * n; (gk + 1); (2 * (gk + 1)); (gk + 1) * (2 * gi + 1); ; 0; 0; 1)
@use NAIVE(Type2And3Naive::process_dct3_with_scratch; dct3; x; 2 * n; 1; 0; 4 * n; 0; (2 * gk + 1); (2 * gk + 1) * gi; { cc_zero(2 * n); sum_step(0, t_dct3(x, n, gk)) }; 1; 0; 1)
@use NAIVE(Type2And3Naive::process_dst3_with_scratch; dst3; hwl(x, n); 2 * n; 1; 0; 4 * n; (2 * gk + 1); (2 * gk + 1); (2 * gk + 1) * (gi + 1); ; 0; 0; 1)
//# the first output of DCT5/DCT6 is a plain sum, written by a fold before the main loop
@def FOLD(D; W; q; m0)
@at loop0 before
    let ghost s0 = scratch@;
    proof { assert(forall|i: int| 0 <= i < n ==> (#[trigger] s0[i])@ == $W(i)); }
@loop 0
    invariant
        scratch@ == s0, $hi == n, $acc@ == sum($i as int, $W),
@at loop0 begin
    proof { sum_step($i as int, $W); }
@at loop0 after
    proof {
        cc_zero($q);
        assert forall|gi: int| 0 <= gi < n implies #[trigger] $W(gi) == t_$D(x, n, 0)(gi) by { assert($m0 == 0) by(nonlinear_arith); }
        sum_ext(n, $W, t_$D(x, n, 0));
    }
@enddef
@use NAIVE(Type4Naive::process_dct4_with_scratch; dct4; x; 4 * n; 2; 1; 4 * n; gk; (2 * gk + 1); (2 * gk + 1) * (2 * gi + 1); ; 0; 0; 1)
@use NAIVE(Type4Naive::process_dst4_with_scratch; dst4; x; 4 * n; 2; 1; 4 * n; gk; (2 * gk + 1); (2 * gk + 1) * (2 * gi + 1); ; 0; 0; 1)
@use NAIVE(Dct1Naive::process_dct1_with_scratch; dct1; hw2(x, n); n - 1; 1; 0; 2 * (n - 1); 0; gk; gk * gi; { cc_zero(n - 1); sum_step(0, t_dct1(x, n, gk)) }; 1; 0; 1)
@use NAIVE(Dst1Naive::process_dst1_with_scratch; dst1; x; n + 1; 1; 0; 2 * (n + 1); (gk + 1); (gk + 1); (gk + 1) * (gi + 1); ; 0; 0; 1)
@use NAIVE(Dct5Naive::process_dct5_with_scratch; dct5; hw0(x); 2 * n - 1; 2; 0; 2 * n - 1; 0; gk; 2 * (gk * gi); { cc_zero(2 * n - 1); sum_step(0, t_dct5(x, n, gk)) }; 1; 1; 2)
@use FOLD(dct5; hw0(x); 2 * n - 1; 2 * (0 * gi))
@use NAIVE(Dst5Naive::process_dst5_with_scratch; dst5; x; 2 * n + 1; 2; 0; 2 * n + 1; (gk + 1); (gk + 1); 2 * ((gk + 1) * (gi + 1)); ; 0; 0; 1)
@use NAIVE(Dct6And7Naive::process_dct6_with_scratch; dct6; hwl(x, n); 2 * n - 1; 1; 0; 4 * n - 2; gk; (2 * gk); gk * (2 * gi + 1); ; 0; 1; 2)
@use FOLD(dct6; hwl(x, n); 2 * n - 1; 0 * (2 * gi + 1))
@use NAIVE(Dct6And7Naive::process_dct7_with_scratch; dct7; hw0(x); 2 * n - 1; 1; 0; 4 * n - 2; 0; (2 * gk + 1); (2 * gk + 1) * gi; { cc_zero(2 * n - 1); sum_step(0, t_dct7(x, n, gk)) }; 1; 0; 1)
@use NAIVE(Dst6And7Naive::process_dst6_with_scratch; dst6; x; 2 * n + 1; 1; 0; 4 * n + 2; (gk + 1); (2 * (gk + 1)); (gk + 1) * (2 * gi + 1); ; 0; 0; 1)
@use NAIVE(Dst6And7Naive::process_dst7_with_scratch; dst7; x; 2 * n + 1; 1; 0; 4 * n + 2; (2 * gk + 1); (2 * gk + 1); (2 * gk + 1) * (gi + 1); ; 0; 0; 1)
@use NAIVE(Dct8Naive::process_dct8_with_scratch; dct8; x; 2 * (2 * n + 1); 2; 1; 4 * n + 2; gk; (2 * gk + 1); (2 * gk + 1) * (2 * gi + 1); ; 0; 0; 1)
@use NAIVE(Dst8Naive::process_dst8_with_scratch; dst8; hwl(x, n); 2 * (2 * n - 1); 2; 1; 4 * n - 2; gk; (2 * gk + 1); (2 * gk + 1) * (2 * gi + 1); ; 0; 0; 1)
//# constructors
@def NEWN(T)
@@ fn $T::new
@requires
    1 <= len <= max_len(),
@ensures
    r.wf(), //#new
    r.slen() == len, //#new
@enddef
@use NEWN(Type2And3Naive)
@loop 0
    invariant
        $hi == len * 4, $v@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]).re@ == cc(2 * (len as int), 1 * j + 0) && $v@[j].im@ == -ss(2 * (len as int), 1 * j + 0),
@at loop0 begin
    proof { cc_scale2(2 * (len as int), $i as int); }
@use NEWN(Type4Naive)
@loop 0
    invariant
        $hi == len * 4, $v@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]).re@ == cc(4 * (len as int), 2 * j + 1) && $v@[j].im@ == -ss(4 * (len as int), 2 * j + 1),
//# tables of cos or sin of constant_factor * (i + off), constant_factor = pi / d: entry j has the angle a*j+b over q
@def TABLE(T; N; d; q; a; b; f; off)
@use NEWN($T)
@at after-let constant_factor
    proof { lem_cf(constant_factor@, $d, $q, $a); }
@loop 0
    invariant
        $hi == $N, constant_factor@ * ($q) as real == pi() * ($a) as real, $v@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j])@ == $f($q, $a * j + $b),
@at loop0 begin
    proof { lem_table(constant_factor@, $off, $i as int, $q, $a, $b); }
@enddef
@use TABLE(Dct1Naive; (len - 1) * 2; (len - 1) as real; len as int - 1; 1; 0; cc; 0real)
@panics len == 1
@use TABLE(Dst1Naive; (len + 1) * 2; (len + 1) as real; len as int + 1; 1; 0; ss; 0real)
@use TABLE(Dct5Naive; len * 2 - 1; len as real - 0.5real; 2 * len as int - 1; 2; 0; cc; 0real)
@use TABLE(Dst5Naive; len * 2 + 1; len as real + 0.5real; 2 * len as int + 1; 2; 0; ss; 0real)
@use TABLE(Dct6And7Naive; len * 4 - 2; (len * 2 - 1) as real; 2 * len as int - 1; 1; 0; cc; 0real)
@use TABLE(Dst6And7Naive; len * 4 + 2; (len * 2 + 1) as real; 2 * len as int + 1; 1; 0; ss; 0real)
@use TABLE(Dct8Naive; len * 4 + 2; (len * 2 + 1) as real; 2 * (2 * len as int + 1); 2; 1; cc; 0.5real)
@use TABLE(Dst8Naive; len * 4 - 2; (len * 2 - 1) as real; 2 * (2 * len as int - 1); 2; 1; ss; 0.5real)
