//# inherent kernels: the caller guarantees the length, the result is the transform of the whole slice
@def BF(D)
@requires
    self.wf(), buffer@.len() == self.slen(),
@ensures
    final(buffer)@.len() == old(buffer)@.len(), //#frame
    forall|k: int| 0 <= k < self.slen() ==> (#[trigger] final(buffer)@[k])@ == $D(rv(old(buffer)@), self.slen(), k), //#val
@at entry
    let ghost b0 = buffer@; let ghost x = rv(b0); let ghost n = self.slen();
@enddef
@def BFALL(S)
@@ fn $S::process_inplace_dct2
@use BF(dct2)
@@ fn $S::process_inplace_dct3
@use BF(dct3)
@@ fn $S::process_inplace_dst2
@use BF(dst2)
@@ fn $S::process_inplace_dst3
@use BF(dst3)
@enddef
@@ type Type2And3Butterfly2
    open spec fn slen(&self) -> int { 2 }
    open spec fn sscratch(&self) -> int { 0 }
    open spec fn wf(&self) -> bool { true }
@@ type Type2And3Butterfly3
    open spec fn slen(&self) -> int { 3 }
    open spec fn sscratch(&self) -> int { 0 }
    open spec fn wf(&self) -> bool { self.twiddle@ == cc(6, 1) }
@@ type Type2And3Butterfly4
    open spec fn slen(&self) -> int { 4 }
    open spec fn sscratch(&self) -> int { 0 }
    open spec fn wf(&self) -> bool { self.twiddle.re@ == cc(8, 1) && self.twiddle.im@ == ss(8, 1) }
@@ type Type2And3Butterfly8
    open spec fn slen(&self) -> int { 8 }
    open spec fn sscratch(&self) -> int { 0 }
    open spec fn wf(&self) -> bool {
        &&& self.butterfly4.wf() && self.butterfly2.wf()
        &&& forall|j: int| 0 <= j < 2 ==> (#[trigger] self.twiddles@[j]).re@ == cc(16, 2 * j + 1) && self.twiddles@[j].im@ == ss(16, 2 * j + 1)
    }
@@ type Type2And3Butterfly16
    open spec fn slen(&self) -> int { 16 }
    open spec fn sscratch(&self) -> int { 0 }
    open spec fn wf(&self) -> bool {
        &&& self.butterfly8.wf() && self.butterfly4.wf()
        &&& forall|j: int| 0 <= j < 4 ==> (#[trigger] self.twiddles@[j]).re@ == cc(32, 2 * j + 1) && self.twiddles@[j].im@ == ss(32, 2 * j + 1)
    }
@@ fn Type2And3Butterfly2::new
@ensures
    r.wf(), //#new
@@ fn Type2And3Butterfly3::new
@ensures
    r.wf(), //#new
@at entry
    proof { cc_scale2(6, 1); }
@@ fn Type2And3Butterfly4::new
@ensures
    r.wf(), //#new
@at entry
    proof { cc_scale2(8, 1); }
@@ fn Type2And3Butterfly8::new
@ensures
    r.wf(), //#new
@at entry
    proof { cc_scale2(16, 1); cc_scale2(16, 3); }
@@ fn Type2And3Butterfly16::new
@ensures
    r.wf(), //#new
@at entry
    proof { cc_scale2(32, 1); cc_scale2(32, 3); cc_scale2(32, 5); cc_scale2(32, 7); }
//# size 2 and 3: direct
@def SMALL(S; L)
@@ fn $S::process_inplace_dct2
@use BF(dct2)
@at exit
    proof { $L(x); }
@@ fn $S::process_inplace_dct3
@use BF(dct3)
@at exit
    proof { $L(x); }
@@ fn $S::process_inplace_dst2
@use BF(dst2)
@at exit
    proof { $L(x); }
@@ fn $S::process_inplace_dst3
@use BF(dst3)
@at exit
    proof { $L(x); }
@enddef
@use SMALL(Type2And3Butterfly2; lem_b2)
@use SMALL(Type2And3Butterfly3; lem_b3)
@def B2T(D)
@@ fn Type2And3Butterfly2::process_$D_with_scratch
@at entry
    let ghost x = rv(buffer@);
@at exit
    proof { lem_b2(x); }
@enddef
@use B2T(dct2)
@use B2T(dct3)
@use B2T(dst2)
@use B2T(dst3)
@def SCAT(D; A; B)
@@ fn Type2And3Butterfly2::process_scattered_$D
@requires
    zero < buffer@.len(), one < buffer@.len(), zero != one,
@ensures
    final(buffer)@.len() == old(buffer)@.len(),
    forall|k: int| 0 <= k < old(buffer)@.len() && k != zero && k != one ==> #[trigger] final(buffer)@[k] == old(buffer)@[k],
    ({ let a = old(buffer)@[zero as int]@; let b = old(buffer)@[one as int]@;
        final(buffer)@[zero as int]@ == $A && final(buffer)@[one as int]@ == $B }), //#val
@enddef
@use SCAT(dct2; a + b; (a - b) * fr2())
@use SCAT(dct3; a / 2real + b * fr2(); a / 2real - b * fr2())
@use SMALL(Type2And3Butterfly4; lem_b4)
//# sizes 8 and 16: one split step on top of the smaller kernels; Y is the sequence whose DCT2 is taken
@def KER2(S; D; q; Y; X)
@@ fn $S::process_inplace_$D
@use BF($D)
@at before-call process_inplace_dct2
    let ghost s0 = dct2_buffer@; let ghost y = $Y; let ghost q: int = $q; let ghost d = fold_dif(y, 4 * q);
    proof { assert(forall|i: int| 0 <= i < 2 * q ==> #[trigger] rv(s0)(i) == fold_sum(y, 4 * q)(i)); }
@at after-call process_inplace_dct2
    let ghost t0 = dct2_buffer@;
    proof { assert forall|k: int| 0 <= k < 2 * q implies (#[trigger] t0[k])@ == dct2(fold_sum(y, 4 * q), 2 * q, k) by { lem_dct2_ext(rv(s0), fold_sum(y, 4 * q), 2 * q, k); } }
@at before-call process_inplace_dct2#2
    let ghost s1 = dct4_even_buffer@; let ghost s2 = dct4_odd_buffer@;
    proof { assert(forall|i: int| 0 <= i < q ==> #[trigger] rv(s1)(i) == ci(d, q)(i)); assert(forall|i: int| 0 <= i < q ==> #[trigger] rv(s2)(i) == sir(d, q)(i)); }
@at after-call process_inplace_dst2
    let ghost t1 = dct4_even_buffer@; let ghost t2 = dct4_odd_buffer@;
    proof {
        assert forall|k: int| 0 <= k < q implies (#[trigger] t1[k])@ == dct2(ci(d, q), q, k) by { lem_dct2_ext(rv(s1), ci(d, q), q, k); }
        assert forall|k: int| 0 <= k < q implies (#[trigger] t2[k])@ == dst2(sir(d, q), q, k) by { lem_dct2_ext(rv(s2), sir(d, q), q, k); }
        lem_split2s(y, q, 0); lem_split2s(y, q, 1); lem_split2s(y, q, 2); lem_split2s(y, q, 3);
        lem_split2s_ends(y, q);
    }
@at exit
    proof { $X }
@enddef
@use KER2(Type2And3Butterfly8; dct2; 2; x; { assert(buffer@[0]@ == dct2(x, 8, 0)); assert(buffer@[1]@ == dct2(x, 8, 1)); assert(buffer@[2]@ == dct2(x, 8, 2)); assert(buffer@[3]@ == dct2(x, 8, 3)); assert(buffer@[4]@ == dct2(x, 8, 4)); assert(buffer@[5]@ == dct2(x, 8, 5)); assert(buffer@[6]@ == dct2(x, 8, 6)); assert(buffer@[7]@ == dct2(x, 8, 7)); })
@use KER2(Type2And3Butterfly8; dst2; 2; alt(x); { lem_dst2_alt(x, 8, 0); lem_dst2_alt(x, 8, 1); lem_dst2_alt(x, 8, 2); lem_dst2_alt(x, 8, 3); lem_dst2_alt(x, 8, 4); lem_dst2_alt(x, 8, 5); lem_dst2_alt(x, 8, 6); lem_dst2_alt(x, 8, 7); assert(buffer@[0]@ == dst2(x, 8, 0)); assert(buffer@[1]@ == dst2(x, 8, 1)); assert(buffer@[2]@ == dst2(x, 8, 2)); assert(buffer@[3]@ == dst2(x, 8, 3)); assert(buffer@[4]@ == dst2(x, 8, 4)); assert(buffer@[5]@ == dst2(x, 8, 5)); assert(buffer@[6]@ == dst2(x, 8, 6)); assert(buffer@[7]@ == dst2(x, 8, 7)); })
@use KER2(Type2And3Butterfly16; dct2; 4; x; { assert(buffer@[0]@ == dct2(x, 16, 0)); assert(buffer@[1]@ == dct2(x, 16, 1)); assert(buffer@[2]@ == dct2(x, 16, 2)); assert(buffer@[3]@ == dct2(x, 16, 3)); assert(buffer@[4]@ == dct2(x, 16, 4)); assert(buffer@[5]@ == dct2(x, 16, 5)); assert(buffer@[6]@ == dct2(x, 16, 6)); assert(buffer@[7]@ == dct2(x, 16, 7)); assert(buffer@[8]@ == dct2(x, 16, 8)); assert(buffer@[9]@ == dct2(x, 16, 9)); assert(buffer@[10]@ == dct2(x, 16, 10)); assert(buffer@[11]@ == dct2(x, 16, 11)); assert(buffer@[12]@ == dct2(x, 16, 12)); assert(buffer@[13]@ == dct2(x, 16, 13)); assert(buffer@[14]@ == dct2(x, 16, 14)); assert(buffer@[15]@ == dct2(x, 16, 15)); })
@use KER2(Type2And3Butterfly16; dst2; 4; alt(x); { lem_dst2_alt(x, 16, 0); lem_dst2_alt(x, 16, 1); lem_dst2_alt(x, 16, 2); lem_dst2_alt(x, 16, 3); lem_dst2_alt(x, 16, 4); lem_dst2_alt(x, 16, 5); lem_dst2_alt(x, 16, 6); lem_dst2_alt(x, 16, 7); lem_dst2_alt(x, 16, 8); lem_dst2_alt(x, 16, 9); lem_dst2_alt(x, 16, 10); lem_dst2_alt(x, 16, 11); lem_dst2_alt(x, 16, 12); lem_dst2_alt(x, 16, 13); lem_dst2_alt(x, 16, 14); lem_dst2_alt(x, 16, 15); assert(buffer@[0]@ == dst2(x, 16, 0)); assert(buffer@[1]@ == dst2(x, 16, 1)); assert(buffer@[2]@ == dst2(x, 16, 2)); assert(buffer@[3]@ == dst2(x, 16, 3)); assert(buffer@[4]@ == dst2(x, 16, 4)); assert(buffer@[5]@ == dst2(x, 16, 5)); assert(buffer@[6]@ == dst2(x, 16, 6)); assert(buffer@[7]@ == dst2(x, 16, 7)); assert(buffer@[8]@ == dst2(x, 16, 8)); assert(buffer@[9]@ == dst2(x, 16, 9)); assert(buffer@[10]@ == dst2(x, 16, 10)); assert(buffer@[11]@ == dst2(x, 16, 11)); assert(buffer@[12]@ == dst2(x, 16, 12)); assert(buffer@[13]@ == dst2(x, 16, 13)); assert(buffer@[14]@ == dst2(x, 16, 14)); assert(buffer@[15]@ == dst2(x, 16, 15)); })
//# DCT3 of Y by one split step
@def KER3(S; D; q; Y)
@@ fn $S::process_inplace_$D
@use BF($D)
@at before-call process_inplace_dct3
    let ghost s0 = dct3_buffer@; let ghost y = $Y; let ghost q: int = $q; let ghost o = odf(y);
    proof { assert(forall|i: int| 0 <= i < 2 * q ==> #[trigger] rv(s0)(i) == evf(y)(i)); }
@at after-call process_inplace_dct3
    let ghost t0 = dct3_buffer@;
    proof { assert forall|k: int| 0 <= k < 2 * q implies (#[trigger] t0[k])@ == dct3(evf(y), 2 * q, k) by { lem_dct3_ext(rv(s0), evf(y), 2 * q, k); } }
@at before-call process_inplace_dct3#2
    let ghost s1 = recursive_buffer_n1@; let ghost s2 = recursive_buffer_n3@;
    proof { assert(forall|i: int| 0 <= i < q ==> #[trigger] rv(s1)(i) == lf(o)(i)); assert(forall|i: int| 0 <= i < q ==> #[trigger] rv(s2)(i) == rf(o, q)(i)); }
@at after-call process_inplace_dst3
    let ghost t1 = recursive_buffer_n1@; let ghost t2 = recursive_buffer_n3@;
    proof {
        assert forall|k: int| 0 <= k < q implies (#[trigger] t1[k])@ == dct3(lf(o), q, k) by { lem_dct3_ext(rv(s1), lf(o), q, k); }
        assert forall|k: int| 0 <= k < q implies (#[trigger] t2[k])@ == dst3(rf(o, q), q, k) by { lem_dct3_ext(rv(s2), rf(o, q), q, k); }
    }
@enddef
@def KER3L(q)
@loop 0
    invariant
        $hi == $q, q == $q, buffer@.len() == 4 * q, dct3_buffer@ == t0, recursive_buffer_n1@ == t1, recursive_buffer_n3@ == t2,
        forall|p: int| 0 <= p < $i || 2 * q - $i <= p < 2 * q + $i || 4 * q - $i <= p < 4 * q ==> (#[trigger] buffer@[p])@ == dct3(x, 4 * q, p),
@at loop0 begin
    proof { lem_split3(x, q, $i as int); }
@enddef
@use KER3(Type2And3Butterfly8; dct3; 2; x)
@use KER3L(2)
@use KER3(Type2And3Butterfly16; dct3; 4; x)
@use KER3L(4)
@use KER3(Type2And3Butterfly8; dst3; 2; revf(x, 8))
@at exit
    proof {
        lem_split3(y, q, 0); lem_split3(y, q, 1);
        lem_dst3_rev(x, 8, 0); lem_dst3_rev(x, 8, 1); lem_dst3_rev(x, 8, 2); lem_dst3_rev(x, 8, 3); lem_dst3_rev(x, 8, 4); lem_dst3_rev(x, 8, 5); lem_dst3_rev(x, 8, 6); lem_dst3_rev(x, 8, 7);
        assert(buffer@[0]@ == dst3(x, 8, 0)); assert(buffer@[1]@ == dst3(x, 8, 1)); assert(buffer@[2]@ == dst3(x, 8, 2)); assert(buffer@[3]@ == dst3(x, 8, 3)); assert(buffer@[4]@ == dst3(x, 8, 4)); assert(buffer@[5]@ == dst3(x, 8, 5)); assert(buffer@[6]@ == dst3(x, 8, 6)); assert(buffer@[7]@ == dst3(x, 8, 7));
    }
@use KER3(Type2And3Butterfly16; dst3; 4; revf(x, 16))
@at exit
    proof {
        lem_split3(y, q, 0); lem_split3(y, q, 1); lem_split3(y, q, 2); lem_split3(y, q, 3);
        lem_dst3_rev(x, 16, 0); lem_dst3_rev(x, 16, 1); lem_dst3_rev(x, 16, 2); lem_dst3_rev(x, 16, 3); lem_dst3_rev(x, 16, 4); lem_dst3_rev(x, 16, 5); lem_dst3_rev(x, 16, 6); lem_dst3_rev(x, 16, 7); lem_dst3_rev(x, 16, 8); lem_dst3_rev(x, 16, 9); lem_dst3_rev(x, 16, 10); lem_dst3_rev(x, 16, 11); lem_dst3_rev(x, 16, 12); lem_dst3_rev(x, 16, 13); lem_dst3_rev(x, 16, 14); lem_dst3_rev(x, 16, 15);
        assert(buffer@[0]@ == dst3(x, 16, 0)); assert(buffer@[1]@ == dst3(x, 16, 1)); assert(buffer@[2]@ == dst3(x, 16, 2)); assert(buffer@[3]@ == dst3(x, 16, 3)); assert(buffer@[4]@ == dst3(x, 16, 4)); assert(buffer@[5]@ == dst3(x, 16, 5)); assert(buffer@[6]@ == dst3(x, 16, 6)); assert(buffer@[7]@ == dst3(x, 16, 7)); assert(buffer@[8]@ == dst3(x, 16, 8)); assert(buffer@[9]@ == dst3(x, 16, 9)); assert(buffer@[10]@ == dst3(x, 16, 10)); assert(buffer@[11]@ == dst3(x, 16, 11)); assert(buffer@[12]@ == dst3(x, 16, 12)); assert(buffer@[13]@ == dst3(x, 16, 13)); assert(buffer@[14]@ == dst3(x, 16, 14)); assert(buffer@[15]@ == dst3(x, 16, 15));
    }
