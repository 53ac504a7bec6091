@@ type Type2And3SplitRadix
    open spec fn slen(&self) -> int { 4 * self.twiddles@.len() as int }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn wf(&self) -> bool {
        &&& 4 <= self.slen() <= max_len()
        &&& self.half_dct.wf() && self.half_dct.slen() == self.slen() / 2
        &&& self.quarter_dct.wf() && self.quarter_dct.slen() == self.slen() / 4
        &&& 0 <= self.half_dct.sscratch() <= 2 * self.slen() + 0x4_0000_0000_0000
        &&& 0 <= self.quarter_dct.sscratch() <= self.slen() + 0x4_0000_0000_0000
        &&& self.scratch_len == (if self.half_dct.sscratch() <= self.slen() && self.quarter_dct.sscratch() <= self.slen() { self.slen() }
            else if self.half_dct.sscratch() >= self.quarter_dct.sscratch() { self.slen() + self.half_dct.sscratch() } else { self.slen() + self.quarter_dct.sscratch() })
        &&& forall|j: int| 0 <= j < self.twiddles@.len() ==> (#[trigger] self.twiddles@[j]).re@ == cc(2 * self.slen(), 2 * j + 1) && self.twiddles@[j].im@ == ss(2 * self.slen(), 2 * j + 1)
    }
@@ fn Type2And3SplitRadix::new
@requires
    half_dct.wf(), quarter_dct.wf(),
    2 * half_dct.slen() <= max_len(), 2 * quarter_dct.slen() <= max_len(),
@panics !(is_pow2(2 * half_dct.slen()) && 2 * half_dct.slen() > 2 && half_dct.slen() == 2 * quarter_dct.slen())
@ensures
    is_pow2(2 * half_dct.slen()) && 2 * half_dct.slen() > 2 && half_dct.slen() == 2 * quarter_dct.slen(), //#new
    r.wf(), //#new
    r.slen() == 2 * half_dct.slen(), //#new
@loop 0
    invariant
        $hi == len / 4, len == 2 * half_dct.slen(), $v@.len() == $i, 4 <= len <= max_len(),
        forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]).re@ == cc(2 * (len as int), 2 * j + 1) && $v@[j].im@ == ss(2 * (len as int), 2 * j + 1),
@at loop0 begin
    proof { cc_scale2(2 * (len as int), 2 * $i as int + 1); assert(4 * (len as int) == 2 * (2 * (len as int))); }
@@ fn Type2And3SplitRadix::process_dct2_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost q = n / 4; let ghost d = fold_dif(x, n);
@loop 0
    invariant
        $hi == q, buffer@ == b0, input_dct2@.len() == 2 * q, input_dct4_even@.len() == q, input_dct4_odd@.len() == q,
        forall|j: int| 0 <= j < $i || 2 * q - $i <= j < 2 * q ==> (#[trigger] input_dct2@[j])@ == fold_sum(x, n)(j),
        forall|j: int| 0 <= j < $i ==> (#[trigger] input_dct4_even@[j])@ == ci(d, q)(j),
        forall|j: int| q - $i <= j < q ==> (#[trigger] input_dct4_odd@[j])@ == sr_odd(d, q)(j),
@at before-call process_dct2_with_scratch
    let ghost s0 = input_dct2@; let ghost s1 = input_dct4_even@; let ghost s2 = input_dct4_odd@;
@at after-call process_dct2_with_scratch#3
    let ghost t0 = input_dct2@; let ghost t1 = input_dct4_even@; let ghost t2 = input_dct4_odd@;
    proof {
        assert forall|k: int| 0 <= k < 2 * q implies (#[trigger] t0[k])@ == dct2(fold_sum(x, n), 2 * q, k) by { lem_dct2_ext(rv(s0), fold_sum(x, n), 2 * q, k); }
        assert forall|k: int| 0 <= k < q implies (#[trigger] t1[k])@ == dct2(ci(d, q), q, k) by { lem_dct2_ext(rv(s1), ci(d, q), q, k); }
        assert forall|k: int| 0 <= k < q implies (#[trigger] t2[k])@ == dct2(sr_odd(d, q), q, k) by { lem_dct2_ext(rv(s2), sr_odd(d, q), q, k); }
        lem_split2(x, q, 0); lem_split2_ends(x, q);
    }
@loop 1
    invariant
        $hi == q, 1 <= $i, buffer@.len() == n, input_dct2@ == t0, input_dct4_even@ == t1, input_dct4_odd@ == t2,
        forall|k: int| 0 <= k < 4 * $i - 1 ==> (#[trigger] buffer@[k])@ == dct2(x, n, k),
@at loop1 begin
    proof { lem_split2(x, q, $i as int); }
@@ fn Type2And3SplitRadix::process_dct3_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost q = n / 4; let ghost y = odf(x); let ghost rr = revf(rf(y, q), q);
@loop 0
    invariant
        $hi == q, 1 <= $i, buffer@ == b0, recursive_input_evens@.len() == 2 * q, recursive_input_n1@.len() == q, recursive_input_n3@.len() == q,
        forall|j: int| 0 <= j < 2 * $i ==> (#[trigger] recursive_input_evens@[j])@ == evf(x)(j),
        forall|j: int| 0 <= j < $i ==> (#[trigger] recursive_input_n1@[j])@ == lf(y)(j),
        recursive_input_n3@[0]@ == rr(0),
        forall|j: int| q - $i < j < q ==> (#[trigger] recursive_input_n3@[j])@ == rr(j),
@at before-call process_dct3_with_scratch
    let ghost s0 = recursive_input_evens@; let ghost s1 = recursive_input_n1@; let ghost s2 = recursive_input_n3@;
@at loop1 before
    let ghost t0 = recursive_input_evens@; let ghost t1 = recursive_input_n1@; let ghost t2 = recursive_input_n3@;
    proof {
        assert forall|k: int| 0 <= k < 2 * q implies (#[trigger] t0[k])@ == dct3(evf(x), 2 * q, k) by { lem_dct3_ext(rv(s0), evf(x), 2 * q, k); }
        assert forall|k: int| 0 <= k < q implies (#[trigger] t1[k])@ == dct3(lf(y), q, k) by { lem_dct3_ext(rv(s1), lf(y), q, k); }
        assert forall|k: int| 0 <= k < q implies (#[trigger] t2[k])@ == dct3(rr, q, k) by { lem_dct3_ext(rv(s2), rr, q, k); }
    }
@loop 1
    invariant
        $hi == q, buffer@.len() == n, recursive_input_evens@ == t0, recursive_input_n1@ == t1, recursive_input_n3@ == t2,
        forall|p: int| 0 <= p < $i || 2 * q - $i <= p < 2 * q + $i || n - $i <= p < n ==> (#[trigger] buffer@[p])@ == dct3(x, n, p),
@at loop1 begin
    proof {
        let gk = $i as int;
        lem_dct3_split(x, 2 * q, gk); lem_dct3_split(x, 2 * q, 2 * q - 1 - gk);
        lem_dst3_rev(rf(y, q), q, gk);
        lem_dct4_pair(y, q, gk); lem_dct4_mirror(y, 2 * q, gk);
        mul_neg(dst3(rf(y, q), q, gk), cc(8 * q, 2 * gk + 1));
    }
//# DST2/DST3: sign flips and reversal around DCT2/DCT3
@@ fn Type2And3SplitRadix::process_dst2_with_scratch
@guard buffer
@panics !(buffer.len() == self.slen() && scratch.len() >= self.sscratch())
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0);
@loop 0
    invariant
        buffer@.len() == b0.len(),
        forall|j: int| 0 <= j < buffer@.len() ==> (#[trigger] buffer@[j])@ == (if j % 2 == 1 && j < 2 * $i { -x(j) } else { x(j) }),
@at before-call process_dct2_with_scratch
    let ghost b1 = buffer@;
@at exit
    proof { assert forall|k: int| 0 <= k < n implies (#[trigger] buffer@[k])@ == dst2(x, n, k) by {
        lem_dst2_alt(x, n, n - 1 - k); lem_dct2_ext(rv(b1), alt(x), n, n - 1 - k); } }
@@ fn Type2And3SplitRadix::process_dst3_with_scratch
@guard buffer
@panics !(buffer.len() == self.slen() && scratch.len() >= self.sscratch())
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0);
@at before-call process_dct3_with_scratch
    let ghost b1 = buffer@;
@at after-call process_dct3_with_scratch
    let ghost b2 = buffer@;
    proof { assert forall|k: int| 0 <= k < n implies (#[trigger] b2[k])@ == sgn(k, dst3(x, n, k)) by {
        lem_dst3_rev(x, n, k); lem_dct3_ext(rv(b1), revf(x, n), n, k); } }
@loop 0
    invariant
        buffer@.len() == n, b2.len() == n,
        forall|j: int| 0 <= j < n ==> (#[trigger] buffer@[j])@ == (if j % 2 == 1 && j < 2 * $i { -b2[j]@ } else { b2[j]@ }),
