@@ type Type4ConvertToType3Even
    open spec fn slen(&self) -> int { 2 * self.twiddles@.len() as int }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn wf(&self) -> bool {
        &&& 2 <= self.slen() <= max_len()
        &&& self.inner_dct.wf() && self.inner_dct.slen() == self.slen() / 2
        &&& 0 <= self.inner_dct.sscratch() <= 2 * self.slen() + 0x4_0000_0000_0000
        &&& self.scratch_len == (if self.inner_dct.sscratch() <= self.slen() { self.slen() } else { self.slen() + self.inner_dct.sscratch() })
        &&& forall|j: int| 0 <= j < self.twiddles@.len() ==> (#[trigger] self.twiddles@[j]).re@ == cc(4 * self.slen(), 2 * j + 1) && self.twiddles@[j].im@ == ss(4 * self.slen(), 2 * j + 1)
    }
@@ fn Type4ConvertToType3Even::new
@requires
    inner_dct.wf(),
    2 * inner_dct.slen() <= max_len(),
@ensures
    r.wf(), //#new
    r.slen() == 2 * inner_dct.slen(), //#new
@loop 0
    invariant
        $hi == inner_len, len == 2 * inner_len, inner_len == inner_dct.slen(), $v@.len() == $i, 1 <= inner_len, len <= max_len(),
        forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]).re@ == cc(4 * (len as int), 2 * j + 1) && $v@[j].im@ == ss(4 * (len as int), 2 * j + 1),
@at loop0 begin
    proof { cc_scale2(4 * (len as int), 2 * $i as int + 1); assert(8 * (len as int) == 2 * (4 * (len as int))); }
@@ fn Type4ConvertToType3Even::process_dct4_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost m = n / 2;
@loop 0
    invariant
        $hi == inner_len, buffer@ == b0, output_left@.len() == m, output_right@.len() == m,
        forall|j: int| 0 <= j < $i ==> (#[trigger] output_left@[j])@ == lf(x)(j),
        forall|j: int| 0 <= j < $i - 1 ==> (#[trigger] output_right@[j])@ == rf(x, m)(j),
@at loop0 after
    let ghost l0 = output_left@; 
@at before-call process_dct3_with_scratch
    let ghost r0 = output_right@;
@at loop1 before
    let ghost l1 = output_left@; let ghost r1 = output_right@;
@loop 1
    invariant
        $hi == m, buffer@.len() == n, output_left@ == l1, output_right@ == r1,
        forall|p: int| 0 <= p < $i || n - $i <= p < n ==> (#[trigger] buffer@[p])@ == dct4(x, n, p),
@at loop1 begin
    proof {
        let gk = $i as int;
        lem_dct3_ext(rv(l0), lf(x), m, gk); lem_dct3_ext(rv(r0), rf(x, m), m, gk);
        lem_dct4_pair(x, m, gk); lem_dct4_mirror(x, n, gk);
        mul_neg(r1[gk]@, cc(8 * m, 2 * gk + 1));
    }
@@ fn Type4ConvertToType3Even::process_dst4_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost m = n / 2; let ghost y = alt(x);
@loop 0
    invariant
        $hi == inner_len, buffer@ == b0, output_left@.len() == m, output_right@.len() == m,
        forall|j: int| 0 <= j < $i - 1 ==> (#[trigger] output_left@[j])@ == negf(rf(y, m))(j),
        forall|j: int| 0 <= j < $i ==> (#[trigger] output_right@[j])@ == lf(y)(j),
@at loop0 after
    let ghost r0 = output_right@; 
@at before-call process_dst3_with_scratch
    let ghost l0 = output_left@;
@at loop1 before
    let ghost l1 = output_left@; let ghost r1 = output_right@;
@loop 1
    invariant
        $hi == m, buffer@.len() == n, output_left@ == l1, output_right@ == r1,
        forall|p: int| 0 <= p < $i || n - $i <= p < n ==> (#[trigger] buffer@[p])@ == dst4(x, n, p),
@at loop1 begin
    proof {
        let gk = $i as int;
        lem_dct3_ext(rv(l0), negf(rf(y, m)), m, gk); lem_dct3_ext(rv(r0), lf(y), m, gk);
        lem_dst3_neg(rf(y, m), m, gk);
        lem_dct4_pair(y, m, gk); lem_dct4_mirror(y, n, gk); lem_dct4_mirror(y, n, n - 1 - gk);
        lem_type4_ext(alt(y), x, n, gk); lem_alt2(x, n, gk);
        let c = cc(8 * m, 2 * gk + 1); let s = ss(8 * m, 2 * gk + 1);
        let sv = dst3(rf(y, m), m, gk); mul_neg(sv, c); mul_neg(sv, s); mul_neg(l1[gk]@, c); mul_neg(l1[gk]@, s); assert(l1[gk]@ == -sv); assert(r1[gk]@ == dct3(lf(y), m, gk));
    }
