@use LEN(Mdct; 9 * self.slen() + 0x8_0000_0000_0000)
@@ trait Mdct
    spec fn win(&self) -> Seq<R>;
@@ fn Mdct::process_mdct_with_scratch
@requires
    self.wf(),
@panics !(input_a.len() == self.slen() && input_b.len() == self.slen() && output.len() == self.slen() && scratch.len() >= self.sscratch())
@ensures
    input_a.len() == self.slen() && input_b.len() == self.slen() && old(output).len() == self.slen() && old(scratch).len() >= self.sscratch(), //#size
    final(output).len() == old(output).len(), //#frame
    final(scratch).len() == old(scratch).len(), //#frame
    forall|i: int| self.sscratch() <= i < old(scratch).len() ==> #[trigger] final(scratch)@[i] == old(scratch)@[i], //#tail
    forall|k: int| 0 <= k < self.slen() ==> (#[trigger] final(output)@[k])@ == mdct(rv(self.win()), rv(input_a@), rv(input_b@), self.slen(), k), //#val
@@ fn Mdct::process_imdct_with_scratch
@requires
    self.wf(),
@panics !(input.len() == self.slen() && output_a.len() == self.slen() && output_b.len() == self.slen() && scratch.len() >= self.sscratch())
@ensures
    input.len() == self.slen() && old(output_a).len() == self.slen() && old(output_b).len() == self.slen() && old(scratch).len() >= self.sscratch(), //#size
    final(output_a).len() == old(output_a).len(), //#frame
    final(output_b).len() == old(output_b).len(), //#frame
    final(scratch).len() == old(scratch).len(), //#frame
    forall|i: int| self.sscratch() <= i < old(scratch).len() ==> #[trigger] final(scratch)@[i] == old(scratch)@[i], //#tail
    forall|i: int| 0 <= i < self.slen() ==> (#[trigger] final(output_a)@[i])@ == old(output_a)@[i]@ + imdct(rv(self.win()), rv(input@), self.slen(), i), //#val
    forall|i: int| 0 <= i < self.slen() ==> (#[trigger] final(output_b)@[i])@ == old(output_b)@[i]@ + imdct(rv(self.win()), rv(input@), self.slen(), self.slen() + i), //#val

@@ type MdctNaive
    open spec fn slen(&self) -> int { self.twiddles@.len() as int / 4 }
    open spec fn sscratch(&self) -> int { 0 }
    open spec fn win(&self) -> Seq<R> { self.window@ }
    open spec fn wf(&self) -> bool {
        &&& 2 <= self.slen() <= max_len()
        &&& self.slen() % 2 == 0
        &&& self.twiddles@.len() == 4 * self.slen()
        &&& self.window@.len() == 2 * self.slen()
        &&& forall|j: int| 0 <= j < self.twiddles@.len() ==> (#[trigger] self.twiddles@[j])@ == cc(4 * self.slen(), 2 * j + 1)
    }
@def MDCTNEW(T; n)
@@ fn $T::new
@requires
    1 <= $n <= max_len(),
    window_fn.requires(((2 * $n) as usize,)),
@panics $n % 2 != 0 || bad_window(window_fn, $n as int)
@ensures
    r.wf(), //#new
    r.slen() == $n && $n % 2 == 0, //#new
    exists|w: Vec<R>| #[trigger] window_fn.ensures(((2 * $n) as usize,), w) && r.win() == w@, //#window
@enddef
@use MDCTNEW(MdctNaive; output_len)
@at loop0 after
    proof { assert((2 * output_len) as usize == output_len * 2); }
@at after-let window
    proof { assert((2 * output_len) as usize == output_len * 2); assert(window_fn.ensures(((2 * output_len) as usize,), window)); }
@at after-let constant_factor
    proof { lem_cf2(constant_factor@, output_len as int); }
@loop 0
    invariant
        $hi == output_len * 4, constant_factor@ * (4 * (output_len as int)) as real == pi() * (2) as real, $v@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j])@ == cc(4 * (output_len as int), 2 * j + 1),
@at loop0 begin
    proof { lem_table(constant_factor@, 0.5real, $i as int, 4 * (output_len as int), 2, 1); }

@@ fn MdctNaive::process_mdct_with_scratch
@at entry
    let ghost w = rv(self.win()); let ghost n = self.slen(); let ghost xa = rv(input_a@); let ghost xb = rv(input_b@);
@loop 0
    invariant
        output@.len() == n, $hi == n, output_len == n, half_output == n / 2,
        forall|j: int| 0 <= j < $i ==> (#[trigger] output@[j])@ == mdct(w, xa, xb, n, j),
@at loop0 begin
    let ghost gk = $i as int;
    proof { assert(gk * (n + 1) <= n * (n + 1)) by(nonlinear_arith) requires 0 <= gk <= n; assert(n * (n + 1) <= 0x8000_0000 * 0x8000_0001) by(nonlinear_arith) requires 0 <= n <= 0x8000_0000; assert(0 <= gk * (n + 1)) by(nonlinear_arith) requires 0 <= gk, 0 <= n; }
@at loop1 before
    proof { walk_init_mod(n / 2 + gk * (n + 1), 2 * gk + 1, 4 * n, twiddle_index as int); }
@loop 1
    invariant
        $hi == n, at_walk(twiddle_index as int, n / 2 + gk * (n + 1), 2 * gk + 1, $i as int, 4 * n),
        $acc@ == sum($i as int, t_mdct(w, xa, xb, n, gk)),
@at loop1 begin
    proof {
        let gi = $i as int;
        lem_mdct_index(n, gk, gi);
        walk(4 * n, 2, 1, 4 * n, n / 2 + gk * (n + 1), 2 * gk + 1, gi, twiddle_index as int, (2 * gk + 1) * (2 * gi + 1 + n));
        real_comm(xa(gi), w(gi), cc(4 * n, (2 * gk + 1) * (2 * gi + 1 + n)));
        sum_step(gi, t_mdct(w, xa, xb, n, gk));
    }
@loop 2
    invariant
        $hi == n, at_walk(twiddle_index as int, n / 2 + gk * (n + 1), 2 * gk + 1, n + $i as int, 4 * n),
        $acc@ == sum(n + $i as int, t_mdct(w, xa, xb, n, gk)),
@at loop2 begin
    proof {
        let gi = n + $i as int;
        lem_mdct_index(n, gk, gi);
        walk(4 * n, 2, 1, 4 * n, n / 2 + gk * (n + 1), 2 * gk + 1, gi, twiddle_index as int, (2 * gk + 1) * (2 * gi + 1 + n));
        real_comm(xb(gi - n), w(gi), cc(4 * n, (2 * gk + 1) * (2 * gi + 1 + n)));
        sum_step(gi, t_mdct(w, xa, xb, n, gk));
    }
@@ fn MdctNaive::process_imdct_with_scratch
@at entry
    let ghost w = rv(self.win()); let ghost n = self.slen(); let ghost x = rv(input@); let ghost a0 = output_a@; let ghost b0 = output_b@;
@loop 0
    invariant
        output_a@.len() == n, output_b@ == b0, $hi == n, input_len == n, half_input == n / 2,
        forall|j: int| 0 <= j < $i ==> (#[trigger] output_a@[j])@ == a0[j]@ + imdct(w, x, n, j),
        forall|j: int| $i <= j < n ==> #[trigger] output_a@[j] == a0[j],
@at loop0 begin
    let ghost gk = $i as int;
@at loop1 before
    proof { walk_init(n / 2 + gk, n + 2 * gk + 1, 0, 4 * n, twiddle_index as int); }
@loop 1
    invariant
        $hi == n, at_walk(twiddle_index as int, n / 2 + gk, n + 2 * gk + 1, $i as int, 4 * n),
        $acc@ == sum($i as int, t_imdct(x, n, gk)),
@at loop1 begin
    proof {
        let gi = $i as int;
        assert(2 * (n / 2 + gk + (n + 2 * gk + 1) * gi) + 1 == (2 * gk + 1 + n) * (2 * gi + 1)) by(nonlinear_arith) requires 2 * (n / 2) == n;
        walk(4 * n, 2, 1, 4 * n, n / 2 + gk, n + 2 * gk + 1, gi, twiddle_index as int, (2 * gk + 1 + n) * (2 * gi + 1));
        sum_step(gi, t_imdct(x, n, gk));
    }
@at loop1 after
    proof { mul_comm(w(gk), $acc@); }
@loop 2
    invariant
        output_b@.len() == n, $hi == n, input_len == n, half_input == n / 2,
        forall|j: int| 0 <= j < $i ==> (#[trigger] output_b@[j])@ == b0[j]@ + imdct(w, x, n, n + j),
        forall|j: int| $i <= j < n ==> #[trigger] output_b@[j] == b0[j],
@at loop2 begin
    let ghost gk = $i as int;
@at loop3 before
    let ghost st = 2 * n + n / 2 - twiddle_k - 1; let ghost sd = n - 1 - 2 * twiddle_k;
    proof { walk_init(st, sd, 0, 4 * n, twiddle_index as int); }
@loop 3
    invariant
        $hi == n, at_walk(twiddle_index as int, st, sd, $i as int, 4 * n), twiddle_stride == sd,
        $acc@ == sum($i as int, t_imdct(x, n, n + gk)),
@at loop3 begin
    proof {
        let gi = $i as int;
        lem_imdct_b(n, gk, twiddle_k as int, gi);
        walk(4 * n, 2, 1, 4 * n, st, sd, gi, twiddle_index as int, 2 * (st + sd * gi) + 1);
        sum_step(gi, t_imdct(x, n, n + gk));
    }
@at loop3 after
    proof { mul_comm(w(n + gk), $acc@); }

@@ type MdctViaDct4
    open spec fn slen(&self) -> int { self.dct.slen() }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn win(&self) -> Seq<R> { self.window@ }
    open spec fn wf(&self) -> bool {
        &&& 2 <= self.slen() <= max_len()
        &&& self.slen() % 2 == 0
        &&& self.dct.wf()
        &&& 0 <= self.dct.sscratch() <= 8 * self.slen() + 0x8_0000_0000_0000
        &&& self.scratch_len == self.slen() + self.dct.sscratch()
        &&& self.window@.len() == 2 * self.slen()
    }
@@ fn MdctViaDct4::new
@requires
    inner_dct.wf(), 
    window_fn.requires(((2 * inner_dct.slen()) as usize,)),
@panics inner_dct.slen() % 2 != 0 || bad_window(window_fn, inner_dct.slen())
@ensures
    r.wf(), //#new
    r.slen() == inner_dct.slen() && inner_dct.slen() % 2 == 0, //#new
    exists|w: Vec<R>| #[trigger] window_fn.ensures(((2 * inner_dct.slen()) as usize,), w) && r.win() == w@, //#window
@at after-let len
    proof { assert((2 * inner_dct.slen()) as usize == len * 2); }
@at after-let window
    proof { assert((2 * inner_dct.slen()) as usize == len * 2); assert(window_fn.ensures(((2 * inner_dct.slen()) as usize,), window)); }
@@ fn MdctViaDct4::process_mdct_with_scratch
@at entry
    let ghost w = rv(self.win()); let ghost n = self.slen(); let ghost xa = rv(input_a@); let ghost xb = rv(input_b@);
    let ghost h = n / 2; let ghost y = fold4(w, xa, xb, n);
@loop 0
    invariant
        $hi == h, output@.len() == n, group_size == h,
        forall|j: int| 0 <= j < $i ==> (#[trigger] output@[j])@ == y(j),
@loop 1
    invariant
        $hi == h, output@.len() == n, group_size == h,
        forall|j: int| 0 <= j < h + $i ==> (#[trigger] output@[j])@ == y(j),
@at loop1 after
    let ghost o1 = rv(output@);
    proof { assert(forall|j: int| 0 <= j < n ==> #[trigger] o1(j) == y(j)); }
@at exit
    proof {
        assert forall|k: int| 0 <= k < n implies (#[trigger] output@[k])@ == mdct(w, xa, xb, n, k) by {
            lem_mdct_fold(w, xa, xb, n, k);
            lem_dct4_ext(o1, y, n, k);
        }
    }
@@ fn MdctViaDct4::process_imdct_with_scratch
@at entry
    let ghost w = rv(self.win()); let ghost n = self.slen(); let ghost x = rv(input@); let ghost a0 = output_a@; let ghost b0 = output_b@;
    let ghost h = n / 2;
@at after-let group_size
    let ghost d = dct_buffer@;
    proof { assert(input@.len() == n && forall|p: int| 0 <= p < n ==> (#[trigger] d[p])@ == dct4(x, n, p)); }
@loop 0
    invariant
        dct_buffer@ == d, $hi == h, output_a@.len() == n, output_b@ == b0,
        forall|j: int| 0 <= j < $i ==> (#[trigger] output_a@[j])@ == a0[j]@ + imdct(w, x, n, j),
        forall|j: int| $i <= j < n ==> #[trigger] output_a@[j] == a0[j],
@at loop0 begin
    proof { lem_imdct_row(w, x, n, $i as int); }
@loop 1
    invariant
        dct_buffer@ == d, $hi == h, output_a@.len() == n, output_b@ == b0,
        forall|j: int| 0 <= j < h + $i ==> (#[trigger] output_a@[j])@ == a0[j]@ + imdct(w, x, n, j),
        forall|j: int| h + $i <= j < n ==> #[trigger] output_a@[j] == a0[j],
@at loop1 begin
    proof { lem_imdct_row(w, x, n, h + $i as int); }
@loop 2
    invariant
        dct_buffer@ == d, $hi == h, output_b@.len() == n,
        forall|j: int| 0 <= j < $i ==> (#[trigger] output_b@[j])@ == b0[j]@ + imdct(w, x, n, n + j),
        forall|j: int| $i <= j < n ==> #[trigger] output_b@[j] == b0[j],
@at loop2 begin
    proof { lem_imdct_row(w, x, n, n + $i as int); }
@loop 3
    invariant
        dct_buffer@ == d, $hi == h, output_b@.len() == n,
        forall|j: int| 0 <= j < h + $i ==> (#[trigger] output_b@[j])@ == b0[j]@ + imdct(w, x, n, n + j),
        forall|j: int| h + $i <= j < n ==> #[trigger] output_b@[j] == b0[j],
@at loop3 begin
    proof { lem_imdct_row(w, x, n, n + h + $i as int); }
