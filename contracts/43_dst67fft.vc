@@ type Dst6And7ConvertToFft
    open spec fn slen(&self) -> int { self.len as int }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn wf(&self) -> bool {
        &&& 1 <= self.slen() <= max_len()
        &&& self.inner_fft_len == 2 * self.slen() + 1
        &&& self.fft.flen() == self.inner_fft_len && self.fft.fwd()
        &&& 0 <= self.fft.iscratch() <= fft_max()
        &&& self.scratch_len == 2 * (self.inner_fft_len + self.fft.iscratch())
    }
@@ fn Dst6And7ConvertToFft::new
@requires
    3 <= inner_fft.flen() <= 2 * max_len() + 1,
@panics !(inner_fft.flen() % 2 == 1 && inner_fft.fwd())
@ensures
    inner_fft.flen() % 2 == 1 && inner_fft.fwd(), //#new
    r.wf(), //#new
    r.slen() == (inner_fft.flen() - 1) / 2, //#new
@@ fn Dst6And7ConvertToFft::process_dst6_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost N = 2 * n + 1; let ghost E = (n + 1) / 2; let ghost O = n / 2;
@loop 0
    invariant
        $hi == N, fft_buffer@.len() == N, buffer@ == b0,
        forall|j: int| 0 <= j < $i ==> (#[trigger] fft_buffer@[j]).re@ == 0real && fft_buffer@[j].im@ == 0real,
@loop 1
    invariant
        $hi == n, fft_buffer@.len() == N, buffer@ == b0,
        forall|j: int| 0 <= j < N ==> (#[trigger] fft_buffer@[j]).re@ == 0real && fft_buffer@[j].im@ == (if j < 2 * $i { im6(x)(j) } else { 0real }),
@at before-call process_with_scratch
    let ghost s = fft_buffer@;
    proof { assert(forall|j: int| 0 <= j < N ==> (#[trigger] s[j]).re@ == 0real && s[j].im@ == im6(x)(j)); }
@at after-call process_with_scratch
    let ghost o = fft_buffer@;
@loop 2
    invariant
        $hi == O, fft_buffer@ == o, buffer@.len() == n,
        forall|k: int| 0 <= k < 2 * $i && k % 2 == 1 ==> (#[trigger] buffer@[k])@ == dst6(x, n, k),
@at loop2 begin
    proof { let m = $i as int + 1; lem_dst6_fft(s, x, n, m); assert(o[m].re@ == fft_re(s, N, m)); }
@loop 3
    invariant
        $hi == E, fft_buffer@ == o, buffer@.len() == n, even_count == E, odd_count == O,
        forall|k: int| 0 <= k < n && k % 2 == 1 ==> (#[trigger] buffer@[k])@ == dst6(x, n, k),
        forall|k: int| 2 * (E - $i) <= k < n && k % 2 == 0 ==> (#[trigger] buffer@[k])@ == dst6(x, n, k),
@at loop3 begin
    proof { let m = $i as int + O + 1; lem_dst6_fft(s, x, n, m); assert(o[m].re@ == fft_re(s, N, m)); assert(n - m == E - $i as int - 1); }
@@ fn Dst6And7ConvertToFft::process_dst7_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost N = 2 * n + 1; let ghost E = (n + 1) / 2; let ghost O = n / 2; let ghost u = ext7(x, n);
@loop 0
    invariant
        $hi == E, fft_buffer@.len() == N, buffer@ == b0,
        fft_buffer@[0].re@ == 0real && fft_buffer@[0].im@ == 0real,
        forall|j: int| n + 1 <= j < n + 1 + $i ==> (#[trigger] fft_buffer@[j]).re@ == u(j) && fft_buffer@[j].im@ == 0real,
@loop 1
    invariant
        $hi == O, fft_buffer@.len() == N, buffer@ == b0, even_count == E, odd_count == O,
        fft_buffer@[0].re@ == 0real && fft_buffer@[0].im@ == 0real,
        forall|j: int| n + 1 <= j < n + 1 + E + $i ==> (#[trigger] fft_buffer@[j]).re@ == u(j) && fft_buffer@[j].im@ == 0real,
@loop 2
    invariant
        $hi == n, fft_buffer@.len() == N, buffer@ == b0,
        forall|j: int| 0 <= j < $i + 1 ==> (#[trigger] fft_buffer@[j]).re@ == u(j) && fft_buffer@[j].im@ == 0real,
        forall|j: int| n + 1 <= j < N ==> (#[trigger] fft_buffer@[j]).re@ == u(j) && fft_buffer@[j].im@ == 0real,
@at before-call process_with_scratch
    let ghost s = fft_buffer@;
    proof { assert(forall|j: int| 0 <= j < N ==> (#[trigger] s[j]).re@ == u(j) && s[j].im@ == 0real); }
@at after-call process_with_scratch
    let ghost o = fft_buffer@;
@loop 3
    invariant
        $hi == n, fft_buffer@ == o, buffer@.len() == n,
        forall|k: int| 0 <= k < $i ==> (#[trigger] buffer@[k])@ == dst7(x, n, k),
@at loop3 begin
    proof { let k = $i as int; lem_dst7_fft(s, x, n, k); assert(o[2 * k + 1].im@ == fft_im(s, N, 2 * k + 1)); }
