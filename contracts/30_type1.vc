@@ type Dct1ConvertToFft
    open spec fn slen(&self) -> int { self.len as int }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn wf(&self) -> bool {
        &&& 2 <= self.slen() <= max_len()
        &&& self.inner_fft_len == 2 * (self.slen() - 1)
        &&& self.fft.flen() == self.inner_fft_len && self.fft.fwd()
        &&& 0 <= self.fft.iscratch() <= fft_max()
        &&& self.scratch_len == 2 * (self.inner_fft_len + self.fft.iscratch())
    }
@@ type Dst1ConvertToFft
    open spec fn slen(&self) -> int { self.len as int }
    open spec fn sscratch(&self) -> int { self.scratch_len as int }
    open spec fn wf(&self) -> bool {
        &&& 1 <= self.slen() <= max_len()
        &&& self.inner_fft_len == 2 * (self.slen() + 1)
        &&& self.fft.flen() == self.inner_fft_len && self.fft.fwd()
        &&& 0 <= self.fft.iscratch() <= fft_max()
        &&& self.scratch_len == 2 * (self.inner_fft_len + self.fft.iscratch())
    }
@@ fn Dct1ConvertToFft::new
@requires
    2 <= inner_fft.flen() <= 2 * (max_len() - 1),
@panics !(inner_fft.flen() % 2 == 0 && inner_fft.fwd())
@ensures
    inner_fft.flen() % 2 == 0 && inner_fft.fwd(), //#new
    r.wf(), //#new
    r.slen() == inner_fft.flen() / 2 + 1, //#new
@@ fn Dst1ConvertToFft::new
@requires
    4 <= inner_fft.flen() <= 2 * (max_len() + 1),
@panics !(inner_fft.flen() % 2 == 0 && inner_fft.fwd())
@ensures
    inner_fft.flen() % 2 == 0 && inner_fft.fwd(), //#new
    r.wf(), //#new
    r.slen() == inner_fft.flen() / 2 - 1, //#new
@@ fn Dct1ConvertToFft::process_dct1_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost N = 2 * (n - 1);
@loop 0
    invariant
        $hi == n, fft_buffer@.len() == N, buffer@ == b0,
        forall|j: int| 0 <= j < $i ==> (#[trigger] fft_buffer@[j]).re@ == ext1(x, n)(j) && fft_buffer@[j].im@ == 0real,
@loop 1
    invariant
        $hi == n - 2, fft_buffer@.len() == N, buffer@ == b0,
        forall|j: int| 0 <= j < n + $i && j < N ==> (#[trigger] fft_buffer@[j]).re@ == ext1(x, n)(j) && fft_buffer@[j].im@ == 0real,
@at before-call process_with_scratch
    let ghost s = fft_buffer@;
    proof { assert(forall|j: int| 0 <= j < N ==> (#[trigger] s[j]).re@ == ext1(x, n)(j) && s[j].im@ == 0real); }
@at loop2 before
    let ghost o = fft_buffer@;
@loop 2
    invariant
        $hi == n, fft_buffer@ == o, buffer@.len() == n,
        forall|k: int| 0 <= k < $i ==> (#[trigger] buffer@[k])@ == dct1(x, n, k),
@at loop2 begin
    proof { lem_dct1_fft(s, x, n, $i as int); assert(o[$i as int].re@ == fft_re(s, N, $i as int)); }
@@ fn Dst1ConvertToFft::process_dst1_with_scratch
@at entry
    let ghost n = self.slen(); let ghost b0 = buffer@; let ghost x = rv(b0); let ghost N = 2 * (n + 1);
@loop 0
    invariant
        $hi == n, fft_buffer@.len() == N, buffer@ == b0,
        forall|j: int| 0 <= j < 1 + $i ==> (#[trigger] fft_buffer@[j]).re@ == exts1(x, n)(j) && fft_buffer@[j].im@ == 0real,
@loop 1
    invariant
        $hi == n, fft_buffer@.len() == N, buffer@ == b0,
        forall|j: int| 0 <= j < n + 2 ==> (#[trigger] fft_buffer@[j]).re@ == exts1(x, n)(j) && fft_buffer@[j].im@ == 0real,
        forall|j: int| N - $i <= j < N ==> (#[trigger] fft_buffer@[j]).re@ == exts1(x, n)(j) && fft_buffer@[j].im@ == 0real,
@at before-call process_with_scratch
    let ghost s = fft_buffer@;
    proof { assert(forall|j: int| 0 <= j < N ==> (#[trigger] s[j]).re@ == exts1(x, n)(j) && s[j].im@ == 0real); }
@at loop2 before
    let ghost o = fft_buffer@;
@loop 2
    invariant
        $hi == n, fft_buffer@ == o, buffer@.len() == n,
        forall|k: int| 0 <= k < $i ==> (#[trigger] buffer@[k])@ == dst1(x, n, k),
@at loop2 begin
    proof { lem_dst1_fft(s, x, n, $i as int); assert(o[N - 1 - $i as int].im@ == fft_im(s, N, N - 1 - $i as int)); }
