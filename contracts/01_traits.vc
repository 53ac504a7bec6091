@def WS(D)
@requires
    self.wf(),
@panics !(buffer.len() == self.slen() && scratch.len() >= self.sscratch())
@ensures
    old(buffer).len() == self.slen() && old(scratch).len() >= self.sscratch(), //#size
    final(buffer).len() == old(buffer).len(), //#frame
    final(scratch).len() == old(scratch).len(), //#frame
    forall|i: int| self.sscratch() <= i < old(scratch).len() ==> #[trigger] final(scratch)@[i] == old(scratch)@[i], //#tail
    forall|k: int| 0 <= k < self.slen() ==> (#[trigger] final(buffer)@[k])@ == $D(rv(old(buffer)@), self.slen(), k), //#val
@enddef
@def CV(D)
@requires
    self.wf(),
@panics !(buffer.len() == self.slen())
@ensures
    old(buffer).len() == self.slen(), //#size
    final(buffer).len() == old(buffer).len(), //#frame
    forall|k: int| 0 <= k < self.slen() ==> (#[trigger] final(buffer)@[k])@ == $D(rv(old(buffer)@), self.slen(), k), //#val
@enddef
@def LEN(T; smax)
@@ trait $T
    spec fn wf(&self) -> bool;
    spec fn slen(&self) -> int;
    spec fn sscratch(&self) -> int;
@@ fn $T::len
@requires
    self.wf(),
@ensures
    r == self.slen(), //#len
    1 <= self.slen() <= max_len(), //#len
@@ fn $T::get_scratch_len
@requires
    self.wf(),
@ensures
    r == self.sscratch(), //#scratchlen
    0 <= self.sscratch() <= $smax, //#scratchlen
@enddef
@use LEN(Dct1; 4 * self.slen() + 0x4_0000_0000_0000)
@use LEN(Dst1; 4 * self.slen() + 0x4_0000_0000_0000)
@use LEN(TransformType2And3; 4 * self.slen() + 0x4_0000_0000_0000)
@use LEN(TransformType4; 4 * self.slen() + 0x8_0000_0000_0000)
@use LEN(Dct5; self.slen())
@use LEN(Dst5; self.slen())
@use LEN(Dct6And7; self.slen())
@use LEN(Dst6And7; 8 * self.slen() + 0x4_0000_0000_0000)
@use LEN(Dct8; self.slen())
@use LEN(Dst8; self.slen())
@@ fn Dct1::process_dct1_with_scratch
@use WS(dct1)
@@ fn Dct1::process_dct1
@use CV(dct1)
@at entry
    let ghost b0 = buffer@;
@@ fn Dct2::process_dct2_with_scratch
@use WS(dct2)
@@ fn Dct2::process_dct2
@use CV(dct2)
@at entry
    let ghost b0 = buffer@;
@@ fn Dct3::process_dct3_with_scratch
@use WS(dct3)
@@ fn Dct3::process_dct3
@use CV(dct3)
@at entry
    let ghost b0 = buffer@;
@@ fn Dct4::process_dct4_with_scratch
@use WS(dct4)
@@ fn Dct4::process_dct4
@use CV(dct4)
@at entry
    let ghost b0 = buffer@;
@@ fn Dct5::process_dct5_with_scratch
@use WS(dct5)
@@ fn Dct5::process_dct5
@use CV(dct5)
@at entry
    let ghost b0 = buffer@;
@@ fn Dct6::process_dct6_with_scratch
@use WS(dct6)
@@ fn Dct6::process_dct6
@use CV(dct6)
@at entry
    let ghost b0 = buffer@;
@@ fn Dct7::process_dct7_with_scratch
@use WS(dct7)
@@ fn Dct7::process_dct7
@use CV(dct7)
@at entry
    let ghost b0 = buffer@;
@@ fn Dct8::process_dct8_with_scratch
@use WS(dct8)
@@ fn Dct8::process_dct8
@use CV(dct8)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst1::process_dst1_with_scratch
@use WS(dst1)
@@ fn Dst1::process_dst1
@use CV(dst1)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst2::process_dst2_with_scratch
@use WS(dst2)
@@ fn Dst2::process_dst2
@use CV(dst2)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst3::process_dst3_with_scratch
@use WS(dst3)
@@ fn Dst3::process_dst3
@use CV(dst3)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst4::process_dst4_with_scratch
@use WS(dst4)
@@ fn Dst4::process_dst4
@use CV(dst4)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst5::process_dst5_with_scratch
@use WS(dst5)
@@ fn Dst5::process_dst5
@use CV(dst5)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst6::process_dst6_with_scratch
@use WS(dst6)
@@ fn Dst6::process_dst6
@use CV(dst6)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst7::process_dst7_with_scratch
@use WS(dst7)
@@ fn Dst7::process_dst7
@use CV(dst7)
@at entry
    let ghost b0 = buffer@;
@@ fn Dst8::process_dst8_with_scratch
@use WS(dst8)
@@ fn Dst8::process_dst8
@use CV(dst8)
@at entry
    let ghost b0 = buffer@;
