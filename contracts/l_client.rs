// ===== client programs: what a user of the library does, verified against the contracts of the traits alone =====
// C16: a transform, then its documented inverse, on any object of the trait (naive, FFT-based, butterfly, split radix)
pub fn client_inv_dct1_ws(t: &dyn Dct1, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 2, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * (((old(buffer).len() as int) - 1) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct1_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct1_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n - 1) as real / 2real) by { inv_dct1(x, y, n, j); } }
}
pub fn client_inv_dct1(t: &dyn Dct1, buffer: &mut [R])
    requires t.wf(), t.slen() >= 2, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * (((old(buffer).len() as int) - 1) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct1(buffer);
    let ghost y = rv(buffer@);
    t.process_dct1(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n - 1) as real / 2real) by { inv_dct1(x, y, n, j); } }
}
pub fn client_inv_dst1_ws(t: &dyn Dst1, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * (((old(buffer).len() as int) + 1) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst1_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst1_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n + 1) as real / 2real) by { inv_dst1(x, y, n, j); } }
}
pub fn client_inv_dst1(t: &dyn Dst1, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * (((old(buffer).len() as int) + 1) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst1(buffer);
    let ghost y = rv(buffer@);
    t.process_dst1(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n + 1) as real / 2real) by { inv_dst1(x, y, n, j); } }
}
pub fn client_inv_dct2_ws(t: &dyn TransformType2And3, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct2_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct3_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dct2(x, y, n, j); } }
}
pub fn client_inv_dct2(t: &dyn TransformType2And3, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct2(buffer);
    let ghost y = rv(buffer@);
    t.process_dct3(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dct2(x, y, n, j); } }
}
pub fn client_inv_dct3_ws(t: &dyn TransformType2And3, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct3_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct2_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dct3(x, y, n, j); } }
}
pub fn client_inv_dct3(t: &dyn TransformType2And3, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct3(buffer);
    let ghost y = rv(buffer@);
    t.process_dct2(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dct3(x, y, n, j); } }
}
pub fn client_inv_dst2_ws(t: &dyn TransformType2And3, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst2_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst3_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dst2(x, y, n, j); } }
}
pub fn client_inv_dst2(t: &dyn TransformType2And3, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst2(buffer);
    let ghost y = rv(buffer@);
    t.process_dst3(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dst2(x, y, n, j); } }
}
pub fn client_inv_dst3_ws(t: &dyn TransformType2And3, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst3_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst2_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dst3(x, y, n, j); } }
}
pub fn client_inv_dst3(t: &dyn TransformType2And3, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst3(buffer);
    let ghost y = rv(buffer@);
    t.process_dst2(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dst3(x, y, n, j); } }
}
pub fn client_inv_dct4_ws(t: &dyn TransformType4, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct4_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct4_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dct4(x, y, n, j); } }
}
pub fn client_inv_dct4(t: &dyn TransformType4, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct4(buffer);
    let ghost y = rv(buffer@);
    t.process_dct4(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dct4(x, y, n, j); } }
}
pub fn client_inv_dst4_ws(t: &dyn TransformType4, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst4_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst4_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dst4(x, y, n, j); } }
}
pub fn client_inv_dst4(t: &dyn TransformType4, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst4(buffer);
    let ghost y = rv(buffer@);
    t.process_dst4(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * (n as real / 2real) by { inv_dst4(x, y, n, j); } }
}
pub fn client_inv_dct5_ws(t: &dyn Dct5, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct5_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct5_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dct5(x, y, n, j); } }
}
pub fn client_inv_dct5(t: &dyn Dct5, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct5(buffer);
    let ghost y = rv(buffer@);
    t.process_dct5(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dct5(x, y, n, j); } }
}
pub fn client_inv_dst5_ws(t: &dyn Dst5, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst5_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst5_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dst5(x, y, n, j); } }
}
pub fn client_inv_dst5(t: &dyn Dst5, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst5(buffer);
    let ghost y = rv(buffer@);
    t.process_dst5(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dst5(x, y, n, j); } }
}
pub fn client_inv_dct6_ws(t: &dyn Dct6And7, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct6_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct7_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dct6(x, y, n, j); } }
}
pub fn client_inv_dct6(t: &dyn Dct6And7, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct6(buffer);
    let ghost y = rv(buffer@);
    t.process_dct7(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dct6(x, y, n, j); } }
}
pub fn client_inv_dct7_ws(t: &dyn Dct6And7, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct7_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct6_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dct7(x, y, n, j); } }
}
pub fn client_inv_dct7(t: &dyn Dct6And7, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct7(buffer);
    let ghost y = rv(buffer@);
    t.process_dct6(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dct7(x, y, n, j); } }
}
pub fn client_inv_dst6_ws(t: &dyn Dst6And7, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst6_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst7_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dst6(x, y, n, j); } }
}
pub fn client_inv_dst6(t: &dyn Dst6And7, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst6(buffer);
    let ghost y = rv(buffer@);
    t.process_dst7(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dst6(x, y, n, j); } }
}
pub fn client_inv_dst7_ws(t: &dyn Dst6And7, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst7_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst6_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dst7(x, y, n, j); } }
}
pub fn client_inv_dst7(t: &dyn Dst6And7, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst7(buffer);
    let ghost y = rv(buffer@);
    t.process_dst6(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dst7(x, y, n, j); } }
}
pub fn client_inv_dct8_ws(t: &dyn Dct8, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct8_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dct8_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dct8(x, y, n, j); } }
}
pub fn client_inv_dct8(t: &dyn Dct8, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dct8(buffer);
    let ghost y = rv(buffer@);
    t.process_dct8(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n + 1) as real / 4real) by { inv_dct8(x, y, n, j); } }
}
pub fn client_inv_dst8_ws(t: &dyn Dst8, buffer: &mut [R], scratch: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen(), old(scratch).len() >= t.sscratch()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst8_with_scratch(buffer, scratch);
    let ghost y = rv(buffer@);
    t.process_dst8_with_scratch(buffer, scratch);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dst8(x, y, n, j); } }
}
pub fn client_inv_dst8(t: &dyn Dst8, buffer: &mut [R])
    requires t.wf(), t.slen() >= 1, old(buffer).len() == t.slen()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let ghost n = t.slen(); let ghost x = rv(buffer@);
    t.process_dst8(buffer);
    let ghost y = rv(buffer@);
    t.process_dst8(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n - 1) as real / 4real) by { inv_dst8(x, y, n, j); } }
}
pub fn client_plan_dct1(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 2 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * (((old(buffer).len() as int) - 1) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct1(n); let b = p.plan_dct1(n);
    a.process_dct1(buffer);
    let ghost y = rv(buffer@);
    b.process_dct1(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int - 1) as real / 2real) by { inv_dct1(x, y, n as int, j); } }
}
pub fn client_plan_dst1(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * (((old(buffer).len() as int) + 1) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst1(n); let b = p.plan_dst1(n);
    a.process_dst1(buffer);
    let ghost y = rv(buffer@);
    b.process_dst1(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int + 1) as real / 2real) by { inv_dst1(x, y, n as int, j); } }
}
pub fn client_plan_dct2(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct2(n); let b = p.plan_dct3(n);
    a.process_dct2(buffer);
    let ghost y = rv(buffer@);
    b.process_dct3(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int) as real / 2real) by { inv_dct2(x, y, n as int, j); } }
}
pub fn client_plan_dct3(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct3(n); let b = p.plan_dct2(n);
    a.process_dct3(buffer);
    let ghost y = rv(buffer@);
    b.process_dct2(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int) as real / 2real) by { inv_dct3(x, y, n as int, j); } }
}
pub fn client_plan_dst2(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst2(n); let b = p.plan_dst3(n);
    a.process_dst2(buffer);
    let ghost y = rv(buffer@);
    b.process_dst3(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int) as real / 2real) by { inv_dst2(x, y, n as int, j); } }
}
pub fn client_plan_dst3(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst3(n); let b = p.plan_dst2(n);
    a.process_dst3(buffer);
    let ghost y = rv(buffer@);
    b.process_dst2(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int) as real / 2real) by { inv_dst3(x, y, n as int, j); } }
}
pub fn client_plan_dct4(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct4(n); let b = p.plan_dct4(n);
    a.process_dct4(buffer);
    let ghost y = rv(buffer@);
    b.process_dct4(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int) as real / 2real) by { inv_dct4(x, y, n as int, j); } }
}
pub fn client_plan_dst4(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((old(buffer).len() as int) as real / 2real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst4(n); let b = p.plan_dst4(n);
    a.process_dst4(buffer);
    let ghost y = rv(buffer@);
    b.process_dst4(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((n as int) as real / 2real) by { inv_dst4(x, y, n as int, j); } }
}
pub fn client_plan_dct5(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct5(n); let b = p.plan_dct5(n);
    a.process_dct5(buffer);
    let ghost y = rv(buffer@);
    b.process_dct5(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int - 1) as real / 4real) by { inv_dct5(x, y, n as int, j); } }
}
pub fn client_plan_dst5(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst5(n); let b = p.plan_dst5(n);
    a.process_dst5(buffer);
    let ghost y = rv(buffer@);
    b.process_dst5(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int + 1) as real / 4real) by { inv_dst5(x, y, n as int, j); } }
}
pub fn client_plan_dct6(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct6(n); let b = p.plan_dct7(n);
    a.process_dct6(buffer);
    let ghost y = rv(buffer@);
    b.process_dct7(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int - 1) as real / 4real) by { inv_dct6(x, y, n as int, j); } }
}
pub fn client_plan_dct7(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct7(n); let b = p.plan_dct6(n);
    a.process_dct7(buffer);
    let ghost y = rv(buffer@);
    b.process_dct6(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int - 1) as real / 4real) by { inv_dct7(x, y, n as int, j); } }
}
pub fn client_plan_dst6(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst6(n); let b = p.plan_dst7(n);
    a.process_dst6(buffer);
    let ghost y = rv(buffer@);
    b.process_dst7(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int + 1) as real / 4real) by { inv_dst6(x, y, n as int, j); } }
}
pub fn client_plan_dst7(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst7(n); let b = p.plan_dst6(n);
    a.process_dst7(buffer);
    let ghost y = rv(buffer@);
    b.process_dst6(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int + 1) as real / 4real) by { inv_dst7(x, y, n as int, j); } }
}
pub fn client_plan_dct8(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) + 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dct8(n); let b = p.plan_dct8(n);
    a.process_dct8(buffer);
    let ghost y = rv(buffer@);
    b.process_dct8(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int + 1) as real / 4real) by { inv_dct8(x, y, n as int, j); } }
}
pub fn client_plan_dst8(p: &mut DctPlanner, buffer: &mut [R])
    requires pwf(*old(p)), 1 <= old(buffer).len() <= max_len()
    ensures final(buffer).len() == old(buffer).len(),
        forall|j: int| 0 <= j < old(buffer).len() ==> (#[trigger] final(buffer)@[j])@ == old(buffer)@[j]@ * ((2 * (old(buffer).len() as int) - 1) as real / 4real), //#inv
{
    let n = buffer.len(); let ghost x = rv(buffer@);
    let a = p.plan_dst8(n); let b = p.plan_dst8(n);
    a.process_dst8(buffer);
    let ghost y = rv(buffer@);
    b.process_dst8(buffer);
    proof { assert forall|j: int| 0 <= j < n implies (#[trigger] buffer@[j])@ == x(j) * ((2 * n as int - 1) as real / 4real) by { inv_dst8(x, y, n as int, j); } }
}

// C14: the built-in windows are symmetric and power-complementary
pub open spec fn sympc(w: F, n: int, c: real) -> bool {
    &&& forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == w(2 * n - 1 - i)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] w(i)) * w(i) + w(i + n) * w(i + n) == c
}
pub proof fn lem_win_sin(n: int, i: int)
    requires n >= 1, 0 <= i < 2 * n
    ensures ss(4 * n, 2 * i + 1) == ss(4 * n, 2 * (2 * n - 1 - i) + 1),
        i < n ==> ss(4 * n, 2 * i + 1) * ss(4 * n, 2 * i + 1) + ss(4 * n, 2 * (i + n) + 1) * ss(4 * n, 2 * (i + n) + 1) == 1real,
{
    let q = 4 * n; let m = 2 * i + 1;
    cc_pi_minus(q, m);
    assert(2 * (2 * n - 1 - i) + 1 == q - m);
    cc_half(q, 2 * n); cc_add(q, m, 2 * n); rzero(ss(q, m)); rzero(cc(q, m));
    assert(2 * (i + n) + 1 == m + 2 * n);
    cc_pyth(q, m);
}
pub proof fn lem_vorb(s: real, c: real)
    requires s * s + c * c == 1real
    ensures vorb(s) * vorb(s) + vorb(c) * vorb(c) == 1real
{
    let h = pi() / 2real; let x = h * (s * s); let y = h * (c * c);
    rdist(h, s * s, c * c); rzero(h);
    assert(y == h + (-x));
    ax_sin_add(h, -x); ax_half_pi(); ax_cos_neg(x); rzero(sinr(-x)); rzero(cosr(x));
    ax_cos_add(x, -x); ax_sin_neg(x); ax_zero(); rneg(sinr(x), sinr(x)); rneg(cosr(x), cosr(x));
}
pub proof fn poly_sq(a: real, d: real) ensures (a * d) * (a * d) == (a * a) * (d * d) {
    rassoc(a * d, a, d); rassoc(a, d, a); rassoc(a * a, d, d);
}
pub proof fn lem_scaled(a: real, b: real, c: real, d: real)
    requires a * a + b * b == c
    ensures (a * d) * (a * d) + (b * d) * (b * d) == c * (d * d)
{
    let e = d * d;
    poly_sq(a, d); poly_sq(b, d);
    rdist(e, a * a, b * b);
}
pub proof fn lem_scale_const(n: int)
    requires n >= 1
    ensures sqrtr(4real / ((2 * n) as real)) * sqrtr(4real / ((2 * n) as real)) == 2real / (n as real),
        sqrtr(2real / ((2 * n) as real)) * sqrtr(2real / ((2 * n) as real)) + sqrtr(2real / ((2 * n) as real)) * sqrtr(2real / ((2 * n) as real)) == 2real / (n as real),
{
    lem_winscale(2 * n);
    let q = n as real; let l = (2 * n) as real;
    ax_sqrt(4real / l); ax_sqrt(2real / l);
    assert(4real / l == 2real / q) by(nonlinear_arith) requires l == 2real * q, q > 0real;
    assert(2real / l + 2real / l == 2real / q) by(nonlinear_arith) requires l == 2real * q, q > 0real;
}
pub proof fn lem_win_mp3(w: F, n: int)
    requires n >= 1, forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == win_mp3(2 * n, i)
    ensures sympc(w, n, 1real)
{
    assert forall|i: int| 0 <= i < 2 * n implies #[trigger] w(i) == w(2 * n - 1 - i) by { lem_win_sin(n, i); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] w(i)) * w(i) + w(i + n) * w(i + n) == 1real by { lem_win_sin(n, i); }
}
pub proof fn lem_win_vorbis(w: F, n: int)
    requires n >= 1, forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == win_vorbis(2 * n, i)
    ensures sympc(w, n, 1real)
{
    assert forall|i: int| 0 <= i < 2 * n implies #[trigger] w(i) == w(2 * n - 1 - i) by { lem_win_sin(n, i); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] w(i)) * w(i) + w(i + n) * w(i + n) == 1real by {
        lem_win_sin(n, i); lem_vorb(ss(4 * n, 2 * i + 1), ss(4 * n, 2 * (i + n) + 1));
    }
}
pub proof fn lem_win_scaled(v: F, w: F, n: int)
    requires n >= 1, sympc(v, n, 1real), forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == v(i) * sqrtr(4real / ((2 * n) as real))
    ensures sympc(w, n, 2real / (n as real))
{
    let d = sqrtr(4real / ((2 * n) as real));
    lem_scale_const(n); rzero(d * d);
    assert forall|i: int| 0 <= i < 2 * n implies #[trigger] w(i) == w(2 * n - 1 - i) by { assert(v(i) == v(2 * n - 1 - i)); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] w(i)) * w(i) + w(i + n) * w(i + n) == 2real / (n as real) by {
        assert(v(i) * v(i) + v(i + n) * v(i + n) == 1real); lem_scaled(v(i), v(i + n), 1real, d);
    }
}
pub proof fn lem_win_mp3i(w: F, n: int)
    requires n >= 1, forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == win_mp3i(2 * n, i)
    ensures sympc(w, n, 2real / (n as real))
{
    let v = |i: int| win_mp3(2 * n, i);
    lem_win_mp3(v, n); lem_win_scaled(v, w, n);
}
pub proof fn lem_win_vorbisi(w: F, n: int)
    requires n >= 1, forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == win_vorbisi(2 * n, i)
    ensures sympc(w, n, 2real / (n as real))
{
    let v = |i: int| win_vorbis(2 * n, i);
    lem_win_vorbis(v, n); lem_win_scaled(v, w, n);
}
pub proof fn lem_win_one(w: F, n: int)
    requires n >= 1, forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == win_one(2 * n, i)
    ensures sympc(w, n, 2real)
{}
pub proof fn lem_win_inv(w: F, n: int)
    requires n >= 1, forall|i: int| 0 <= i < 2 * n ==> #[trigger] w(i) == win_inv(2 * n, i)
    ensures sympc(w, n, 2real / (n as real))
{ lem_scale_const(n); }

pub fn client_win_mp3(n: usize) -> (r: Vec<R>)
    requires 1 <= n <= max_len()
    ensures r.len() == 2 * n, sympc(rv(r@), n as int, 1real), //#sympc
{
    let r = mp3(2 * n);
    proof { let w = rv(r@); lem_win_mp3(w, n as int); }
    r
}
pub fn client_win_mp3_invertible(n: usize) -> (r: Vec<R>)
    requires 1 <= n <= max_len()
    ensures r.len() == 2 * n, sympc(rv(r@), n as int, 2real / (n as int) as real), //#sympc
{
    let r = mp3_invertible(2 * n);
    proof { let w = rv(r@); lem_win_mp3i(w, n as int); }
    r
}
pub fn client_win_vorbis(n: usize) -> (r: Vec<R>)
    requires 1 <= n <= max_len()
    ensures r.len() == 2 * n, sympc(rv(r@), n as int, 1real), //#sympc
{
    let r = vorbis(2 * n);
    proof { let w = rv(r@); lem_win_vorbis(w, n as int); }
    r
}
pub fn client_win_vorbis_invertible(n: usize) -> (r: Vec<R>)
    requires 1 <= n <= max_len()
    ensures r.len() == 2 * n, sympc(rv(r@), n as int, 2real / (n as int) as real), //#sympc
{
    let r = vorbis_invertible(2 * n);
    proof { let w = rv(r@); lem_win_vorbisi(w, n as int); }
    r
}
pub fn client_win_one(n: usize) -> (r: Vec<R>)
    requires 1 <= n <= max_len()
    ensures r.len() == 2 * n, sympc(rv(r@), n as int, 2real), //#sympc
{
    let r = one(2 * n);
    proof { let w = rv(r@); lem_win_one(w, n as int); }
    r
}
pub fn client_win_invertible(n: usize) -> (r: Vec<R>)
    requires 1 <= n <= max_len()
    ensures r.len() == 2 * n, sympc(rv(r@), n as int, 2real / (n as int) as real), //#sympc
{
    let r = invertible(2 * n);
    proof { let w = rv(r@); lem_win_inv(w, n as int); }
    r
}

// C15: time-domain alias cancellation
pub proof fn lem_tdac_second(w: F, a: F, b: F, x: F, n: int, i: int)
    requires n >= 2, n % 2 == 0, 0 <= i < n,
        forall|k: int| 0 <= k < n ==> #[trigger] x(k) == mdct(w, a, b, n, k),
        w(n - 1 - i) == w(i + n),
        w(2 * n - 1 - i) == w(i),
    ensures imdct(w, x, n, n + i) == -(((-(b(n - 1 - i) * w(i)) - b(i) * w(i + n)) * (n as real / 2real)) * w(i + n))
{
    let fx = fold4(w, a, b, n); let r = row4(n, n + i);
    assert forall|k: int| 0 <= k < n implies #[trigger] x(k) == dct4(fx, n, k) by { lem_mdct_fold(w, a, b, n, k); }
    lem_imdct_row(w, x, n, n + i);
    inv_dct4(fx, x, n, r);
    assert(fx(r) == -(b(n - 1 - i) * w(i)) - b(i) * w(i + n));
}
pub proof fn lem_tdac_first(w: F, b: F, d: F, y: F, n: int, i: int)
    requires n >= 2, n % 2 == 0, 0 <= i < n,
        forall|k: int| 0 <= k < n ==> #[trigger] y(k) == mdct(w, b, d, n, k),
        w(n - 1 - i) == w(i + n),
    ensures imdct(w, y, n, i) == ((b(i) * w(i) - b(n - 1 - i) * w(i + n)) * (n as real / 2real)) * w(i)
{
    let fy = fold4(w, b, d, n); let s = row4(n, i); let h = n / 2;
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == dct4(fy, n, k) by { lem_mdct_fold(w, b, d, n, k); }
    lem_imdct_row(w, y, n, i);
    inv_dct4(fy, y, n, s);
    if i < h { assert(fy(s) == b(i) * w(i) - b(n - 1 - i) * w(i + n)); }
    else { assert(fy(s) == b(n - 1 - i) * w(i + n) - b(i) * w(i)); poly_t0(b(i) * w(i), b(n - 1 - i) * w(i + n), n as real / 2real, w(i)); }
}
pub proof fn lem_tdac(w: F, a: F, b: F, d: F, x: F, y: F, n: int, c: real, i: int)
    requires n >= 2, n % 2 == 0, 0 <= i < n, sympc(w, n, c),
        forall|k: int| 0 <= k < n ==> #[trigger] x(k) == mdct(w, a, b, n, k),
        forall|k: int| 0 <= k < n ==> #[trigger] y(k) == mdct(w, b, d, n, k),
    ensures imdct(w, x, n, n + i) + imdct(w, y, n, i) == b(i) * (c * (n as real / 2real))
{
    let g = n as real / 2real; let u = w(i); let v = w(i + n);
    assert(w(2 * n - 1 - i) == u && w(n - 1 - i) == v) by { assert(w(i) == w(2 * n - 1 - i)); assert(w(i + n) == w(2 * n - 1 - (i + n))); }
    assert(u * u + v * v == c);
    lem_tdac_second(w, a, b, x, n, i); lem_tdac_first(w, b, d, y, n, i);
    poly_tdac(u, v, b(i), b(n - 1 - i), g);
    rassoc(b(i), c, g);
}
pub proof fn poly_t0(p: real, q: real, g: real, u: real) ensures -(((q - p) * g) * u) == ((p - q) * g) * u {
    rneg(p - q, g); rneg((p - q) * g, u); assert(q - p == -(p - q));
}
pub proof fn poly_tdac(u: real, v: real, e: real, f: real, g: real)
    ensures -(((-(f * u) - e * v) * g) * v) + ((e * u - f * v) * g) * u == e * ((u * u + v * v) * g)
{
    let p = f * u; let q = e * v; let z = e * u - f * v; let t = u * u + v * v;
    assert(-p - q == -(p + q)); rneg(p + q, g); rneg((p + q) * g, v);
    rassoc(p + q, g, v); rassoc(z, g, u);
    rdist(v, p, q); rdist(u, e * u, f * v);
    rassoc(f, u, v); rassoc(e, v, v); rassoc(e, u, u); rdist(e, u * u, v * v);
    assert((p + q) * v + z * u == e * t);
    rdist(g, (p + q) * v, z * u); rassoc(e, t, g);
}
// the middle block of overlapping blocks: one MDCT per pair of neighbouring blocks, every inverse added into the same outputs
pub open spec fn blocks_ok(x: Seq<Vec<R>>, n: int) -> bool { forall|m: int| 0 <= m < x.len() ==> (#[trigger] x[m]).len() == n }
pub open spec fn recon(x: Seq<Vec<R>>, y: Seq<Vec<R>>, n: int, g: real) -> bool {
    y.len() == x.len() && forall|m: int, i: int| 0 < m < x.len() - 1 && 0 <= i < n ==> (#[trigger] y[m]@[i])@ == x[m]@[i]@ * g
}
pub fn client_overlap(t: &dyn Mdct, x: &Vec<Vec<R>>, c: Ghost<real>) -> (out: Vec<Vec<R>>)
    requires t.wf(), t.slen() >= 2, t.slen() % 2 == 0, sympc(rv(t.win()), t.slen(), c@), x.len() >= 2, blocks_ok(x@, t.slen())
    ensures recon(x@, out@, t.slen(), c@ * (t.slen() as real / 2real)), //#tdac
{
    let n = t.len(); let ghost nn = t.slen(); let ghost w = rv(t.win()); let ghost g = c@ * (nn as real / 2real);
    let mut scratch: Vec<R> = vec_from_elem(R::zero(), t.get_scratch_len());
    let mut spec_: Vec<R> = vec_from_elem(R::zero(), n);
    let mut cur: Vec<R> = vec_from_elem(R::zero(), n);
    let mut out: Vec<Vec<R>> = Vec::new();
    let mut m: usize = 0;
    let ghost mut px: F = fzero();
    proof { assert forall|i: int| 0 <= i < nn implies (#[trigger] cur@[i])@ == 0real by {} }
    while m + 1 < x.len()
        invariant
            t.wf(), nn == t.slen(), n == nn, nn >= 2, nn % 2 == 0, w == rv(t.win()), sympc(w, nn, c@), g == c@ * (nn as real / 2real), x.len() >= 2, blocks_ok(x@, nn),
            scratch.len() >= t.sscratch(), spec_.len() == nn, cur.len() == nn, m < x.len(), out.len() == m,
            m == 0 ==> forall|i: int| 0 <= i < nn ==> (#[trigger] cur@[i])@ == 0real,
            m > 0 ==> forall|k: int| 0 <= k < nn ==> #[trigger] px(k) == mdct(w, rv(x@[m - 1]@), rv(x@[m as int]@), nn, k),
            m > 0 ==> forall|i: int| 0 <= i < nn ==> (#[trigger] cur@[i])@ == imdct(w, px, nn, nn + i),
            forall|q: int, i: int| 0 < q < m && 0 <= i < nn ==> (#[trigger] out@[q]@[i])@ == x@[q]@[i]@ * g,
        decreases x.len() - m
    {
        assert(x@[m as int].len() == nn && x@[m + 1].len() == nn);
        t.process_mdct_with_scratch(x[m].as_slice(), x[m + 1].as_slice(), spec_.as_mut_slice(), scratch.as_mut_slice());
        let ghost py = rv(spec_@);
        let mut next: Vec<R> = vec_from_elem(R::zero(), n);
        let ghost c0 = cur@;
        t.process_imdct_with_scratch(spec_.as_slice(), cur.as_mut_slice(), next.as_mut_slice(), scratch.as_mut_slice());
        proof {
            if m > 0 {
                assert forall|i: int| 0 <= i < nn implies (#[trigger] cur@[i])@ == x@[m as int]@[i]@ * g by {
                    assert(c0[i]@ == imdct(w, px, nn, nn + i));
                    lem_tdac(w, rv(x@[m - 1]@), rv(x@[m as int]@), rv(x@[m + 1]@), px, py, nn, c@, i);
                }
            }
            assert forall|i: int| 0 <= i < nn implies (#[trigger] next@[i])@ == imdct(w, py, nn, nn + i) by {}
            px = py;
        }
        let ghost o0 = out@;
        out.push(cur);
        assert(forall|q: int| 0 <= q < m ==> out@[q] == o0[q]);
        cur = next;
        m = m + 1;
    }
    out.push(cur);
    out
}
pub fn client_plan_overlap_mp3(p: &mut DctPlanner, n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires pwf(*old(p)), 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, (n as int) as real / 2real), //#tdac
{
    let t = p.plan_mdct(n, mp3);
    proof { let w = rv(t.win()); lem_win_mp3(w, n as int); lem_gain(n as int); }
    client_overlap(&*t, x, Ghost(1real))
}
pub fn client_naive_overlap_mp3(n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, (n as int) as real / 2real), //#tdac
{
    let t = MdctNaive::new(n, mp3);
    proof { let w = rv(t.win()); lem_win_mp3(w, n as int); lem_gain(n as int); }
    client_overlap(&t, x, Ghost(1real))
}
pub fn client_plan_overlap_mp3_invertible(p: &mut DctPlanner, n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires pwf(*old(p)), 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, 1real), //#tdac
{
    let t = p.plan_mdct(n, mp3_invertible);
    proof { let w = rv(t.win()); lem_win_mp3i(w, n as int); lem_gain(n as int); }
    client_overlap(&*t, x, Ghost(2real / ((n as int) as real)))
}
pub fn client_naive_overlap_mp3_invertible(n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, 1real), //#tdac
{
    let t = MdctNaive::new(n, mp3_invertible);
    proof { let w = rv(t.win()); lem_win_mp3i(w, n as int); lem_gain(n as int); }
    client_overlap(&t, x, Ghost(2real / ((n as int) as real)))
}
pub fn client_plan_overlap_vorbis(p: &mut DctPlanner, n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires pwf(*old(p)), 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, (n as int) as real / 2real), //#tdac
{
    let t = p.plan_mdct(n, vorbis);
    proof { let w = rv(t.win()); lem_win_vorbis(w, n as int); lem_gain(n as int); }
    client_overlap(&*t, x, Ghost(1real))
}
pub fn client_naive_overlap_vorbis(n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, (n as int) as real / 2real), //#tdac
{
    let t = MdctNaive::new(n, vorbis);
    proof { let w = rv(t.win()); lem_win_vorbis(w, n as int); lem_gain(n as int); }
    client_overlap(&t, x, Ghost(1real))
}
pub fn client_plan_overlap_vorbis_invertible(p: &mut DctPlanner, n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires pwf(*old(p)), 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, 1real), //#tdac
{
    let t = p.plan_mdct(n, vorbis_invertible);
    proof { let w = rv(t.win()); lem_win_vorbisi(w, n as int); lem_gain(n as int); }
    client_overlap(&*t, x, Ghost(2real / ((n as int) as real)))
}
pub fn client_naive_overlap_vorbis_invertible(n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, 1real), //#tdac
{
    let t = MdctNaive::new(n, vorbis_invertible);
    proof { let w = rv(t.win()); lem_win_vorbisi(w, n as int); lem_gain(n as int); }
    client_overlap(&t, x, Ghost(2real / ((n as int) as real)))
}
pub fn client_plan_overlap_one(p: &mut DctPlanner, n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires pwf(*old(p)), 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, (n as int) as real), //#tdac
{
    let t = p.plan_mdct(n, one);
    proof { let w = rv(t.win()); lem_win_one(w, n as int); lem_gain(n as int); }
    client_overlap(&*t, x, Ghost(2real))
}
pub fn client_naive_overlap_one(n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, (n as int) as real), //#tdac
{
    let t = MdctNaive::new(n, one);
    proof { let w = rv(t.win()); lem_win_one(w, n as int); lem_gain(n as int); }
    client_overlap(&t, x, Ghost(2real))
}
pub fn client_plan_overlap_invertible(p: &mut DctPlanner, n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires pwf(*old(p)), 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, 1real), //#tdac
{
    let t = p.plan_mdct(n, invertible);
    proof { let w = rv(t.win()); lem_win_inv(w, n as int); lem_gain(n as int); }
    client_overlap(&*t, x, Ghost(2real / ((n as int) as real)))
}
pub fn client_naive_overlap_invertible(n: usize, x: &Vec<Vec<R>>) -> (out: Vec<Vec<R>>)
    requires 2 <= n <= max_len(), n % 2 == 0, x.len() >= 2, blocks_ok(x@, n as int)
    ensures recon(x@, out@, n as int, 1real), //#tdac
{
    let t = MdctNaive::new(n, invertible);
    proof { let w = rv(t.win()); lem_win_inv(w, n as int); lem_gain(n as int); }
    client_overlap(&t, x, Ghost(2real / ((n as int) as real)))
}
pub proof fn lem_gain(n: int)
    requires n >= 1
    ensures 1real * (n as real / 2real) == n as real / 2real, 2real * (n as real / 2real) == n as real, (2real / (n as real)) * (n as real / 2real) == 1real
{
    let q = n as real; rzero(q / 2real);
    assert((2real / q) * (q / 2real) == 1real) by(nonlinear_arith) requires q > 0real;
}