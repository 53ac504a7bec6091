@@ fn array_utils::into_complex
@ensures
    r@.len() == buffer@.len() / 2,
@@ fn array_utils::into_complex_mut
@ensures
    r@.len() == old(buffer)@.len() / 2,
    final(buffer)@.len() == old(buffer)@.len(),

@@ fn common::dct_error_inplace
@requires
    !(actual_len == expected_len && actual_scratch >= expected_scratch),
@ensures
    false,
@panics !(actual_len == expected_len && actual_scratch >= expected_scratch)
@@ fn common::mdct_error_inplace
@requires
    !(actual_len_a == expected_len && actual_len_b == expected_len && actual_len_c == expected_len && actual_scratch >= expected_scratch),
@ensures
    false,
@panics !(actual_len_a == expected_len && actual_len_b == expected_len && actual_len_c == expected_len && actual_scratch >= expected_scratch)

@@ fn DctNum::half
@ensures
    r@ == 1real / 2real,
@@ fn DctNum::two
@ensures
    r@ == 2real,

@@ fn twiddles::single_twiddle
@requires
    fft_len > 0,
@ensures
    r.re@ == cc(fft_len as int, 2 * i), r.im@ == -ss(fft_len as int, 2 * i),
@at result
    proof { lem_twiddle(pi(), angle_constant@, i as int, fft_len as int); }
@@ fn twiddles::single_twiddle_re
@requires
    fft_len > 0,
@ensures
    r@ == cc(fft_len as int, 2 * i),
@at result
    proof { lem_twiddle(pi(), angle_constant@, i as int, fft_len as int); }
@@ fn twiddles::single_twiddle_halfoffset
@requires
    fft_len > 0,
@ensures
    r.re@ == cc(fft_len as int, 2 * i + 1), r.im@ == -ss(fft_len as int, 2 * i + 1),
@at result
    proof { lem_twiddle_half(pi(), angle_constant@, i as int, fft_len as int); }
@@ items twiddles
pub proof fn lem_twiddle(p: real, a: real, i: int, n: int)
    requires n > 0, p == pi(), a == p * (-2real) / (n as real)
    ensures cosr(a * (i as real)) == cc(n, 2 * i), sinr(a * (i as real)) == -ss(n, 2 * i),
        1real * sinr(a * (i as real)) == -ss(n, 2 * i), 1real * cosr(a * (i as real)) == cc(n, 2 * i)
{
    let q = n as real; let ir = i as real;
    assert(a * q == p * (-2real)) by(nonlinear_arith) requires a == p * (-2real) / q, q > 0real;
    assert((-(2 * i)) as real == -2real * ir);
    assert((a * ir) * q == p * (-2real * ir)) by(nonlinear_arith) requires a * q == p * (-2real);
    cc_link(a * ir, n, -(2 * i));
    cc_neg(n, 2 * i);
}
pub proof fn lem_twiddle_half(p: real, a: real, i: int, n: int)
    requires n > 0, p == pi(), a == p * (-2real) / (n as real)
    ensures ({ let h = (1int as real) / (2int as real); let x = a * (i as real + 0.5real);
        cosr(x) == cc(n, 2 * i + 1) && sinr(x) == -ss(n, 2 * i + 1) && 1real * sinr(x) == -ss(n, 2 * i + 1) && 1real * cosr(x) == cc(n, 2 * i + 1) })
{
    let q = n as real; let ir = i as real;
    assert(a * q == p * (-2real)) by(nonlinear_arith) requires a == p * (-2real) / q, q > 0real;
    let h = ir + 0.5real;
    assert((-(2 * i + 1)) as real == -2real * h);
    assert((a * h) * q == p * (-2real * h)) by(nonlinear_arith) requires a * q == p * (-2real);
    cc_link(a * h, n, -(2 * i + 1));
    cc_neg(n, 2 * i + 1);
}
