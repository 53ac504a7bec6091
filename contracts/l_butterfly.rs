// ===== fixed small sizes =====
pub proof fn ss_pos(n: int, m: int)
    requires 0 < m < n
    ensures ss(n, m) > 0real
{
    let x = ang(n, m); let p = pi(); let q = n as real; let mr = m as real;
    ang_link(n, m); ax_pi_pos();
    assert(mr > 0real && mr < q);
    assert(x > 0real && x < p) by(nonlinear_arith) requires x * q == p * mr, 0real < mr < q, p > 0real;
    ax_sin_pos(x);
}
pub open spec fn fr2() -> real { 1real / sqrtr(2real) }
pub proof fn lem_fr2()
    ensures cc(4, 1) == fr2(), ss(4, 1) == fr2(), sqrtr(2real) > 0real, fr2() * fr2() == 1real / 2real
{
    cc_half_minus(4, 2, 1); cc_half(4, 2); cc_add(4, 1, 1); cc_pyth(4, 1); ss_pos(4, 1); ax_sqrt(2real);
    let c = cc(4, 1); let r = sqrtr(2real); let f = fr2();
    assert(c == ss(4, 1));
    assert(r > 0real) by(nonlinear_arith) requires r >= 0real, r * r == 2real;
    assert(f * r == 1real) by(nonlinear_arith) requires f == 1real / r, r > 0real;
    assert(f > 0real) by(nonlinear_arith) requires f * r == 1real, r > 0real;
    assert(f * f == 1real / 2real) by(nonlinear_arith) requires f * r == 1real, r * r == 2real;
    assert(c * c == 1real / 2real) by(nonlinear_arith) requires c * c + c * c == 1real;
    assert(c == f) by(nonlinear_arith) requires c * c == f * f, c > 0real, f > 0real;
}
pub proof fn sum1(f: F) ensures sum(1, f) == f(0) { sum_step(0, f); }
pub proof fn sum2(f: F) ensures sum(2, f) == f(0) + f(1) { sum_step(0, f); sum_step(1, f); }
pub proof fn sum3(f: F) ensures sum(3, f) == f(0) + f(1) + f(2) { sum2(f); sum_step(2, f); }
pub proof fn lem_b1(x: F)
    ensures dct2(x, 1, 0) == x(0), dct3(x, 1, 0) == x(0) / 2real, dst2(x, 1, 0) == x(0), dst3(x, 1, 0) == x(0) / 2real
{
    sum1(t_dct2(x, 1, 0)); sum1(t_dct3(x, 1, 0)); sum1(t_dst2(x, 1, 0)); sum1(t_dst3(x, 1, 0));
    cc_zero(2); cc_half(2, 1); rzero(x(0)); rzero(hw0(x)(0)); rzero(hwl(x, 1)(0));
    let a = x(0); let one = ss(2, 1); let hf = hwl(x, 1)(0);
    assert(one == 1real);
    assert(a * one == a && hf * one == hf) by(nonlinear_arith) requires one == 1real;
    assert forall|k: int, i: int| k == 0 && i == 0 implies #[trigger] t_dst2(x, 1, k)(i) == a * one && t_dst3(x, 1, k)(i) == hf * one by { assert((k + 1) * (2 * i + 1) == 1) by(nonlinear_arith) requires k == 0 && i == 0; assert((2 * k + 1) * (i + 1) == 1) by(nonlinear_arith) requires k == 0 && i == 0; }
    assert(t_dst2(x, 1, 0)(0) == a * one); assert(t_dst3(x, 1, 0)(0) == hf * one);
}
pub proof fn lem_b2(x: F)
    ensures ({ let f = fr2();
        &&& dct2(x, 2, 0) == x(0) + x(1) && dct2(x, 2, 1) == (x(0) - x(1)) * f
        &&& dst2(x, 2, 0) == (x(0) + x(1)) * f && dst2(x, 2, 1) == x(0) - x(1)
        &&& dct3(x, 2, 0) == x(0) / 2real + x(1) * f && dct3(x, 2, 1) == x(0) / 2real - x(1) * f
        &&& dst3(x, 2, 0) == x(0) * f + x(1) / 2real && dst3(x, 2, 1) == x(0) * f - x(1) / 2real })
{
    let f = fr2(); lem_fr2();
    cc_zero(4); cc_half(4, 2); cc_pi_minus(4, 1); cc_pi(4); cc_add_pi(4, 2);
    assert(cc(4, 3) == -f && ss(4, 3) == f && ss(4, 6) == -1real);
    let a = x(0); let b = x(1);
    sum2(t_dct2(x, 2, 0)); sum2(t_dct2(x, 2, 1)); sum2(t_dst2(x, 2, 0)); sum2(t_dst2(x, 2, 1));
    sum2(t_dct3(x, 2, 0)); sum2(t_dct3(x, 2, 1)); sum2(t_dst3(x, 2, 0)); sum2(t_dst3(x, 2, 1));
    rdist(f, a, b); rdist(f, a, -b); mul_neg(b, f); rzero(a); rzero(b); mul_neg(b, 1real); rzero(a / 2real); rzero(b / 2real); mul_neg(b / 2real, 1real);
    assert((a - b) * f == a * f - b * f) by(nonlinear_arith);
    assert(a / 2real * 1real == a / 2real);
    assert(hw0(x)(0) == a / 2real && hw0(x)(1) == b && hwl(x, 2)(0) == a && hwl(x, 2)(1) == b / 2real);
    assert(b * (-f) == -(b * f)) by(nonlinear_arith);
    assert(b * (-1real) == -b && (b / 2real) * (-1real) == -(b / 2real));
}
pub proof fn lem_third()
    ensures cc(3, 1) == 1real / 2real
{
    let c = cc(3, 1); let s = ss(3, 1);
    cc_pi_minus(3, 1); cc_add(3, 1, 1); cc_pyth(3, 1); ss_pos(3, 1);
    assert(s * s == 1real - c * c && -c == c * c - s * s);
    assert(c == 1real / 2real) by(nonlinear_arith) requires s > 0real, s * s == 1real - c * c, -c == c * c - s * s;
}
pub proof fn lem_b3_even(x: F)
    ensures ({ let t = cc(6, 1);
        &&& dct2(x, 3, 0) == x(0) + x(1) + x(2) && dct2(x, 3, 1) == (x(0) - x(2)) * t && dct2(x, 3, 2) == (x(0) + x(2)) / 2real - x(1)
        &&& dct3(x, 3, 0) == x(0) / 2real + x(1) * t + x(2) / 2real && dct3(x, 3, 1) == x(0) / 2real - x(2)
        &&& dct3(x, 3, 2) == x(0) / 2real + x(1) * (-t) + x(2) / 2real })
{
    let t = cc(6, 1); lem_third(); cc_scale2(3, 1);
    cc_zero(6); cc_half(6, 3); cc_pi(6); cc_pi_minus(6, 1); cc_2pi_minus(6, 2);
    assert(cc(6, 5) == -t && cc(6, 2) == 1real / 2real && cc(6, 10) == 1real / 2real && cc(6, 6) == -1real && cc(6, 0) == 1real && cc(6, 3) == 0real);
    sum3(t_dct2(x, 3, 0)); sum3(t_dct2(x, 3, 1)); sum3(t_dct2(x, 3, 2)); sum3(t_dct3(x, 3, 0)); sum3(t_dct3(x, 3, 1)); sum3(t_dct3(x, 3, 2));
    let a = x(0); let b = x(1); let d = x(2);
    assert((a - d) * t == a * t + d * (-t)) by(nonlinear_arith);
    assert(hw0(x)(0) == a / 2real && hw0(x)(1) == b && hw0(x)(2) == d);
}
pub proof fn lem_b3(x: F)
    ensures ({ let t = cc(6, 1);
        &&& dct2(x, 3, 0) == x(0) + x(1) + x(2) && dct2(x, 3, 1) == (x(0) - x(2)) * t && dct2(x, 3, 2) == (x(0) + x(2)) / 2real - x(1)
        &&& dct3(x, 3, 0) == x(0) / 2real + x(1) * t + x(2) / 2real && dct3(x, 3, 1) == x(0) / 2real - x(2)
        &&& dct3(x, 3, 2) == x(0) / 2real + x(1) * (-t) + x(2) / 2real
        &&& dst2(x, 3, 2) == x(0) - x(1) + x(2) && dst2(x, 3, 1) == (x(0) - x(2)) * t && dst2(x, 3, 0) == (x(0) + x(2)) / 2real + x(1)
        &&& dst3(x, 3, 0) == x(2) / 2real + x(1) * t + x(0) / 2real && dst3(x, 3, 1) == x(0) - x(2) / 2real
        &&& dst3(x, 3, 2) == x(2) / 2real + x(1) * (-t) + x(0) / 2real })
{
    lem_b3_even(x); lem_b3_even(alt(x)); lem_b3_even(revf(x, 3));
    lem_dst2_alt(x, 3, 0); lem_dst2_alt(x, 3, 1); lem_dst2_alt(x, 3, 2);
    lem_dst3_rev(x, 3, 0); lem_dst3_rev(x, 3, 1); lem_dst3_rev(x, 3, 2);
}
pub proof fn lem_dst2_rev(y: F, n: int, k: int)
    requires n > 0
    ensures dst2(revf(y, n), n, k) == sgn(k, dst2(y, n, k))
{
    let j = n - 1 - k;
    // dst2(z, n, k) = dct2(alt z, n, j); alt (rev y) = +-rev (alt y)
    lem_dst2_alt(revf(y, n), n, j); lem_dst2_alt(y, n, j);
    assert(n - 1 - j == k);
    lem_dct2_rev(alt(y), n, j);
    let u = alt(revf(y, n)); let v = revf(alt(y), n); let w = negf(v);
    if (n - 1) % 2 == 0 {
        assert forall|i: int| 0 <= i < n implies #[trigger] u(i) == v(i) by { assert((n - 1 - i) % 2 == i % 2); }
        lem_dct2_ext(u, v, n, j);
    } else {
        assert forall|i: int| 0 <= i < n implies #[trigger] u(i) == w(i) by { assert((n - 1 - i) % 2 != i % 2); }
        lem_dct2_ext(u, w, n, j);
        let f = t_dct2(w, n, j); let g = t_dct2(v, n, j); let h = |i: int| -g(i);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == h(i) by { mul_neg(v(i), cc(2 * n, j * (2 * i + 1))); }
        sum_ext(n, f, h); sum_neg(n, g);
    }
}
// one split step with the sine part kept as a DST2 of the reversed sequence
pub open spec fn sir(d: F, q: int) -> F { revf(si(d, q), q) }
pub proof fn lem_split2s(x: F, q: int, k: int)
    requires q > 0
    ensures ({ let d = fold_dif(x, 4 * q); let e = dct2(ci(d, q), q, k); let o = sgn(k - 1, dst2(sir(d, q), q, k - 1));
        dct2(x, 4 * q, 4 * k + 1) == e + o && dct2(x, 4 * q, 4 * k - 1) == e - o }),
        dct2(x, 4 * q, 4 * k) == dct2(fold_sum(x, 4 * q), 2 * q, 2 * k),
        dct2(x, 4 * q, 4 * k + 2) == dct2(fold_sum(x, 4 * q), 2 * q, 2 * k + 1),
{
    let d = fold_dif(x, 4 * q);
    lem_split2(x, q, k); lem_sr_odd(d, q, k); lem_dst2_rev(si(d, q), q, k - 1);
}
pub proof fn lem_split2s_ends(x: F, q: int)
    requires q > 0
    ensures ({ let d = fold_dif(x, 4 * q);
        dct2(x, 4 * q, 1) == dct2(ci(d, q), q, 0) && dct2(x, 4 * q, 4 * q - 1) == -sgn(q - 1, dst2(sir(d, q), q, q - 1)) }),
{
    let d = fold_dif(x, 4 * q);
    lem_split2_ends(x, q); lem_sr_odd(d, q, q); lem_dst2_rev(si(d, q), q, q - 1);
}
// one split step of DCT3, four outputs at a time
pub proof fn lem_split3(x: F, q: int, k: int)
    requires q >= 1
    ensures ({ let y = odf(x); let C = dct3(lf(y), q, k); let S = dst3(rf(y, q), q, k); let c = cc(8 * q, 2 * k + 1); let s = ss(8 * q, 2 * k + 1);
        let l = C * c + S * s; let u = C * s - S * c; let e = dct3(evf(x), 2 * q, k); let f = dct3(evf(x), 2 * q, 2 * q - 1 - k);
        &&& dct3(x, 4 * q, k) == e + l && dct3(x, 4 * q, 4 * q - 1 - k) == e - l
        &&& dct3(x, 4 * q, 2 * q - 1 - k) == f + u && dct3(x, 4 * q, 2 * q + k) == f - u }),
{
    let y = odf(x);
    lem_dct3_split(x, 2 * q, k); lem_dct3_split(x, 2 * q, 2 * q - 1 - k);
    lem_dct4_pair(y, q, k); lem_dct4_mirror(y, 2 * q, k);
    let S = dst3(rf(y, q), q, k); let c = cc(8 * q, 2 * k + 1);
    assert(S * (-c) == -(S * c)) by(nonlinear_arith);
}

pub proof fn lem_b4_even(x: F)
    ensures ({ let c = cc(8, 1); let s = ss(8, 1); let f = fr2();
        let g = x(0) / 2real + x(2) * f; let h = x(0) / 2real - x(2) * f; let l = x(1) * c + x(3) * s; let u = x(1) * s - x(3) * c;
        &&& dct2(x, 4, 0) == (x(0) + x(3)) + (x(1) + x(2)) && dct2(x, 4, 2) == ((x(0) + x(3)) - (x(1) + x(2))) * f
        &&& dct2(x, 4, 1) == (x(0) - x(3)) * c - (x(2) - x(1)) * s && dct2(x, 4, 3) == (x(2) - x(1)) * c + (x(0) - x(3)) * s
        &&& dct3(x, 4, 0) == g + l && dct3(x, 4, 3) == g - l && dct3(x, 4, 1) == h + u && dct3(x, 4, 2) == h - u })
{
    let c = cc(8, 1); let s = ss(8, 1); let d = fold_dif(x, 4);
    lem_split2(x, 1, 0); lem_split2_ends(x, 1);
    lem_b2(fold_sum(x, 4)); lem_b1(ci(d, 1)); lem_b1(sr_odd(d, 1));
    assert(2 * 0 + 1 == 1);
    let u = x(2) - x(1);
    assert(d(1) == -u);
    assert((-u) * s == -(u * s) && (-u) * c == -(u * c)) by(nonlinear_arith);
    assert(ci(d, 1)(0) == d(0) * c + d(1) * s);
    assert(si(d, 1)(0) == d(1) * c - d(0) * s);
    let y = odf(x);
    lem_split3(x, 1, 0); lem_b2(evf(x)); lem_b1(lf(y)); lem_b1(rf(y, 1));
}
pub proof fn lem_b4(x: F)
    ensures ({ let c = cc(8, 1); let s = ss(8, 1); let f = fr2();
        let g = x(0) / 2real + x(2) * f; let h = x(0) / 2real - x(2) * f; let l = x(1) * c + x(3) * s; let u = x(1) * s - x(3) * c;
        let gs = x(3) / 2real + x(1) * f; let hs = x(3) / 2real - x(1) * f; let ls = x(2) * c + x(0) * s; let us = x(2) * s - x(0) * c;
        &&& dct2(x, 4, 0) == (x(0) + x(3)) + (x(1) + x(2)) && dct2(x, 4, 2) == ((x(0) + x(3)) - (x(1) + x(2))) * f
        &&& dct2(x, 4, 1) == (x(0) - x(3)) * c - (x(2) - x(1)) * s && dct2(x, 4, 3) == (x(2) - x(1)) * c + (x(0) - x(3)) * s
        &&& dct3(x, 4, 0) == g + l && dct3(x, 4, 3) == g - l && dct3(x, 4, 1) == h + u && dct3(x, 4, 2) == h - u
        &&& dst2(x, 4, 3) == (x(0) - x(3)) + (x(2) - x(1)) && dst2(x, 4, 1) == ((x(0) - x(3)) - (x(2) - x(1))) * f
        &&& dst2(x, 4, 2) == (x(0) + x(3)) * c - (x(2) + x(1)) * s && dst2(x, 4, 0) == (x(2) + x(1)) * c + (x(0) + x(3)) * s
        &&& dst3(x, 4, 0) == gs + ls && dst3(x, 4, 3) == ls - gs && dst3(x, 4, 1) == -(hs + us) && dst3(x, 4, 2) == hs - us })
{
    lem_b4_even(x); lem_b4_even(alt(x)); lem_b4_even(revf(x, 4));
    lem_dst2_alt(x, 4, 0); lem_dst2_alt(x, 4, 1); lem_dst2_alt(x, 4, 2); lem_dst2_alt(x, 4, 3);
    lem_dst3_rev(x, 4, 0); lem_dst3_rev(x, 4, 1); lem_dst3_rev(x, 4, 2); lem_dst3_rev(x, 4, 3);
}
