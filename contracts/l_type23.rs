// ===== relations between the type 2/3 transforms, and their FFT form =====
pub open spec fn alt(x: F) -> F { |i: int| if i % 2 == 0 { x(i) } else { -x(i) } }
pub open spec fn revf(x: F, n: int) -> F { |i: int| x(n - 1 - i) }
pub open spec fn sgn(k: int, v: real) -> real { if k % 2 == 0 { v } else { -v } }
// even positions in order, then odd positions backwards
pub open spec fn eo(n: int, j: int) -> int { if j < (n + 1) / 2 { 2 * j } else { n - 1 - n % 2 - 2 * (j - (n + 1) / 2) } }
pub proof fn lem_eo_range(n: int, j: int)
    requires 0 <= j < n
    ensures 0 <= eo(n, j) < n, j < (n + 1) / 2 <==> eo(n, j) % 2 == 0
{}
pub proof fn lem_eo_sum(n: int, g: F)
    requires n >= 1
    ensures sum(n, |j: int| g(eo(n, j))) == sum(n, g)
{
    let ee = (n + 1) / 2; let od = n / 2;
    let f = |j: int| g(eo(n, j));
    sum_split(ee, od, f);
    sum_even_odd_any(n, g);
    let a = |i: int| g(2 * i); let b = |i: int| g(2 * i + 1);
    sum_ext(ee, f, a);
    sum_rev(od, b);
    sum_ext(od, |i: int| f(ee + i), |i: int| b(od - 1 - i));
}
// quarter turns: q = 2n, angle n(2i+1) - m
pub proof fn lem_quarter(n: int, i: int, m: int)
    requires n > 0
    ensures ss(2 * n, n * (2 * i + 1) - m) == sgn(i, cc(2 * n, m)), cc(2 * n, n * (2 * i + 1) - m) == sgn(i, ss(2 * n, m))
{
    let q = 2 * n; let t = i / 2;
    cc_half_minus(q, n, m);
    if i % 2 == 0 {
        assert(n * (2 * i + 1) - m == (n - m) + 2 * q * t) by(nonlinear_arith) requires q == 2 * n, i == 2 * t;
        cc_periods(q, n - m, t);
    } else {
        assert(n * (2 * i + 1) - m == (n - m + q) + 2 * q * t) by(nonlinear_arith) requires q == 2 * n, i == 2 * t + 1;
        cc_periods(q, n - m + q, t);
        cc_add_pi(q, n - m);
    }
}
pub proof fn lem_dst2_alt(x: F, n: int, k: int)
    requires n > 0
    ensures dst2(x, n, n - 1 - k) == dct2(alt(x), n, k)
{
    let f = t_dst2(x, n, n - 1 - k); let g = t_dct2(alt(x), n, k);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by {
        let m = k * (2 * i + 1);
        assert((n - 1 - k + 1) * (2 * i + 1) == n * (2 * i + 1) - m) by(nonlinear_arith) requires m == k * (2 * i + 1);
        lem_quarter(n, i, m);
        mul_neg(x(i), cc(2 * n, m));
    }
    sum_ext(n, f, g);
}
pub proof fn lem_dst3_rev(x: F, n: int, k: int)
    requires n > 0
    ensures dst3(x, n, k) == sgn(k, dct3(revf(x, n), n, k))
{
    let f = t_dst3(x, n, k); let g = t_dct3(revf(x, n), n, k);
    let fr = |j: int| f(n - 1 - j);
    assert forall|j: int| 0 <= j < n implies #[trigger] fr(j) == sgn(k, g(j)) by {
        let m = (2 * k + 1) * j;
        assert((2 * k + 1) * (n - 1 - j + 1) == n * (2 * k + 1) - m) by(nonlinear_arith) requires m == (2 * k + 1) * j;
        lem_quarter(n, k, m);
        mul_neg(hw0(revf(x, n))(j), cc(2 * n, m));
    }
    sum_rev(n, f);
    if k % 2 == 0 { sum_ext(n, fr, g); } else { sum_ext(n, fr, |j: int| -g(j)); sum_neg(n, g); }
}
pub proof fn lem_dct2_ext(x: F, y: F, n: int, k: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] x(i) == y(i)
    ensures dct2(x, n, k) == dct2(y, n, k), dst2(x, n, k) == dst2(y, n, k)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] t_dct2(x, n, k)(i) == t_dct2(y, n, k)(i) by { assert(x(i) == y(i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] t_dst2(x, n, k)(i) == t_dst2(y, n, k)(i) by { assert(x(i) == y(i)); }
    sum_ext(n, t_dct2(x, n, k), t_dct2(y, n, k));
    sum_ext(n, t_dst2(x, n, k), t_dst2(y, n, k));
}
pub proof fn lem_dct3_ext(x: F, y: F, n: int, k: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] x(i) == y(i)
    ensures dct3(x, n, k) == dct3(y, n, k), dst3(x, n, k) == dst3(y, n, k)
{
    if n > 0 { assert(x(0) == y(0)); assert(x(n - 1) == y(n - 1)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] t_dct3(x, n, k)(i) == t_dct3(y, n, k)(i) by { assert(x(i) == y(i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] t_dst3(x, n, k)(i) == t_dst3(y, n, k)(i) by { assert(x(i) == y(i)); }
    sum_ext(n, t_dct3(x, n, k), t_dct3(y, n, k));
    sum_ext(n, t_dst3(x, n, k), t_dst3(y, n, k));
}
// angle of FFT position j against output k: 4j+1 quarter steps
pub proof fn lem_eo_angle(n: int, j: int, k: int)
    requires 0 <= j < n
    ensures cc(2 * n, k * (4 * j + 1)) == cc(2 * n, k * (2 * eo(n, j) + 1))
{
    let ee = (n + 1) / 2; let m = eo(n, j);
    if j >= ee {
        assert(4 * j + 1 == 4 * n - (2 * m + 1));
        assert(k * (4 * n - (2 * m + 1)) == -(k * (2 * m + 1)) + 2 * (2 * n) * k) by(nonlinear_arith);
        cc_periods(2 * n, -(k * (2 * m + 1)), k);
        cc_neg(2 * n, k * (2 * m + 1));
    }
}
pub proof fn poly_dct2(c: real, d: real, v: real, cp: real, sp: real)
    ensures c * (v * cp + 0real * sp) + d * (0real * cp - v * sp) == v * (cp * c - sp * d)
{
    rassoc(v, cp, c); rassoc(v, sp, d); rdist(v, cp * c, sp * d); rneg(d, v * sp);
}
pub proof fn lem_dct2_fft(s: Seq<Cx>, x: F, n: int, k: int)
    requires n >= 1,
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == x(eo(n, j)),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).im@ == 0real,
    ensures fft_re(s, n, k) * cc(2 * n, k) - fft_im(s, n, k) * (-ss(2 * n, k)) == dct2(x, n, k)
{
    let u = |j: int| x(eo(n, j)); let z = fzero();
    lem_fft(s, u, z, n, k);
    let a = t_re(u, z, n, k); let b = t_im(u, z, n, k);
    let c = cc(2 * n, k); let d = ss(2 * n, k);
    let g = t_dct2(x, n, k);
    let ca = |j: int| c * a(j); let db = |j: int| d * b(j);
    sum_scale(n, c, a); sum_scale(n, d, b);
    let f = |j: int| ca(j) + db(j);
    sum_add(n, ca, db);
    let ge = |j: int| g(eo(n, j));
    assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == ge(j) by {
        let p = 2 * j * k;
        cc_scale2(n, p);
        cc_add(2 * n, 2 * p, k);
        assert(2 * p + k == k * (4 * j + 1)) by(nonlinear_arith) requires p == 2 * j * k;
        lem_eo_angle(n, j, k);
        let v = u(j); let cp = cc(n, p); let sp = ss(n, p);
        poly_dct2(c, d, v, cp, sp);
    }
    sum_ext(n, f, ge);
    lem_eo_sum(n, g);
    let A = sum(n, a); let B = sum(n, b);
    mul_comm(c, A); rneg(B, d);
}
// inverse direction
pub open spec fn pre3_re(x: F, n: int) -> F { |j: int| if j == 0 { x(0) * (1real / 2real) } else { (x(j) * cc(2 * n, j) - x(n - j) * (-ss(2 * n, j))) * (1real / 2real) } }
pub open spec fn pre3_im(x: F, n: int) -> F { |j: int| if j == 0 { 0real } else { (x(j) * (-ss(2 * n, j)) + x(n - j) * cc(2 * n, j)) * (1real / 2real) } }
pub proof fn poly_pre3(a: real, b: real, c: real, g: real, ce: real, se: real)
    ensures ((a * c - b * (-g)) * (1real / 2real)) * ce + ((a * (-g) + b * c) * (1real / 2real)) * se
            == (a * (c * ce - g * se) + b * (g * ce + c * se)) / 2real
{
    rneg(b, g); rneg(a, g);
    let u = a * c + b * g; let v = b * c - a * g;
    rdist(ce, a * c, b * g); rdist(se, b * c, a * g);
    rassoc(a, c, ce); rassoc(b, g, ce); rassoc(b, c, se); rassoc(a, g, se);
    rdist(a, c * ce, g * se); rdist(b, g * ce, c * se);
    rassoc(u, 0.5real, ce); rassoc(v, 0.5real, se);
    rassoc(0.5real, u, ce); rassoc(0.5real, v, se);
}
pub proof fn lem_dct3_fft(s: Seq<Cx>, x: F, n: int, m: int)
    requires n >= 1, 0 <= m < n,
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == pre3_re(x, n)(j),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).im@ == pre3_im(x, n)(j),
    ensures fft_re(s, n, m) == dct3(x, n, eo(n, m))
{
    let u = pre3_re(x, n); let v = pre3_im(x, n); let M = 4 * m + 1; let k = eo(n, m);
    lem_fft(s, u, v, n, m);
    let t = t_re(u, v, n, m); let d = t_dct3(x, n, k);
    let f = |j: int| x(j) * cc(2 * n, j * M);
    let t1 = |j: int| t(j + 1); let f1 = |j: int| f(j + 1); let fr = |j: int| f1(n - 1 - 1 - j);
    sum_first(n, t);
    assert forall|j: int| 0 <= j < n - 1 implies #[trigger] t1(j) == (f1(j) + fr(j)) / 2real by {
        let p = j + 1; let e = 2 * p * m;
        cc_scale2(n, e);
        cc_add(2 * n, p, 2 * e);
        assert(p + 2 * e == p * M) by(nonlinear_arith) requires e == 2 * p * m, M == 4 * m + 1;
        // cos of (n - p) M over 2n is sin of p M
        assert((n - p) * M == n * (2 * (2 * m) + 1) - p * M) by(nonlinear_arith) requires M == 4 * m + 1;
        lem_quarter(n, 2 * m, p * M);
        let a = x(p); let b = x(n - p); let c = cc(2 * n, p); let g = ss(2 * n, p); let ce = cc(n, e); let se = ss(n, e);
        poly_pre3(a, b, c, g, ce, se);
    }
    sum_rev(n - 1, f1);
    sum_add(n - 1, f1, fr);
    let h = |j: int| f1(j) + fr(j);
    sum_scale(n - 1, 0.5real, h);
    sum_ext(n - 1, t1, |j: int| 0.5real * h(j));
    // the definition
    sum_first(n, d);
    let d1 = |j: int| d(j + 1);
    assert forall|j: int| 0 <= j < n - 1 implies #[trigger] d1(j) == f1(j) by {
        lem_eo_angle(n, m, j + 1);
        imul_comm(j + 1, 2 * k + 1);
    }
    sum_ext(n - 1, d1, f1);
    assert((2 * k + 1) * 0 == 0 && 2 * 0 * m == 0) by(nonlinear_arith);
    cc_zero(n); cc_zero(2 * n);
    let x0 = x(0);
    assert((x0 * (1real / 2real)) * 1real + 0real * ss(n, 0) == x0 / 2real && (x0 / 2real) * 1real == x0 / 2real) by(nonlinear_arith);
}
