// ===== type 4 of odd length through one FFT of the same length =====
pub open spec fn ip4(n: int, j: int) -> int { n / 2 + 4 * j }
pub open spec fn to4(n: int, j: int) -> int { let p = ip4(n, j); if p < n { p } else if p < 2 * n { 2 * n - 1 - p } else if p < 3 * n { p - 2 * n } else if p < 4 * n { 4 * n - 1 - p } else { p - 4 * n } }
pub open spec fn neg4(n: int, j: int) -> bool { let p = ip4(n, j); n <= p < 3 * n }
pub open spec fn inv4(n: int, i: int) -> int {
    let e = i - n / 2;
    if e % 2 == 0 { if e % 4 == 0 { if e >= 0 { e / 4 } else { (e + 4 * n) / 4 } } else { (e + 2 * n) / 4 } } else { if (n - e) % 4 == 0 { (n - e) / 4 } else { (3 * n - e) / 4 } }
}
pub closed spec fn xf4(x: F, n: int) -> F { |j: int| if neg4(n, j) { -x(to4(n, j)) } else { x(to4(n, j)) } }
pub proof fn lem_xf4_at(x: F, n: int, j: int, t: int)
    requires n >= 1, n % 2 == 1, 0 <= j < n, t * n <= ip4(n, j) < (t + 1) * n, 0 <= t <= 4
    ensures ({ let r = ip4(n, j) - t * n; 0 <= r < n && xf4(x, n)(j) == (if t == 0 || t == 4 { x(r) } else if t == 1 { -x(n - 1 - r) } else if t == 2 { -x(r) } else { x(n - 1 - r) }) })
{
    if t == 0 { assert(t * n == 0) by(nonlinear_arith) requires t == 0; assert((t + 1) * n == n) by(nonlinear_arith) requires t == 0; } else if t == 1 { assert(t * n == n && (t + 1) * n == 2 * n); } else if t == 2 { assert(t * n == 2 * n && (t + 1) * n == 3 * n); } else if t == 3 { assert(t * n == 3 * n && (t + 1) * n == 4 * n); } else { assert(t == 4); assert(t * n == 4 * n && (t + 1) * n == 5 * n); }
}
pub proof fn lem_to4(n: int, j: int)
    requires n >= 1, n % 2 == 1, 0 <= j < n
    ensures 0 <= to4(n, j) < n, inv4(n, to4(n, j)) == j
{
    let h = n / 2; assert(n == 2 * h + 1);
}
pub proof fn lem_inv4(n: int, i: int)
    requires n >= 1, n % 2 == 1, 0 <= i < n
    ensures 0 <= inv4(n, i) < n, to4(n, inv4(n, i)) == i
{
    let h = n / 2; assert(n == 2 * h + 1);
}
pub proof fn cc_odd_turn(q: int, h: int, a: int)
    requires q > 0, h % 2 == 1
    ensures cc(q, h * q - a) == -cc(q, a), cc(q, a - h * q) == -cc(q, a)
{
    let k = h / 2;
    assert(h * q - a == (q - a) + 2 * q * k) by(nonlinear_arith) requires h == 2 * k + 1;
    cc_periods(q, q - a, k); cc_pi_minus(q, a); cc_neg(q, h * q - a);
    assert(a - h * q == -(h * q - a));
}
pub proof fn lem_x4_term(x: F, n: int, k: int, j: int)
    requires n >= 1, n % 2 == 1, 0 <= j < n
    ensures xf4(x, n)(j) * cc(4 * n, (2 * k + 1) * (n + 8 * j)) == t_dct4(x, n, k)(to4(n, j))
{
    let q = 4 * n; let h = 2 * k + 1; let p = ip4(n, j); let i = to4(n, j); let a = h * (n + 8 * j);
    assert(2 * p + 1 == n + 8 * j);
    let b = h * (2 * i + 1);
    if p < n { assert(b == a); }
    else if p < 2 * n {
        assert(b == h * q - a) by(nonlinear_arith) requires b == h * (2 * i + 1), a == h * (2 * p + 1), i == 2 * n - 1 - p, q == 4 * n;
        cc_odd_turn(q, h, a); mul_neg(x(i), cc(q, a));
    } else if p < 3 * n {
        assert(b == a - h * q) by(nonlinear_arith) requires b == h * (2 * i + 1), a == h * (2 * p + 1), i == p - 2 * n, q == 4 * n;
        cc_odd_turn(q, h, a); mul_neg(x(i), cc(q, a));
    } else if p < 4 * n {
        assert(b == -a + 2 * q * h) by(nonlinear_arith) requires b == h * (2 * i + 1), a == h * (2 * p + 1), i == 4 * n - 1 - p, q == 4 * n;
        cc_periods(q, -a, h); cc_neg(q, a);
    } else {
        assert(b == a + 2 * q * (-h)) by(nonlinear_arith) requires b == h * (2 * i + 1), a == h * (2 * p + 1), i == p - 4 * n, q == 4 * n;
        cc_periods(q, a, -h);
    }
}
pub proof fn poly_t4(x: real, c: real, s: real, u: real, v: real)
    ensures x * (c * u - s * v) == (x * u + 0real * v) * c + (0real * u - x * v) * s
{
    rdist(x, c * u, s * v); rassoc(x, u, c); rassoc(x, v, s); mul_comm(c, u); mul_comm(s, v); mul_comm(x, c * u); mul_comm(x, s * v);
    assert(x * (c * u - s * v) == (x * u + 0real * v) * c + (0real * u - x * v) * s) by(nonlinear_arith);
}
// the FFT bin 2k+1 turned by (2k+1) pi / 4
pub proof fn lem_t4fft(s: Seq<Cx>, x: F, n: int, k: int)
    requires n >= 1, n % 2 == 1,
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == xf4(x, n)(j) && s[j].im@ == 0real,
    ensures dct4(x, n, k) == fft_re(s, n, 2 * k + 1) * cc(4, 2 * k + 1) + fft_im(s, n, 2 * k + 1) * ss(4, 2 * k + 1)
{
    let h = 2 * k + 1; let f = t_dct4(x, n, k); let to = |j: int| to4(n, j); let inv = |i: int| inv4(n, i);
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] to(j) < n && inv(to(j)) == j by { lem_to4(n, j); }
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] inv(i) < n && to(inv(i)) == i by { lem_inv4(n, i); }
    sum_perm(n, f, to, inv);
    let ft = |j: int| f(to(j));
    lem_fft(s, xf4(x, n), fzero(), n, h);
    let a = t_re(xf4(x, n), fzero(), n, h); let b = t_im(xf4(x, n), fzero(), n, h);
    let c = cc(4, h); let d = ss(4, h);
    lin2(n, c, a, d, b);
    let r = |i: int| a(i) * c + b(i) * d;
    assert forall|j: int| 0 <= j < n implies #[trigger] ft(j) == r(j) by {
        lem_x4_term(x, n, k, j);
        assert(h * (n + 8 * j) == n * h + 4 * (2 * j * h)) by(nonlinear_arith);
        cc_add(4 * n, n * h, 4 * (2 * j * h));
        cc_scale(n, 4, h); cc_scale(4, n, 2 * j * h);
        assert(n * 4 == 4 * n);
        poly_t4(xf4(x, n)(j), c, d, cc(n, 2 * j * h), ss(n, 2 * j * h));
    }
    sum_ext(n, ft, r);
}
// bins of a real sequence: index 2n - m is the conjugate of m, the imaginary part of bins 0 and n vanishes
pub proof fn lem_fft_conj(s: Seq<Cx>, n: int, m: int)
    requires n >= 1, forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).im@ == 0real
    ensures fft_re(s, n, 2 * n - m) == fft_re(s, n, m), fft_im(s, n, 2 * n - m) == -fft_im(s, n, m)
{
    let u = |j: int| s[j].re@;
    lem_fft(s, u, fzero(), n, m); lem_fft(s, u, fzero(), n, 2 * n - m);
    let a = t_re(u, fzero(), n, m); let b = t_im(u, fzero(), n, m); let a2 = t_re(u, fzero(), n, 2 * n - m); let b2 = t_im(u, fzero(), n, 2 * n - m);
    let nb = |j: int| -b(j);
    assert forall|j: int| 0 <= j < n implies #[trigger] a2(j) == a(j) && b2(j) == nb(j) by {
        assert(2 * j * (2 * n - m) == -(2 * j * m) + 2 * n * (2 * j)) by(nonlinear_arith);
        cc_periods(n, -(2 * j * m), 2 * j); cc_neg(n, 2 * j * m);
        let S = ss(n, 2 * j * m); mul_neg(u(j), S); rzero(S);
        assert(0real * (-S) == 0real) by(nonlinear_arith);
        assert(u(j) * (-S) == -(u(j) * S)) by(nonlinear_arith);
        rzero(cc(n, 2 * j * m));
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] b2(j) == nb(j) by { assert(a2(j) == a(j)); }
    sum_ext(n, a2, a); sum_ext(n, b2, nb); sum_neg(n, b);
}
pub proof fn lem_fft_dc(s: Seq<Cx>, n: int)
    requires n >= 1, forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).im@ == 0real
    ensures fft_re(s, n, n) == fft_re(s, n, 0), fft_im(s, n, n) == 0real
{
    let u = |j: int| s[j].re@;
    lem_fft(s, u, fzero(), n, n); lem_fft(s, u, fzero(), n, 0);
    let a = t_re(u, fzero(), n, n); let b = t_im(u, fzero(), n, n); let a0 = t_re(u, fzero(), n, 0);
    assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == a0(j) && b(j) == 0real by {
        assert(2 * j * n == 0 + 2 * n * j) by(nonlinear_arith);
        assert(2 * j * 0 == 0);
        cc_periods(n, 0, j); cc_zero(n); rzero(u(j)); rzero(cc(n, 0));
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] b(j) == 0real by { assert(a(j) == a0(j)); }
    sum_ext(n, a, a0); sum_zero(n, b);
}
// eighth turns
pub open spec fn sg(i: int) -> real { if i % 2 == 0 { 1real } else { -1real } }
pub proof fn lem_cc4(i: int)
    ensures cc(4, 4 * i + 1) == sg(i) * fr2(), ss(4, 4 * i + 1) == sg(i) * fr2(), cc(4, 4 * i + 3) == -(sg(i) * fr2()), ss(4, 4 * i + 3) == sg(i) * fr2()
{
    lem_fr2(); cc_pi_minus(4, 1);
    let t = i / 2; let f = fr2();
    if i % 2 == 0 {
        assert(4 * i + 1 == 1 + 2 * 4 * t && 4 * i + 3 == 3 + 2 * 4 * t) by(nonlinear_arith) requires i == 2 * t;
        cc_periods(4, 1, t); cc_periods(4, 3, t);
    } else {
        assert(4 * i + 1 == 5 + 2 * 4 * t && 4 * i + 3 == 7 + 2 * 4 * t) by(nonlinear_arith) requires i == 2 * t + 1;
        cc_add_pi(4, 1); cc_add_pi(4, 3); cc_periods(4, 5, t); cc_periods(4, 7, t);
        assert((-1real) * f == -f) by(nonlinear_arith);
    }
}
pub open spec fn sn4(n: int) -> real { if n % 4 == 1 { 1real } else { -1real } }
// outputs of one loop step: w = (+-)sqrt(1/2)
pub proof fn lem_t4_out(s: Seq<Cx>, x: F, n: int, i: int, w: real)
    requires n >= 1, n % 2 == 1, w == sg(i) * fr2(),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == xf4(x, n)(j) && s[j].im@ == 0real,
    ensures ({ let a = fft_re(s, n, 4 * i + 1); let b = fft_im(s, n, 4 * i + 1); let c = fft_re(s, n, 4 * i + 3); let d = fft_im(s, n, 4 * i + 3);
        &&& dct4(x, n, 2 * i) == a * w + b * w
        &&& dct4(x, n, 2 * i + 1) == -(c * w) + d * w
        &&& dct4(x, n, n - 2 * i - 2) == (c * w + d * w) * sn4(n)
        &&& dct4(x, n, n - 2 * i - 1) == (a * w - b * w) * sn4(n) })
{
    let m1 = 4 * i + 1; let m2 = 4 * i + 3;
    let a = fft_re(s, n, m1); let b = fft_im(s, n, m1); let c = fft_re(s, n, m2); let d = fft_im(s, n, m2);
    lem_cc4(i);
    lem_t4fft(s, x, n, 2 * i); lem_t4fft(s, x, n, 2 * i + 1);
    assert(2 * (2 * i) + 1 == m1 && 2 * (2 * i + 1) + 1 == m2);
    mul_neg(c, w); assert(c * (-w) == -(c * w)) by(nonlinear_arith);
    let k3 = n - 2 * i - 2; let k4 = n - 2 * i - 1;
    lem_t4fft(s, x, n, k3); lem_t4fft(s, x, n, k4);
    assert(2 * k3 + 1 == 2 * n - m2 && 2 * k4 + 1 == 2 * n - m1);
    lem_fft_conj(s, n, m2); lem_fft_conj(s, n, m1);
    // cos(n pi / 2 - A) = s_n sin A for odd n
    let g = n / 2;
    lem_quarter(2, g, m1); lem_quarter(2, g, m2);
    assert(2 * (2 * g + 1) == 2 * n);
    assert(cc(4, 2 * n - m1) == sgn(g, w) && ss(4, 2 * n - m1) == sgn(g, w) && cc(4, 2 * n - m2) == sgn(g, w) && ss(4, 2 * n - m2) == sgn(g, -w));
    assert(g % 2 == 0 <==> n % 4 == 1);
    assert((-b) * w == -(b * w) && (-b) * (-w) == b * w && a * (-w) == -(a * w) && (-d) * w == -(d * w) && (-d) * (-w) == d * w) by(nonlinear_arith);
    let p = c * w + d * w; let q = a * w - b * w;
    assert(p * 1real == p && p * (-1real) == -p && q * 1real == q && q * (-1real) == -q) by(nonlinear_arith);
}
// the middle outputs
pub proof fn lem_t4_mid(s: Seq<Cx>, x: F, n: int, w: real)
    requires n >= 1, n % 2 == 1, w == sg(n / 4) * fr2(),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == xf4(x, n)(j) && s[j].im@ == 0real,
    ensures ({ let a = fft_re(s, n, n - 2); let b = fft_im(s, n, n - 2); let z = fft_re(s, n, 0);
        &&& n % 4 == 1 ==> dct4(x, n, n / 2) == z * w
        &&& n % 4 == 3 ==> dct4(x, n, n / 2) == -(z * w) && dct4(x, n, n / 2 - 1) == a * w + b * w && dct4(x, n, n / 2 + 1) == -(a * w) + b * w })
{
    let i = n / 4; let h = n / 2; let z = fft_re(s, n, 0);
    lem_cc4(i); lem_fft_dc(s, n); lem_t4fft(s, x, n, h);
    assert(2 * h + 1 == n);
    rzero(ss(4, n));
    if n % 4 == 1 { assert(4 * i + 1 == n); }
    else {
        assert(4 * i + 3 == n);
        assert(z * (-w) == -(z * w)) by(nonlinear_arith);
        let a = fft_re(s, n, n - 2); let b = fft_im(s, n, n - 2);
        lem_t4fft(s, x, n, h - 1); lem_t4fft(s, x, n, h + 1);
        assert(2 * (h - 1) + 1 == n - 2 && 2 * (h + 1) + 1 == 2 * n - (n - 2) && n - 2 == 4 * i + 1 && 2 * n - (n - 2) == 4 * (i + 1) + 1);
        lem_fft_conj(s, n, n - 2); lem_cc4(i + 1);
        assert(sg(i + 1) * fr2() == -w) by(nonlinear_arith) requires w == sg(i) * fr2(), sg(i + 1) == -sg(i);
        assert(a * (-w) == -(a * w) && (-b) * (-w) == b * w) by(nonlinear_arith);
    }
}
// DST4 is DCT4 of the reversed input with alternating signs
pub proof fn lem_dst4_rev(x: F, n: int, k: int)
    requires n > 0
    ensures dst4(x, n, k) == sgn(k, dct4(revf(x, n), n, k))
{
    let f = t_dst4(x, n, k); let g = t_dct4(revf(x, n), n, k); let fr = |i: int| f(n - 1 - i);
    let ng = |i: int| -g(i);
    assert forall|i: int| 0 <= i < n implies #[trigger] fr(i) == sgn(k, g(i)) by {
        let m = (2 * k + 1) * (2 * i + 1); let j = n - 1 - i;
        assert((2 * k + 1) * (2 * j + 1) == (2 * n) * (2 * k + 1) - m) by(nonlinear_arith) requires j == n - 1 - i, m == (2 * k + 1) * (2 * i + 1);
        lem_quarter(2 * n, k, m);
        let c = cc(4 * n, m); mul_neg(x(j), c); assert(x(j) * (-c) == -(x(j) * c)) by(nonlinear_arith);
        assert(2 * (2 * n) == 4 * n);
    }
    sum_rev(n, f);
    if k % 2 == 0 { sum_ext(n, fr, g); } else { sum_ext(n, fr, ng); sum_neg(n, g); }
}
pub proof fn lem_scale4(r: real)
    requires r == sqrtr(2real) * (1real / 2real)
    ensures r == fr2()
{
    lem_fr2(); ax_sqrt(2real);
    let q = sqrtr(2real); let f = fr2();
    assert(f == 1real / q);
    assert(f * q == 1real) by(nonlinear_arith) requires f == 1real / q, q > 0real;
    assert(r == f) by(nonlinear_arith) requires r == q * (1real / 2real), f * q == 1real, q * q == 2real, q > 0real;
}

// the same for DST4: x is the signal, the FFT input was built from the reversed signal
pub proof fn lem_t4s_out(s: Seq<Cx>, x: F, n: int, i: int, w: real)
    requires n >= 1, n % 2 == 1, w == sg(i) * fr2(),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == xf4(revf(x, n), n)(j) && s[j].im@ == 0real,
    ensures ({ let a = fft_re(s, n, 4 * i + 1); let b = fft_im(s, n, 4 * i + 1); let c = fft_re(s, n, 4 * i + 3); let d = fft_im(s, n, 4 * i + 3);
        &&& dst4(x, n, 2 * i) == a * w + b * w
        &&& dst4(x, n, 2 * i + 1) == c * w - d * w
        &&& dst4(x, n, n - 2 * i - 2) == -(c * w + d * w) * sn4(n)
        &&& dst4(x, n, n - 2 * i - 1) == (a * w - b * w) * sn4(n) })
{
    lem_t4_out(s, revf(x, n), n, i, w);
    let c = fft_re(s, n, 4 * i + 3); let d = fft_im(s, n, 4 * i + 3); mul_neg(c * w + d * w, sn4(n));
    lem_dst4_rev(x, n, 2 * i); lem_dst4_rev(x, n, 2 * i + 1); lem_dst4_rev(x, n, n - 2 * i - 2); lem_dst4_rev(x, n, n - 2 * i - 1);
}
pub proof fn lem_t4s_mid(s: Seq<Cx>, x: F, n: int, w: real)
    requires n >= 1, n % 2 == 1, w == sg(n / 4) * fr2(),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == xf4(revf(x, n), n)(j) && s[j].im@ == 0real,
    ensures ({ let a = fft_re(s, n, n - 2); let b = fft_im(s, n, n - 2); let z = fft_re(s, n, 0);
        &&& dst4(x, n, n / 2) == z * w
        &&& n % 4 == 3 ==> dst4(x, n, n / 2 - 1) == a * w + b * w && dst4(x, n, n / 2 + 1) == -(a * w) + b * w })
{
    lem_t4_mid(s, revf(x, n), n, w);
    lem_dst4_rev(x, n, n / 2); lem_dst4_rev(x, n, n / 2 - 1); lem_dst4_rev(x, n, n / 2 + 1);
}
