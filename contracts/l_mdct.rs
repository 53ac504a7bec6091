// ===== MDCT =====
pub open spec fn cat(a: F, b: F, n: int) -> F { |i: int| if i < n { a(i) } else { b(i - n) } }
pub open spec fn t_mdct(w: F, a: F, b: F, n: int, k: int) -> F { |i: int| w(i) * cat(a, b, n)(i) * cc(4 * n, (2 * k + 1) * (2 * i + 1 + n)) }
pub open spec fn mdct(w: F, a: F, b: F, n: int, k: int) -> real { sum(2 * n, t_mdct(w, a, b, n, k)) }
pub open spec fn t_imdct(x: F, n: int, i: int) -> F { |k: int| x(k) * cc(4 * n, (2 * i + 1 + n) * (2 * k + 1)) }
pub open spec fn imdct(w: F, x: F, n: int, i: int) -> real { w(i) * sum(n, t_imdct(x, n, i)) }

pub proof fn lem_cf2(cf: real, n: int)
    requires n > 0, cf == (0.5real * pi()) / (n as real)
    ensures cf * (4 * n) as real == pi() * 2real
{
    let p = pi(); let q = n as real;
    assert(cf * q == 0.5real * p) by(nonlinear_arith) requires cf == (0.5real * p) / q, q > 0real;
    assert(cf * (4real * q) == p * 2real) by(nonlinear_arith) requires cf * q == 0.5real * p;
}
pub proof fn real_comm(x: real, w: real, c: real) ensures x * w * c == w * x * c { assert(x * w == w * x) by(nonlinear_arith); }
pub proof fn mul_comm(x: real, y: real) ensures x * y == y * x { assert(x * y == y * x) by(nonlinear_arith); }
pub proof fn lem_mdct_index(n: int, k: int, i: int)
    requires n % 2 == 0
    ensures 2 * (n / 2 + k * (n + 1) + (2 * k + 1) * i) + 1 == (2 * k + 1) * (2 * i + 1 + n)
{
    let h = n / 2;
    assert(2 * (h + k * (n + 1) + (2 * k + 1) * i) + 1 == (2 * k + 1) * (2 * i + 1 + n)) by(nonlinear_arith) requires 2 * h == n;
}
// cos over q of an odd number of half turns plus or minus m
pub proof fn lem_odd_turn(q: int, k: int, m: int)
    requires q > 0
    ensures cc(q, q * (2 * k + 1) + m) == -cc(q, m), cc(q, q * (2 * k + 1) - m) == -cc(q, m),
        ss(q, q * (2 * k + 1) + m) == -ss(q, m), ss(q, q * (2 * k + 1) - m) == ss(q, m)
{
    assert(q * (2 * k + 1) + m == (m + q) + 2 * q * k) by(nonlinear_arith);
    assert(q * (2 * k + 1) - m == (-m + q) + 2 * q * k) by(nonlinear_arith);
    cc_add_pi(q, m); cc_add_pi(q, -m); cc_neg(q, m);
    cc_periods(q, m + q, k); cc_periods(q, -m + q, k);
}
pub proof fn lem_imdct_b(n: int, k: int, tk: int, i: int)
    requires n > 0, n % 2 == 0, tk == k || tk == n - k - 1
    ensures cc(4 * n, 2 * (2 * n + n / 2 - tk - 1 + (n - 1 - 2 * tk) * i) + 1) == cc(4 * n, (2 * (n + k) + 1 + n) * (2 * i + 1))
{
    let h = n / 2; let c = n - 1 - 2 * tk; let q = 4 * n; let m = c * (2 * i + 1);
    assert(2 * (2 * n + h - tk - 1 + c * i) + 1 == q * (2 * 0 + 1) + m) by(nonlinear_arith) requires 2 * h == n, c == n - 1 - 2 * tk, q == 4 * n, m == c * (2 * i + 1);
    lem_odd_turn(q, 0, m);
    lem_odd_turn(q, i, m);
    if tk == k {
        assert((2 * (n + k) + 1 + n) * (2 * i + 1) == q * (2 * i + 1) - m) by(nonlinear_arith) requires c == n - 1 - 2 * k, q == 4 * n, m == c * (2 * i + 1);
    } else {
        assert((2 * (n + k) + 1 + n) * (2 * i + 1) == q * (2 * i + 1) + m) by(nonlinear_arith) requires c == n - 1 - 2 * (n - k - 1), q == 4 * n, m == c * (2 * i + 1);
    }
}

// the window function may return a vector of the wrong length
pub open spec fn bad_window<G: FnOnce(usize) -> Vec<R>>(f: G, n: int) -> bool { exists|w: Vec<R>| #[trigger] f.ensures(((2 * n) as usize,), w) && w@.len() != 2 * n }
// the DCT4 input of the MDCT, and the rows of the inverse MDCT as DCT4 outputs
pub open spec fn fold4(w: F, a: F, b: F, n: int) -> F { |p: int| if p < n / 2 { -(b(n / 2 - 1 - p) * w(n + n / 2 - 1 - p)) - b(n / 2 + p) * w(n + n / 2 + p) }
    else { a(p - n / 2) * w(p - n / 2) - a(n - 1 - (p - n / 2)) * w(n - 1 - (p - n / 2)) } }
pub open spec fn row4(n: int, i: int) -> int { if i < n / 2 { n / 2 + i } else if i < n { n + n / 2 - 1 - i } else if i < n + n / 2 { n + n / 2 - 1 - i } else { i - n - n / 2 } }
// the angle (2i+1+n)(2k+1) over 4n is, up to a sign, the DCT4 angle of row row4(n, i)
pub proof fn lem_row4(n: int, i: int, k: int)
    requires n >= 2, n % 2 == 0, 0 <= i < 2 * n
    ensures 0 <= row4(n, i) < n,
        i < n / 2 ==> cc(4 * n, (2 * i + 1 + n) * (2 * k + 1)) == cc(4 * n, (2 * row4(n, i) + 1) * (2 * k + 1)),
        i >= n / 2 ==> cc(4 * n, (2 * i + 1 + n) * (2 * k + 1)) == -cc(4 * n, (2 * row4(n, i) + 1) * (2 * k + 1)),
{
    let h = n / 2; let q = 4 * n; let p = row4(n, i); let m = (2 * p + 1) * (2 * k + 1);
    assert(n == 2 * h);
    if i < h {
        assert(2 * i + 1 + n == 2 * p + 1);
    } else {
        lem_odd_turn(q, k, m);
        if i < n + h {
            assert(2 * i + 1 + n == q - (2 * p + 1));
            assert((2 * i + 1 + n) * (2 * k + 1) == q * (2 * k + 1) - m) by(nonlinear_arith) requires 2 * i + 1 + n == q - (2 * p + 1), m == (2 * p + 1) * (2 * k + 1);
        } else {
            assert(2 * i + 1 + n == q + (2 * p + 1));
            assert((2 * i + 1 + n) * (2 * k + 1) == q * (2 * k + 1) + m) by(nonlinear_arith) requires 2 * i + 1 + n == q + (2 * p + 1), m == (2 * p + 1) * (2 * k + 1);
        }
    }
}
pub proof fn lem_imdct_row(w: F, x: F, n: int, i: int)
    requires n >= 2, n % 2 == 0, 0 <= i < 2 * n
    ensures 0 <= row4(n, i) < n,
        i < n / 2 ==> imdct(w, x, n, i) == dct4(x, n, row4(n, i)) * w(i),
        i >= n / 2 ==> imdct(w, x, n, i) == -(dct4(x, n, row4(n, i)) * w(i)),
{
    let r = row4(n, i); let t = t_dct4(x, n, r); let f = t_imdct(x, n, i);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == (if i < n / 2 { t(k) } else { -t(k) }) by {
        lem_row4(n, i, k);
        mul_neg(x(k), cc(4 * n, (2 * r + 1) * (2 * k + 1)));
    }
    lem_row4(n, i, 0);
    if i < n / 2 {
        sum_ext(n, f, t);
        mul_comm(w(i), dct4(x, n, r));
    } else {
        sum_ext(n, f, |k: int| -t(k));
        sum_neg(n, t);
        let d = dct4(x, n, r); let wi = w(i);
        assert(wi * (-d) == -(d * wi)) by(nonlinear_arith);
    }
}
pub proof fn lem_mdct_fold(w: F, a: F, b: F, n: int, k: int)
    requires n >= 2, n % 2 == 0, 0 <= k < n
    ensures mdct(w, a, b, n, k) == dct4(fold4(w, a, b, n), n, k)
{
    let h = n / 2; let q = 4 * n; let K = 2 * k + 1;
    assert(n == 2 * h);
    let t = t_mdct(w, a, b, n, k);
    let y = fold4(w, a, b, n);
    let d = t_dct4(y, n, k);
    // four quarters of the MDCT sum
    let t0 = t; let t1 = |i: int| t(h + i); let t2 = |i: int| t(n + i); let t3 = |i: int| t(n + h + i);
    sum_split(n, n, t);
    sum_split(h, h, t);
    sum_split(h, h, t2);
    sum_ext(h, |i: int| t2(h + i), t3);
    let r1 = |i: int| t1(h - 1 - i); let r2 = |i: int| t2(h - 1 - i);
    sum_rev(h, t1); sum_rev(h, t2);
    sum_add(h, t0, r1); sum_add(h, r2, t3);
    sum_split(h, h, d);
    let d1 = |i: int| d(h + i);
    assert forall|i: int| 0 <= i < h implies #[trigger] d(i) == r2(i) + t3(i) by {
        let c = cc(q, K * (2 * i + 1));
        let i2 = n + h - 1 - i; let i3 = n + h + i;
        lem_row4(n, i2, k); lem_row4(n, i3, k);
        assert(row4(n, i2) == i && row4(n, i3) == i);
        imul_comm(K, 2 * i + 1); imul_comm(K, 2 * i2 + 1 + n); imul_comm(K, 2 * i3 + 1 + n);
        assert(r2(i) == t(i2));
        assert(t3(i) == t(i3));
        let u = b(h - 1 - i); let v = w(n + h - 1 - i); let u2 = b(h + i); let v2 = w(n + h + i);
        assert((-(u * v) - u2 * v2) * c == v * u * (-c) + v2 * u2 * (-c)) by(nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < h implies #[trigger] d1(i) == t0(i) + r1(i) by {
        let p = h + i;
        let c = cc(q, K * (2 * p + 1));
        let i1 = n - 1 - i;
        lem_row4(n, i, k); lem_row4(n, i1, k);
        assert(row4(n, i) == p && row4(n, i1) == p);
        imul_comm(K, 2 * p + 1); imul_comm(K, 2 * i + 1 + n); imul_comm(K, 2 * i1 + 1 + n);
        assert(r1(i) == t(i1));
        let u = a(i); let v = w(i); let u2 = a(i1); let v2 = w(i1);
        assert((u * v - u2 * v2) * c == v * u * c + v2 * u2 * (-c)) by(nonlinear_arith);
    }
    sum_ext(h, d, |i: int| r2(i) + t3(i));
    sum_ext(h, d1, |i: int| t0(i) + r1(i));
}
pub proof fn imul_comm(x: int, y: int) ensures x * y == y * x { assert(x * y == y * x) by(nonlinear_arith); }
pub proof fn lem_dct4_ext(x: F, y: F, n: int, k: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] x(i) == y(i)
    ensures dct4(x, n, k) == dct4(y, n, k)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] t_dct4(x, n, k)(i) == t_dct4(y, n, k)(i) by { assert(x(i) == y(i)); }
    sum_ext(n, t_dct4(x, n, k), t_dct4(y, n, k));
}
