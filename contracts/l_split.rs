// ===== splitting: type 2/3 of length 2h through h and q = h/2, type 4 of length 2m through type 3 of m =====
pub open spec fn fold_sum(x: F, n: int) -> F { |i: int| x(i) + x(n - 1 - i) }
pub open spec fn fold_dif(x: F, n: int) -> F { |i: int| x(i) - x(n - 1 - i) }
pub open spec fn evf(x: F) -> F { |i: int| x(2 * i) }
pub open spec fn odf(x: F) -> F { |i: int| x(2 * i + 1) }
pub proof fn sum_fold(h: int, f: F)
    requires h >= 0
    ensures sum(2 * h, f) == sum(h, |i: int| f(i) + f(2 * h - 1 - i))
{
    let b = |i: int| f(h + i); let br = |i: int| b(h - 1 - i); let c = |i: int| f(2 * h - 1 - i);
    sum_split(h, h, f);
    assert(h + h == 2 * h);
    sum_rev(h, b);
    sum_ext(h, br, c);
    sum_add(h, f, c);
    sum_ext(h, |i: int| f(i) + c(i), |i: int| f(i) + f(2 * h - 1 - i));
}
pub proof fn lem_dct2_even(x: F, h: int, k: int)
    requires h > 0
    ensures dct2(x, 2 * h, 2 * k) == dct2(fold_sum(x, 2 * h), h, k)
{
    let n = 2 * h; let f = t_dct2(x, n, 2 * k); let g = t_dct2(fold_sum(x, n), h, k);
    sum_fold(h, f);
    let ff = |i: int| f(i) + f(2 * h - 1 - i);
    assert forall|i: int| 0 <= i < h implies #[trigger] ff(i) == g(i) by {
        let m = k * (2 * i + 1);
        assert((2 * k) * (2 * i + 1) == 2 * m) by(nonlinear_arith) requires m == k * (2 * i + 1);
        cc_scale2(2 * h, m);
        let j = 2 * h - 1 - i;
        assert((2 * k) * (2 * j + 1) == -(2 * m) + 2 * (2 * n) * k) by(nonlinear_arith) requires m == k * (2 * i + 1), j == 2 * h - 1 - i, n == 2 * h;
        cc_periods(2 * n, -(2 * m), k); cc_neg(2 * n, 2 * m);
        rdist(cc(2 * h, m), x(i), x(j));
    }
    sum_ext(h, ff, g);
}
pub proof fn lem_dct2_odd(x: F, h: int, k: int)
    requires h > 0
    ensures dct2(x, 2 * h, 2 * k + 1) == dct4(fold_dif(x, 2 * h), h, k)
{
    let n = 2 * h; let f = t_dct2(x, n, 2 * k + 1); let g = t_dct4(fold_dif(x, n), h, k);
    sum_fold(h, f);
    let ff = |i: int| f(i) + f(2 * h - 1 - i);
    assert forall|i: int| 0 <= i < h implies #[trigger] ff(i) == g(i) by {
        let m = (2 * k + 1) * (2 * i + 1);
        let j = 2 * h - 1 - i;
        assert((2 * k + 1) * (2 * j + 1) == (2 * n - m) + 2 * (2 * n) * k) by(nonlinear_arith) requires m == (2 * k + 1) * (2 * i + 1), j == 2 * h - 1 - i, n == 2 * h;
        cc_periods(2 * n, 2 * n - m, k); cc_pi_minus(2 * n, m);
        let c = cc(2 * n, m);
        mul_neg(x(j), c);
        rdist(c, x(i), x(j));
    }
    sum_ext(h, ff, g);
}
// the two half-length inputs of a type 4
pub open spec fn ci(d: F, q: int) -> F { |i: int| d(i) * cc(8 * q, 2 * i + 1) + d(2 * q - 1 - i) * ss(8 * q, 2 * i + 1) }
pub open spec fn si(d: F, q: int) -> F { |i: int| d(2 * q - 1 - i) * cc(8 * q, 2 * i + 1) - d(i) * ss(8 * q, 2 * i + 1) }
pub proof fn poly_d4(a: real, b: real, c: real, s: real, cp: real, sp: real)
    ensures (a * c + b * s) * cp + (b * c - a * s) * sp == a * (cp * c - sp * s) + b * (cp * s + sp * c),
        (a * c + b * s) * cp - (b * c - a * s) * sp == a * (cp * c + sp * s) + b * (cp * s - sp * c)
{
    rdist(cp, a * c, b * s); rdist(sp, b * c, a * s);
    rassoc(a, c, cp); rassoc(b, s, cp); rassoc(b, c, sp); rassoc(a, s, sp);
    rdist(a, cp * c, sp * s); rdist(b, cp * s, sp * c);
}
pub proof fn lem_dct4_halves(d: F, q: int, k: int)
    requires q > 0
    ensures dct4(d, 2 * q, 2 * k) == dct2(ci(d, q), q, k) + dst2(si(d, q), q, k - 1),
        dct4(d, 2 * q, 2 * k - 1) == dct2(ci(d, q), q, k) - dst2(si(d, q), q, k - 1)
{
    let n = 2 * q; let e = t_dct2(ci(d, q), q, k); let o = t_dst2(si(d, q), q, k - 1);
    let f = t_dct4(d, n, 2 * k); let g = t_dct4(d, n, 2 * k - 1);
    sum_fold(q, f); sum_fold(q, g); sum_add(q, e, o); sum_sub(q, e, o);
    let ff = |i: int| f(i) + f(2 * q - 1 - i); let gg = |i: int| g(i) + g(2 * q - 1 - i);
    let ep = |i: int| e(i) + o(i); let em = |i: int| e(i) - o(i);
    assert forall|i: int| #![trigger ff(i)] #![trigger gg(i)] 0 <= i < q implies ff(i) == ep(i) && gg(i) == em(i) by {
        let a = 2 * i + 1; let p = k * a; let j = 2 * q - 1 - i; let Q = 8 * q;
        assert(k - 1 + 1 == k);
        assert(4 * n == Q);
        // cos(4 k a / 8q) and sin
        cc_scale(4, 2 * q, p);
        assert((2 * (2 * k) + 1) * a == 4 * p + a) by(nonlinear_arith) requires p == k * a;
        assert((2 * (2 * k - 1) + 1) * a == 4 * p - a) by(nonlinear_arith) requires p == k * a;
        let b = 2 * j + 1;
        assert((2 * (2 * k) + 1) * b == ((4 * q) - (4 * p + a)) + 2 * Q * k) by(nonlinear_arith) requires p == k * a, b == 4 * q - a, Q == 8 * q;
        assert((2 * (2 * k - 1) + 1) * b == (-((4 * q) + (4 * p - a))) + 2 * Q * k) by(nonlinear_arith) requires p == k * a, b == 4 * q - a, Q == 8 * q;
        cc_periods(Q, 4 * q - (4 * p + a), k); cc_periods(Q, -(4 * q + (4 * p - a)), k);
        cc_half_minus(Q, 4 * q, 4 * p + a);
        cc_neg(Q, 4 * q + (4 * p - a)); cc_half_minus(Q, 4 * q, -(4 * p - a)); cc_neg(Q, 4 * p - a);
        assert(4 * q - (-(4 * p - a)) == 4 * q + (4 * p - a));
        cc_add(Q, 4 * p, a); cc_add(Q, 4 * p, -a); cc_neg(Q, a);
        let c = cc(Q, a); let s = ss(Q, a); let cp = cc(Q, 4 * p); let sp = ss(Q, 4 * p);
        mul_neg(cp, s); mul_neg(sp, s);
        poly_d4(d(i), d(j), c, s, cp, sp);
        assert(f(i) == d(i) * (cp * c - sp * s));
        assert(f(j) == d(j) * (sp * c + cp * s));
        assert(g(i) == d(i) * (cp * c + sp * s));
        assert(g(j) == d(j) * (-(sp * c - cp * s)));
    }
    sum_ext(q, ff, ep); sum_ext(q, gg, em);
}
pub proof fn lem_dct2_rev(y: F, n: int, k: int)
    requires n > 0
    ensures dct2(revf(y, n), n, k) == sgn(k, dct2(y, n, k))
{
    let f = t_dct2(revf(y, n), n, k); let g = t_dct2(y, n, k); let gr = |i: int| g(n - 1 - i);
    sum_rev(n, g);
    let q = 2 * n; let t = k / 2;
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == sgn(k, gr(i)) by {
        let m = k * (2 * i + 1); let j = n - 1 - i;
        if k % 2 == 0 {
            assert(k * (2 * j + 1) == -m + 2 * q * t) by(nonlinear_arith) requires m == k * (2 * i + 1), j == n - 1 - i, q == 2 * n, k == 2 * t;
            cc_periods(q, -m, t); cc_neg(q, m);
        } else {
            assert(k * (2 * j + 1) == (q - m) + 2 * q * t) by(nonlinear_arith) requires m == k * (2 * i + 1), j == n - 1 - i, q == 2 * n, k == 2 * t + 1;
            cc_periods(q, q - m, t); cc_pi_minus(q, m);
            mul_neg(y(j), cc(q, m));
        }
    }
    if k % 2 == 0 { sum_ext(n, f, gr); } else { sum_ext(n, f, |i: int| -gr(i)); sum_neg(n, gr); }
}
// at k = n the type 2 sum vanishes
pub proof fn lem_dct2_top(y: F, n: int)
    requires n > 0
    ensures dct2(y, n, n) == 0real
{
    let f = t_dct2(y, n, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == 0real by {
        lem_quarter(n, i, 0); cc_zero(2 * n);
        assert(n * (2 * i + 1) - 0 == n * (2 * i + 1));
        rzero(y(i));
    }
    sum_zero(n, f);
}
pub proof fn lem_dst2_zero(y: F, n: int)
    requires n > 0
    ensures dst2(y, n, -1) == 0real
{
    let f = t_dst2(y, n, -1);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == 0real by {
        assert((-1 + 1) * (2 * i + 1) == 0) by(nonlinear_arith);
        cc_zero(2 * n); rzero(y(i));
    }
    sum_zero(n, f);
}
// the odd array of the split radix: reversed with alternating signs
pub open spec fn sr_odd(d: F, q: int) -> F { revf(alt(si(d, q)), q) }
pub proof fn lem_sr_odd(d: F, q: int, k: int)
    requires q > 0
    ensures dst2(si(d, q), q, k - 1) == sgn(q - k, dct2(sr_odd(d, q), q, q - k))
{
    lem_dst2_alt(si(d, q), q, q - k);
    assert(q - 1 - (q - k) == k - 1);
    lem_dct2_rev(alt(si(d, q)), q, q - k);
}
// everything one split step of DCT2 produces
pub proof fn lem_split2(x: F, q: int, k: int)
    requires q > 0
    ensures ({ let d = fold_dif(x, 4 * q); let e = dct2(ci(d, q), q, k); let o = sgn(q - k, dct2(sr_odd(d, q), q, q - k));
        dct2(x, 4 * q, 4 * k + 1) == e + o && dct2(x, 4 * q, 4 * k - 1) == e - o }),
        dct2(x, 4 * q, 4 * k) == dct2(fold_sum(x, 4 * q), 2 * q, 2 * k),
        dct2(x, 4 * q, 4 * k + 2) == dct2(fold_sum(x, 4 * q), 2 * q, 2 * k + 1),
{
    let d = fold_dif(x, 4 * q);
    lem_dct2_odd(x, 2 * q, 2 * k); lem_dct2_odd(x, 2 * q, 2 * k - 1);
    lem_dct4_halves(d, q, k);
    lem_sr_odd(d, q, k);
    lem_dct2_even(x, 2 * q, 2 * k); lem_dct2_even(x, 2 * q, 2 * k + 1);
}
pub proof fn lem_split2_ends(x: F, q: int)
    requires q > 0
    ensures ({ let d = fold_dif(x, 4 * q);
        dct2(x, 4 * q, 1) == dct2(ci(d, q), q, 0) && dct2(x, 4 * q, 4 * q - 1) == -dct2(sr_odd(d, q), q, 0) }),
{
    let d = fold_dif(x, 4 * q);
    lem_dct2_odd(x, 2 * q, 0);
    lem_dct4_halves(d, q, 0);
    lem_dst2_zero(si(d, q), q);
    lem_split2(x, q, q);
    lem_dct2_top(ci(d, q), q);
}
// ===== type 3 =====
pub proof fn lem_dct3_split(x: F, h: int, k: int)
    requires h > 0
    ensures dct3(x, 2 * h, k) == dct3(evf(x), h, k) + dct4(odf(x), h, k),
        dct3(x, 2 * h, 2 * h - 1 - k) == dct3(evf(x), h, k) - dct4(odf(x), h, k),
{
    let n = 2 * h; let f = t_dct3(x, n, k); let g = t_dct3(x, n, n - 1 - k);
    let e = t_dct3(evf(x), h, k); let o = t_dct4(odf(x), h, k);
    sum_even_odd(h, f); sum_even_odd(h, g);
    let fe = |i: int| f(2 * i); let fo = |i: int| f(2 * i + 1); let ge = |i: int| g(2 * i); let go = |i: int| g(2 * i + 1);
    let kk = 2 * k + 1; let k2 = 2 * (n - 1 - k) + 1;
    assert forall|i: int| #![trigger fe(i)] #![trigger ge(i)] 0 <= i < h implies fe(i) == e(i) && ge(i) == e(i) by {
        let m = kk * i;
        assert(kk * (2 * i) == 2 * m) by(nonlinear_arith) requires m == kk * i;
        cc_scale2(2 * h, m);
        assert(k2 * (2 * i) == -(2 * m) + 2 * (2 * n) * i) by(nonlinear_arith) requires m == kk * i, k2 == 2 * n - kk;
        cc_periods(2 * n, -(2 * m), i); cc_neg(2 * n, 2 * m);
        assert(hw0(x)(2 * i) == hw0(evf(x))(i));
    }
    assert forall|i: int| #![trigger fo(i)] #![trigger go(i)] 0 <= i < h implies fo(i) == o(i) && go(i) == -o(i) by {
        let m = kk * (2 * i + 1);
        assert(k2 * (2 * i + 1) == (2 * n - m) + 2 * (2 * n) * i) by(nonlinear_arith) requires m == kk * (2 * i + 1), k2 == 2 * n - kk;
        cc_periods(2 * n, 2 * n - m, i); cc_pi_minus(2 * n, m);
        mul_neg(odf(x)(i), cc(2 * n, m));
        assert(hw0(x)(2 * i + 1) == odf(x)(i));
    }
    sum_ext(h, fe, e); sum_ext(h, fo, o); sum_ext(h, ge, e); sum_ext(h, go, |i: int| -o(i)); sum_neg(h, o);
}
// type 4 of length 2m through the type 3 transforms of length m
pub open spec fn lf(y: F) -> F { |i: int| if i == 0 { y(0) * 2real } else { y(2 * i - 1) + y(2 * i) } }
pub open spec fn rf(y: F, m: int) -> F { |i: int| if i == m - 1 { y(2 * m - 1) * 2real } else { y(2 * i + 1) - y(2 * i + 2) } }
pub proof fn sum_pairs(m: int, f: F)
    requires m >= 1
    ensures sum(2 * m, f) == f(0) + sum(m - 1, |i: int| f(2 * i + 1) + f(2 * i + 2)) + f(2 * m - 1)
{
    let f1 = |i: int| f(i + 1); let g = |i: int| f(2 * i + 1) + f(2 * i + 2);
    sum_first(2 * m, f);
    sum_even_odd(m - 1, f1);
    let a = |i: int| f1(2 * i); let b = |i: int| f1(2 * i + 1);
    sum_add(m - 1, a, b);
    sum_ext(m - 1, |i: int| a(i) + b(i), g);
    sum_step(2 * m - 2, f1);
}
pub proof fn poly_pair(u: real, v: real, c: real, s: real, cp: real, sp: real)
    ensures ((u + v) * cp) * c + ((u - v) * sp) * s == u * (cp * c + sp * s) + v * (cp * c - sp * s),
        ((u + v) * cp) * s - ((u - v) * sp) * c == -(u * (sp * c - cp * s)) + v * (sp * c + cp * s)
{
    rdist(cp, u, v); rdist(sp, u, v);
    rdist(c, u * cp, v * cp); rdist(s, u * sp, v * sp); rdist(s, u * cp, v * cp); rdist(c, u * sp, v * sp);
    rassoc(u, cp, c); rassoc(v, cp, c); rassoc(u, sp, s); rassoc(v, sp, s); rassoc(u, cp, s); rassoc(v, cp, s); rassoc(u, sp, c); rassoc(v, sp, c);
    rdist(u, cp * c, sp * s); rdist(v, cp * c, sp * s); rdist(u, sp * c, cp * s); rdist(v, sp * c, cp * s);
}
// sums of products, pulled out of the two transforms
pub proof fn lin2(n: int, c: real, f: F, s: real, g: F)
    ensures sum(n, f) * c + sum(n, g) * s == sum(n, |i: int| f(i) * c + g(i) * s)
{
    let a = |i: int| c * f(i); let b = |i: int| s * g(i);
    sum_scale(n, c, f); sum_scale(n, s, g); sum_add(n, a, b);
    let A = sum(n, f); let B = sum(n, g);
    mul_comm(c, A); mul_comm(s, B);
    let p = |i: int| a(i) + b(i); let r = |i: int| f(i) * c + g(i) * s;
    assert forall|i: int| 0 <= i < n implies #[trigger] p(i) == r(i) by { mul_comm(c, f(i)); mul_comm(s, g(i)); }
    sum_ext(n, p, r);
}
pub proof fn half_twice(x: real) ensures (x * 2real) / 2real == x {}
pub proof fn lem_dct4_pair(y: F, m: int, k: int)
    requires m >= 1
    ensures ({ let C = dct3(lf(y), m, k); let S = dst3(rf(y, m), m, k); let c = cc(8 * m, 2 * k + 1); let s = ss(8 * m, 2 * k + 1);
        C * c + S * s == dct4(y, 2 * m, k) && C * s + S * (-c) == dst4(alt(y), 2 * m, k) }),
{
    let n = 2 * m; let h = 2 * k + 1; let Q = 8 * m;
    let c = cc(Q, h); let s = ss(Q, h);
    let a = t_dct3(lf(y), m, k); let b = t_dst3(rf(y, m), m, k);
    let f = t_dct4(y, n, k); let g = t_dst4(alt(y), n, k);
    // C = a(0) + sum a1, S = sum b + b(m-1)
    let a1 = |i: int| a(i + 1);
    sum_first(m, a); sum_step(m - 1, b);
    sum_pairs(m, f); sum_pairs(m, g);
    let f2 = |i: int| f(2 * i + 1) + f(2 * i + 2); let g2 = |i: int| g(2 * i + 1) + g(2 * i + 2);
    lin2(m - 1, c, a1, s, b); lin2(m - 1, s, a1, -c, b);
    let u2 = |i: int| a1(i) * c + b(i) * s; let w2 = |i: int| a1(i) * s + b(i) * (-c);
    assert forall|i: int| #![trigger f2(i)] #![trigger g2(i)] 0 <= i < m - 1 implies f2(i) == u2(i) && g2(i) == w2(i) by {
        let p = h * (i + 1);
        cc_scale(4, 2 * m, p);
        assert(4 * (2 * m) == Q);
        assert(h * (2 * (2 * i + 1) + 1) == 4 * p - h) by(nonlinear_arith) requires p == h * (i + 1);
        assert(h * (2 * (2 * i + 2) + 1) == 4 * p + h) by(nonlinear_arith) requires p == h * (i + 1);
        cc_add(Q, 4 * p, h); cc_add(Q, 4 * p, -h); cc_neg(Q, h);
        let cp = cc(Q, 4 * p); let sp = ss(Q, 4 * p); let u = y(2 * i + 1); let v = y(2 * i + 2);
        mul_neg(cp, s); mul_neg(sp, s);
        poly_pair(u, v, c, s, cp, sp);
        assert(2 * (i + 1) - 1 == 2 * i + 1);
        assert(a1(i) == (u + v) * cp);
        assert(b(i) == (u - v) * sp);
        mul_neg(b(i), c);
        assert(f(2 * i + 1) == u * (cp * c + sp * s));
        assert(f(2 * i + 2) == v * (cp * c - sp * s));
        mul_neg(u, sp * c - cp * s);
        assert(g(2 * i + 1) == (-u) * (sp * c - cp * s));
        assert(g(2 * i + 2) == v * (sp * c + cp * s));
    }
    sum_ext(m - 1, f2, u2); sum_ext(m - 1, g2, w2);
    // ends
    let y0 = y(0); let yl = y(2 * m - 1); let A = sum(m - 1, a1); let B = sum(m - 1, b);
    half_twice(y0); half_twice(yl);
    assert(h * 0 == 0) by(nonlinear_arith); cc_zero(2 * m); rzero(y0);
    assert(a(0) == y0);
    lem_quarter(m, k, 0);
    assert(h * (m - 1 + 1) == m * (2 * k + 1) - 0) by(nonlinear_arith) requires h == 2 * k + 1;
    let bl = sgn(k, yl);
    assert(b(m - 1) == bl) by { rzero(yl); mul_neg(yl, 1real); }
    assert(h * (2 * 0 + 1) == h) by(nonlinear_arith);
    assert(f(0) == y0 * c && g(0) == y0 * s);
    assert(h * (2 * (2 * m - 1) + 1) == (2 * n) * (2 * k + 1) - h) by(nonlinear_arith) requires h == 2 * k + 1, n == 2 * m;
    lem_quarter(2 * n, k, h);
    assert(f(2 * m - 1) == yl * sgn(k, s));
    assert(g(2 * m - 1) == (-yl) * sgn(k, c));
    mul_neg(yl, s); mul_neg(yl, c); mul_neg(bl, c); rneg(yl, c); rneg(yl, s);
    assert(bl * s == f(2 * m - 1));
    assert(bl * (-c) == g(2 * m - 1));
    rdist(c, y0, A); rdist(s, B, bl); rdist(s, y0, A); rdist(-c, B, bl);
    assert(sum(m, a) == y0 + A); assert(sum(m, b) == B + bl);
    assert(A * c + B * s == sum(m - 1, f2)); assert(A * s + B * (-c) == sum(m - 1, g2));
    assert((y0 + A) * c == y0 * c + A * c); assert((B + bl) * s == B * s + bl * s);
    assert(sum(2 * m, f) == y0 * c + sum(m - 1, f2) + bl * s);
    assert(sum(2 * m, g) == y0 * s + sum(m - 1, g2) + bl * (-c));
    let C = dct3(lf(y), m, k); let S = dst3(rf(y, m), m, k);
    assert(C == y0 + A && S == B + bl);
    assert(C * c + S * s == sum(2 * m, f));
    mul_neg(S, c); mul_neg(B, c); rdist(c, B, bl);
    mul_comm(s, y0); mul_comm(s, A); mul_comm(c, B); mul_comm(c, bl);
    assert((y0 + A) * s == y0 * s + A * s);
    assert(C * s + S * (-c) == sum(2 * m, g));
    assert(dct4(y, n, k) == sum(2 * m, f)); assert(dst4(alt(y), n, k) == sum(2 * m, g));
}
// dct4 mirrored in k is dst4 of the alternated input
pub proof fn lem_dct4_mirror(y: F, n: int, k: int)
    requires n > 0
    ensures dct4(y, n, n - 1 - k) == dst4(alt(y), n, k)
{
    let f = t_dct4(y, n, n - 1 - k); let g = t_dst4(alt(y), n, k);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by {
        let m = (2 * k + 1) * (2 * i + 1);
        assert((2 * (n - 1 - k) + 1) * (2 * i + 1) == (2 * n) * (2 * i + 1) - m) by(nonlinear_arith) requires m == (2 * k + 1) * (2 * i + 1);
        lem_quarter(2 * n, i, m);
        mul_neg(y(i), ss(4 * n, m));
    }
    sum_ext(n, f, g);
}
pub proof fn lem_type4_ext(x: F, y: F, n: int, k: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] x(i) == y(i)
    ensures dct4(x, n, k) == dct4(y, n, k), dst4(x, n, k) == dst4(y, n, k)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] t_dct4(x, n, k)(i) == t_dct4(y, n, k)(i) by { assert(x(i) == y(i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] t_dst4(x, n, k)(i) == t_dst4(y, n, k)(i) by { assert(x(i) == y(i)); }
    sum_ext(n, t_dct4(x, n, k), t_dct4(y, n, k));
    sum_ext(n, t_dst4(x, n, k), t_dst4(y, n, k));
}
// dst3 is linear: dst3(-y) = -dst3(y)
pub open spec fn negf(y: F) -> F { |i: int| -y(i) }
pub proof fn lem_dst3_neg(y: F, n: int, k: int)
    requires n > 0
    ensures dst3(negf(y), n, k) == -dst3(y, n, k)
{
    let f = t_dst3(negf(y), n, k); let g = t_dst3(y, n, k); let ng = |i: int| -g(i);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == ng(i) by { mul_neg(hwl(y, n)(i), ss(2 * n, (2 * k + 1) * (i + 1))); assert((-y(n - 1)) / 2real == -(y(n - 1) / 2real)); }
    sum_ext(n, f, ng); sum_neg(n, g);
}
pub proof fn lem_alt2(x: F, n: int, k: int)
    requires n > 0
    ensures dst4(alt(alt(x)), n, k) == dst4(x, n, k), dst4(x, n, n - 1 - k) == dct4(alt(x), n, k)
{
    lem_type4_ext(alt(alt(x)), x, n, k);
    lem_dct4_mirror(alt(x), n, n - 1 - k);
    lem_type4_ext(alt(alt(x)), x, n, n - 1 - k);
    assert(n - 1 - (n - 1 - k) == k);
}
