// ===== the inverse of each transform (C16): every transform followed by its documented inverse =====
pub proof fn inv_c(n: int, x: F, w: F, q: int, al: P, u: P, j: int, kj: real, y: F, tb: F)
    requires q > 0, 0 <= j < n,
        forall|i: int| 0 <= i < n && i != j ==> dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real,
        (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real == kj,
        forall|k: int| 0 <= k < n ==> #[trigger] y(k) == sum(n, fw_c(n, x, q, al, u, k)),
        forall|k: int| 0 <= k < n ==> #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)),
    ensures sum(n, tb) == x(j) * kj
{
    lem_inv_c(n, x, w, q, al, u, j, kj);
    let g = bw_c(n, x, w, q, al, u, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == g(k) by { assert(y(k) == sum(n, fw_c(n, x, q, al, u, k))); }
    sum_ext(n, tb, g);
}
pub proof fn inv_s(n: int, x: F, w: F, q: int, al: P, u: P, j: int, kj: real, y: F, tb: F)
    requires q > 0, 0 <= j < n,
        forall|i: int| 0 <= i < n && i != j ==> dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real,
        (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real == kj,
        forall|k: int| 0 <= k < n ==> #[trigger] y(k) == sum(n, fw_s(n, x, q, al, u, k)),
        forall|k: int| 0 <= k < n ==> #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)),
    ensures sum(n, tb) == x(j) * kj
{
    lem_inv_s(n, x, w, q, al, u, j, kj);
    let g = bw_s(n, x, w, q, al, u, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == g(k) by { assert(y(k) == sum(n, fw_s(n, x, q, al, u, k))); }
    sum_ext(n, tb, g);
}
pub open spec fn al_k() -> P { |k: int| k }
pub open spec fn al_k1() -> P { |k: int| k + 1 }
pub open spec fn al_odd() -> P { |k: int| 2 * k + 1 }
pub open spec fn al_2k() -> P { |k: int| 2 * k }
pub open spec fn al_2k1() -> P { |k: int| 2 * (k + 1) }
pub proof fn half_is(x: real) ensures x / 2real == (1real / 2real) * x { assert(x / 2real == (1real / 2real) * x) by(nonlinear_arith); }
// the sum of n equal terms
pub proof fn sum_const(n: int, c: real, f: F)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == c
    ensures sum(n, f) == c * (n as real)
    decreases n
{
    if n > 0 {
        sum_const(n - 1, c, f);
        assert(f(n - 1) == c);
        rdist(c, (n - 1) as real, 1real); rzero(c);
    } else { rzero(c); }
}
// the sum shifted by one
pub proof fn sum_shift1(n: int, f: F, g: F)
    requires n >= 0, forall|k: int| 0 <= k < n ==> #[trigger] g(k) == f(k + 1)
    ensures sum(n, g) == sum(n, f) - f(0) + f(n)
    decreases n
{
    if n > 0 { sum_shift1(n - 1, f, g); assert(g(n - 1) == f(n)); }
}


pub proof fn ds_dct1(n: int, m: int)
    requires n >= 2, -2 * (n - 1) < m <= 2 * (n - 1)
    ensures dsum(n, wt2(n), n - 1, al_k(), m) == (if m == 0 || m == 2 * (n - 1) { (n - 1) as real } else { 0real })
{
    let q = n - 1; let f = kc(q, al_k(), m);
    sum_wt2(n, f);
    assert(0 * m == 0); cc_zero(q);
    turns(q, m, 0);
    if m == 0 || m == 2 * q {
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == 1real by {
            if m == 0 { assert(k * m == 0) by(nonlinear_arith) requires m == 0; }
            else { assert(k * m == 0 + 2 * q * k) by(nonlinear_arith) requires m == 2 * q; cc_periods(q, 0, k); }
        }
        sum_const(n, 1real, f); rzero(n as real);
    } else {
        la(q, m);
        sum_ext(q, f, |k: int| cc(q, k * m));
        sum_step(q, f);
    }
}
pub proof fn ds_dst1(n: int, m: int)
    requires n >= 1, -2 * (n + 1) < m < 2 * (n + 1)
    ensures dsum(n, wt1(), n + 1, al_k1(), m) == (if m == 0 { n as real } else { par(m) - 1real })
{
    let q = n + 1; let g = kc(q, al_k1(), m); let f = |k: int| cc(q, k * m);
    sum_wt1(n, g);
    if m == 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == 1real by { assert((k + 1) * m == 0) by(nonlinear_arith) requires m == 0; cc_zero(q); }
        sum_const(n, 1real, g); rzero(n as real);
    } else {
        la(q, m);
        sum_shift1(n, f, g);
        sum_step(n, f);
        assert(0 * m == 0); cc_zero(q);
    }
}
pub proof fn ds_dct23(n: int, m: int)
    requires n >= 1, -2 * n < m < 2 * n
    ensures dsum(n, wt0(), 2 * n, al_k(), 2 * m) == (if m == 0 { n as real } else { par(m) }) - 1real / 2real
{
    let f = kc(2 * n, al_k(), 2 * m); let g = |k: int| cc(n, k * m);
    sum_wt0(n, f);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(k * (2 * m) == 2 * (k * m)) by(nonlinear_arith); cc_scale2(n, k * m); }
    sum_ext(n, f, g);
    assert(0 * (2 * m) == 0); cc_zero(2 * n);
    if m == 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == 1real by { assert(k * m == 0) by(nonlinear_arith) requires m == 0; cc_zero(n); }
        sum_const(n, 1real, g); rzero(n as real);
    } else { la(n, m); }
}
pub proof fn ds_dst23(n: int, m: int)
    requires n >= 1, -2 * n < m < 2 * n
    ensures dsum(n, wtl(n), 2 * n, al_k1(), 2 * m) == (if m == 0 { n as real } else { 0real }) - 1real / 2real
{
    let f = kc(2 * n, al_k1(), 2 * m); let g = |k: int| cc(n, (k + 1) * m); let h = |k: int| cc(n, k * m);
    sum_wtl(n, f);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert((k + 1) * (2 * m) == 2 * ((k + 1) * m)) by(nonlinear_arith); cc_scale2(n, (k + 1) * m); }
    sum_ext(n, f, g);
    assert(f(n - 1) == g(n - 1));
    turns(n, m, 0); cc_zero(n);
    assert(g(n - 1) == sgn(m, 1real)) by { assert((n - 1 + 1) * m == n * m + 0); }
    if m == 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == 1real by { assert((k + 1) * m == 0) by(nonlinear_arith) requires m == 0; cc_zero(n); }
        sum_const(n, 1real, g); rzero(n as real);
    } else {
        la(n, m);
        sum_shift1(n, h, g);
        assert(0 * m == 0);
        assert(h(n) == sgn(m, 1real)) by { assert(n * m == n * m + 0); }
    }
}
pub proof fn ds_odd(n: int, m: int)
    requires n >= 1, -2 * n < m <= 2 * n
    ensures dsum(n, wt1(), 2 * n, al_odd(), m) == (if m == 0 { n as real } else if m == 2 * n { -(n as real) } else { 0real })
{
    let f = kc(2 * n, al_odd(), m);
    sum_wt1(n, f);
    if m == 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == 1real by { assert((2 * k + 1) * m == 0) by(nonlinear_arith) requires m == 0; cc_zero(2 * n); }
        sum_const(n, 1real, f); rzero(n as real);
    } else if m == 2 * n {
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == -1real by {
            assert((2 * k + 1) * m == 2 * n * (2 * k + 1) + 0) by(nonlinear_arith) requires m == 2 * n; cc_zero(2 * n); turns(2 * n, 2 * k + 1, 0);
        }
        sum_const(n, -1real, f); rneg(1real, n as real);
    } else {
        lb(n, m);
        sum_ext(n, f, |k: int| cc(2 * n, (2 * k + 1) * m));
    }
}
pub proof fn ds_t4(n: int, m: int)
    requires n >= 1, -2 * n < m < 2 * n
    ensures dsum(n, wt1(), 4 * n, al_odd(), 2 * m) == (if m == 0 { n as real } else { 0real })
{
    let f = kc(4 * n, al_odd(), 2 * m); let g = kc(2 * n, al_odd(), m);
    sum_wt1(n, f); sum_wt1(n, g);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert((2 * k + 1) * (2 * m) == 2 * ((2 * k + 1) * m)) by(nonlinear_arith); cc_scale2(2 * n, (2 * k + 1) * m); }
    sum_ext(n, f, g);
    ds_odd(n, m);
}
pub proof fn ds_dct5(n: int, m: int)
    requires n >= 1, -(2 * n - 1) < m <= 2 * n - 1
    ensures dsum(n, wt0(), 2 * n - 1, al_2k(), m) == (if m == 0 || m == 2 * n - 1 { n as real - 1real / 2real } else { 0real })
{
    let q = 2 * n - 1; let f = kc(q, al_2k(), m); let g = |k: int| cc(q, 2 * (k * m));
    sum_wt0(n, f);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert((2 * k) * m == 2 * (k * m)) by(nonlinear_arith); }
    sum_ext(n, f, g);
    assert((2 * 0) * m == 0) by(nonlinear_arith); cc_zero(q);
    if m == 0 || m == q {
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == 1real by {
            if m == 0 { assert(2 * (k * m) == 0) by(nonlinear_arith) requires m == 0; }
            else { assert(2 * (k * m) == 0 + 2 * q * k) by(nonlinear_arith) requires m == q; cc_periods(q, 0, k); }
        }
        sum_const(n, 1real, g); rzero(n as real);
    } else { lc(n, m); }
}
pub proof fn ds_dst5(n: int, m: int)
    requires n >= 1, -(2 * n + 1) < m < 2 * n + 1
    ensures dsum(n, wt1(), 2 * n + 1, al_2k1(), m) == (if m == 0 { n as real } else { -(1real / 2real) })
{
    let q = 2 * n + 1; let f = kc(q, al_2k1(), m); let g = |k: int| cc(q, 2 * (k * m));
    sum_wt1(n, f);
    if m == 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == 1real by { assert((2 * (k + 1)) * m == 0) by(nonlinear_arith) requires m == 0; cc_zero(q); }
        sum_const(n, 1real, f); rzero(n as real);
    } else {
        lc(n + 1, m);
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k + 1) by { assert((2 * (k + 1)) * m == 2 * ((k + 1) * m)) by(nonlinear_arith); }
        sum_shift1(n, g, f);
        sum_step(n, g);
        assert(2 * (0 * m) == 0); cc_zero(q);
    }
}
pub proof fn ds_dct67(n: int, m: int)
    requires n >= 1, -(2 * n - 1) < m <= 2 * n - 1
    ensures dsum(n, wt0(), 2 * n - 1, al_k(), 2 * m) == (if m == 0 || m == 2 * n - 1 { n as real - 1real / 2real } else { 0real })
{
    let q = 2 * n - 1; let f = kc(q, al_k(), 2 * m); let g = kc(q, al_2k(), m);
    sum_wt0(n, f); sum_wt0(n, g);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert((2 * k) * m == k * (2 * m)) by(nonlinear_arith); }
    sum_ext(n, f, g); assert(f(0) == g(0));
    ds_dct5(n, m);
}
pub proof fn ds_dct76(n: int, m: int)
    requires n >= 1, -(2 * n - 1) < m <= 2 * n - 1
    ensures dsum(n, wtl(n), 2 * n - 1, al_odd(), m) == (if m == 0 { n as real - 1real / 2real } else if m == 2 * n - 1 { 1real / 2real - n as real } else { 0real })
{
    let q = 2 * n - 1; let f = kc(q, al_odd(), m);
    sum_wtl(n, f);
    turns(q, m, 0); cc_zero(q);
    assert(f(n - 1) == sgn(m, 1real)) by { assert((2 * (n - 1) + 1) * m == q * m + 0); }
    if m == 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == 1real by { assert((2 * k + 1) * m == 0) by(nonlinear_arith) requires m == 0; }
        sum_const(n, 1real, f); rzero(n as real);
    } else if m == q {
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == -1real by {
            assert((2 * k + 1) * m == q * (2 * k + 1) + 0) by(nonlinear_arith) requires m == q; turns(q, 2 * k + 1, 0);
        }
        sum_const(n, -1real, f); rneg(1real, n as real);
    } else {
        ld(n, m);
        sum_ext(n, f, |k: int| cc(2 * n - 1, (2 * k + 1) * m));
    }
}
pub proof fn ds_dst67(n: int, m: int)
    requires n >= 1, -(2 * n + 1) < m < 2 * n + 1
    ensures dsum(n, wt1(), 2 * n + 1, al_k1(), 2 * m) == (if m == 0 { n as real } else { -(1real / 2real) })
{
    let q = 2 * n + 1; let f = kc(q, al_k1(), 2 * m); let g = kc(q, al_2k1(), m);
    sum_wt1(n, f); sum_wt1(n, g);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert((2 * (k + 1)) * m == (k + 1) * (2 * m)) by(nonlinear_arith); }
    sum_ext(n, f, g);
    ds_dst5(n, m);
}
pub proof fn ds_dst76(n: int, m: int)
    requires n >= 1, -(2 * n + 1) < m < 2 * n + 1
    ensures dsum(n, wt1(), 2 * n + 1, al_odd(), m) == (if m == 0 { n as real } else { -sgn(m, 1real / 2real) })
{
    let q = 2 * n + 1; let f = kc(q, al_odd(), m);
    sum_wt1(n, f);
    if m == 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == 1real by { assert((2 * k + 1) * m == 0) by(nonlinear_arith) requires m == 0; cc_zero(q); }
        sum_const(n, 1real, f); rzero(n as real);
    } else {
        le(n, m);
        sum_ext(n, f, |k: int| cc(2 * n + 1, (2 * k + 1) * m));
    }
}
pub proof fn ds_dct8(n: int, m: int)
    requires n >= 1, -(2 * n + 1) < m < 2 * n + 1
    ensures dsum(n, wt1(), 2 * (2 * n + 1), al_odd(), 2 * m) == (if m == 0 { n as real } else { -sgn(m, 1real / 2real) })
{
    let q = 2 * n + 1; let f = kc(2 * q, al_odd(), 2 * m); let g = kc(q, al_odd(), m);
    sum_wt1(n, f); sum_wt1(n, g);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert((2 * k + 1) * (2 * m) == 2 * ((2 * k + 1) * m)) by(nonlinear_arith); cc_scale2(q, (2 * k + 1) * m); }
    sum_ext(n, f, g);
    ds_dst76(n, m);
}
pub proof fn ds_dst8(n: int, m: int)
    requires n >= 1, -(2 * n - 1) < m <= 2 * n - 1
    ensures dsum(n, wtl(n), 2 * (2 * n - 1), al_odd(), 2 * m) == (if m == 0 { n as real - 1real / 2real } else if m == 2 * n - 1 { 1real / 2real - n as real } else { 0real })
{
    let q = 2 * n - 1; let f = kc(2 * q, al_odd(), 2 * m); let g = kc(q, al_odd(), m);
    sum_wtl(n, f); sum_wtl(n, g);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert((2 * k + 1) * (2 * m) == 2 * ((2 * k + 1) * m)) by(nonlinear_arith); cc_scale2(q, (2 * k + 1) * m); }
    sum_ext(n, f, g); assert(f(n - 1) == g(n - 1));
    ds_dct76(n, m);
}

pub proof fn inv_dct1(x: F, y: F, n: int, j: int)
    requires n >= 2, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct1(x, n, k)
    ensures dct1(y, n, j) == x(j) * ((n - 1) as real / 2real)
{
    let q = n - 1; let al = al_k(); let u = |i: int| i; let w = wt2(n); let xt = hw2(x, n);
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_dct1(n, (i) - (j)); ds_dct1(n, (i) + (j));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct1(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert(k * i == k * (i)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct1(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert(j * k == k * (j)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_dct1(n, (j) - (j)); ds_dct1(n, (j) + (j));
    let e = x(j); let c = (n - 1) as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst1(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst1(x, n, k)
    ensures dst1(y, n, j) == x(j) * ((n + 1) as real / 2real)
{
    let q = n + 1; let al = al_k1(); let u = |i: int| i + 1; let w = wt1(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_dst1(n, (i + 1) - (j + 1)); ds_dst1(n, (i + 1) + (j + 1));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst1(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((k + 1) * (i + 1) == (k + 1) * (i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst1(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert((j + 1) * (k + 1) == (k + 1) * (j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_dst1(n, (j + 1) - (j + 1)); ds_dst1(n, (j + 1) + (j + 1));
    let e = x(j); let c = (n + 1) as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dct2(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct2(x, n, k)
    ensures dct3(y, n, j) == x(j) * (n as real / 2real)
{
    let q = 2 * n; let al = al_k(); let u = |i: int| 2 * i + 1; let w = wt0(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_dct23(n, i - j); ds_dct23(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct2(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert(k * (2 * i + 1) == k * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct3(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert((2 * j + 1) * k == k * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_dct23(n, j - j); ds_dct23(n, j + j + 1);
    let e = x(j); let c = n as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dct3(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct3(x, n, k)
    ensures dct2(y, n, j) == x(j) * (n as real / 2real)
{
    let q = 2 * n; let al = al_odd(); let u = |i: int| i; let w = wt1(); let xt = hw0(x);
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_odd(n, (i) - (j)); ds_odd(n, (i) + (j));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct3(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * i == (2 * k + 1) * (i)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct2(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert(j * (2 * k + 1) == (2 * k + 1) * (j)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_odd(n, (j) - (j)); ds_odd(n, (j) + (j));
    let e = x(j); let c = n as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst2(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst2(x, n, k)
    ensures dst3(y, n, j) == x(j) * (n as real / 2real)
{
    let q = 2 * n; let al = al_k1(); let u = |i: int| 2 * i + 1; let w = wtl(n); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_dst23(n, i - j); ds_dst23(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst2(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((k + 1) * (2 * i + 1) == (k + 1) * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst3(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert((2 * j + 1) * (k + 1) == (k + 1) * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_dst23(n, j - j); ds_dst23(n, j + j + 1);
    let e = x(j); let c = n as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst3(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst3(x, n, k)
    ensures dst2(y, n, j) == x(j) * (n as real / 2real)
{
    let q = 2 * n; let al = al_odd(); let u = |i: int| i + 1; let w = wt1(); let xt = hwl(x, n);
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_odd(n, (i + 1) - (j + 1)); ds_odd(n, (i + 1) + (j + 1));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst3(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * (i + 1) == (2 * k + 1) * (i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst2(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert((j + 1) * (2 * k + 1) == (2 * k + 1) * (j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_odd(n, (j + 1) - (j + 1)); ds_odd(n, (j + 1) + (j + 1));
    let e = x(j); let c = n as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dct4(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct4(x, n, k)
    ensures dct4(y, n, j) == x(j) * (n as real / 2real)
{
    let q = 4 * n; let al = al_odd(); let u = |i: int| 2 * i + 1; let w = wt1(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_t4(n, i - j); ds_t4(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct4(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * (2 * i + 1) == (2 * k + 1) * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct4(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert((2 * j + 1) * (2 * k + 1) == (2 * k + 1) * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_t4(n, j - j); ds_t4(n, j + j + 1);
    let e = x(j); let c = n as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst4(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst4(x, n, k)
    ensures dst4(y, n, j) == x(j) * (n as real / 2real)
{
    let q = 4 * n; let al = al_odd(); let u = |i: int| 2 * i + 1; let w = wt1(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_t4(n, i - j); ds_t4(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst4(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * (2 * i + 1) == (2 * k + 1) * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst4(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert((2 * j + 1) * (2 * k + 1) == (2 * k + 1) * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_t4(n, j - j); ds_t4(n, j + j + 1);
    let e = x(j); let c = n as real / 2real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dct5(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct5(x, n, k)
    ensures dct5(y, n, j) == x(j) * ((2 * n - 1) as real / 4real)
{
    let q = 2 * n - 1; let al = al_2k(); let u = |i: int| i; let w = wt0(); let xt = hw0(x);
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_dct5(n, (i) - (j)); ds_dct5(n, (i) + (j));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct5(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert(2 * (k * i) == (2 * k) * (i)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct5(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert(2 * (j * k) == (2 * k) * (j)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_dct5(n, (j) - (j)); ds_dct5(n, (j) + (j));
    let e = x(j); let c = (2 * n - 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst5(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst5(x, n, k)
    ensures dst5(y, n, j) == x(j) * ((2 * n + 1) as real / 4real)
{
    let q = 2 * n + 1; let al = al_2k1(); let u = |i: int| i + 1; let w = wt1(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_dst5(n, (i + 1) - (j + 1)); ds_dst5(n, (i + 1) + (j + 1));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst5(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert(2 * ((k + 1) * (i + 1)) == (2 * (k + 1)) * (i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst5(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert(2 * ((j + 1) * (k + 1)) == (2 * (k + 1)) * (j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_dst5(n, (j + 1) - (j + 1)); ds_dst5(n, (j + 1) + (j + 1));
    let e = x(j); let c = (2 * n + 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dct6(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct6(x, n, k)
    ensures dct7(y, n, j) == x(j) * ((2 * n - 1) as real / 4real)
{
    let q = 2 * n - 1; let al = al_k(); let u = |i: int| 2 * i + 1; let w = wt0(); let xt = hwl(x, n);
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_dct67(n, i - j); ds_dct67(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct6(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert(k * (2 * i + 1) == k * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct7(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert((2 * j + 1) * k == k * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_dct67(n, j - j); ds_dct67(n, j + j + 1);
    let e = x(j); let c = (2 * n - 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dct7(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct7(x, n, k)
    ensures dct6(y, n, j) == x(j) * ((2 * n - 1) as real / 4real)
{
    let q = 2 * n - 1; let al = al_odd(); let u = |i: int| i; let w = wtl(n); let xt = hw0(x);
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_dct76(n, (i) - (j)); ds_dct76(n, (i) + (j));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct7(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * i == (2 * k + 1) * (i)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct6(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert(j * (2 * k + 1) == (2 * k + 1) * (j)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_dct76(n, (j) - (j)); ds_dct76(n, (j) + (j));
    let e = x(j); let c = (2 * n - 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst6(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst6(x, n, k)
    ensures dst7(y, n, j) == x(j) * ((2 * n + 1) as real / 4real)
{
    let q = 2 * n + 1; let al = al_k1(); let u = |i: int| 2 * i + 1; let w = wt1(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_dst67(n, i - j); ds_dst67(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst6(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((k + 1) * (2 * i + 1) == (k + 1) * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst7(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert((2 * j + 1) * (k + 1) == (k + 1) * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_dst67(n, j - j); ds_dst67(n, j + j + 1);
    let e = x(j); let c = (2 * n + 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst7(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst7(x, n, k)
    ensures dst6(y, n, j) == x(j) * ((2 * n + 1) as real / 4real)
{
    let q = 2 * n + 1; let al = al_odd(); let u = |i: int| i + 1; let w = wt1(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
         
        ds_dst76(n, (i + 1) - (j + 1)); ds_dst76(n, (i + 1) + (j + 1));
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst7(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * (i + 1) == (2 * k + 1) * (i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst6(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert((j + 1) * (2 * k + 1) == (2 * k + 1) * (j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
     
    ds_dst76(n, (j + 1) - (j + 1)); ds_dst76(n, (j + 1) + (j + 1));
    let e = x(j); let c = (2 * n + 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dct8(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dct8(x, n, k)
    ensures dct8(y, n, j) == x(j) * ((2 * n + 1) as real / 4real)
{
    let q = 2 * (2 * n + 1); let al = al_odd(); let u = |i: int| 2 * i + 1; let w = wt1(); let xt = x;
    let kj = (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_dct8(n, i - j); ds_dct8(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_c(n, xt, q, al, u, k)) by {
        let f = t_dct8(x, n, k); let g = fw_c(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * (2 * i + 1) == (2 * k + 1) * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dct8(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * cc(q, al(k) * u(j)) by {
        assert((2 * j + 1) * (2 * k + 1) == (2 * k + 1) * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_c(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_dct8(n, j - j); ds_dct8(n, j + j + 1);
    let e = x(j); let c = (2 * n + 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}
pub proof fn inv_dst8(x: F, y: F, n: int, j: int)
    requires n >= 1, 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == dst8(x, n, k)
    ensures dst8(y, n, j) == x(j) * ((2 * n - 1) as real / 4real)
{
    let q = 2 * (2 * n - 1); let al = al_odd(); let u = |i: int| 2 * i + 1; let w = wtl(n); let xt = hwl(x, n);
    let kj = (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real;
    assert forall|i: int| 0 <= i < n && i != j implies dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real by {
        assert((2 * i + 1) - (2 * j + 1) == 2 * (i - j)); assert((2 * i + 1) + (2 * j + 1) == 2 * (i + j + 1));
        ds_dst8(n, i - j); ds_dst8(n, i + j + 1);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k) == sum(n, fw_s(n, xt, q, al, u, k)) by {
        let f = t_dst8(x, n, k); let g = fw_s(n, xt, q, al, u, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert((2 * k + 1) * (2 * i + 1) == (2 * k + 1) * (2 * i + 1)) by(nonlinear_arith); }
        sum_ext(n, f, g);
    }
    let tb = t_dst8(y, n, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] tb(k) == w(k) * y(k) * ss(q, al(k) * u(j)) by {
        assert((2 * j + 1) * (2 * k + 1) == (2 * k + 1) * (2 * j + 1)) by(nonlinear_arith);
        rzero(y(k)); half_is(y(k));
        assert(y(k) == y(0) || k != 0);
    }
    inv_s(n, xt, w, q, al, u, j, kj, y, tb);
    assert((2 * j + 1) - (2 * j + 1) == 2 * (j - j)); assert((2 * j + 1) + (2 * j + 1) == 2 * (j + j + 1));
    ds_dst8(n, j - j); ds_dst8(n, j + j + 1);
    let e = x(j); let c = (2 * n - 1) as real / 4real;
    assert((e / 2real) * (2real * c) == e * c) by(nonlinear_arith);
}