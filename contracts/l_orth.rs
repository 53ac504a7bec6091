// ===== orthogonality of the transform kernels and the inverse of each transform =====
pub proof fn prod_cc(q: int, a: int, b: int)
    requires q > 0
    ensures cc(q, a) * cc(q, b) == (cc(q, a - b) + cc(q, a + b)) / 2real, ss(q, a) * ss(q, b) == (cc(q, a - b) - cc(q, a + b)) / 2real,
        2real * ss(q, b) * cc(q, a) == ss(q, a + b) - ss(q, a - b)
{
    cc_add(q, a, b); cc_add(q, a, -b); cc_neg(q, b);
    let x = cc(q, a); let y = cc(q, b); let s = ss(q, a); let t = ss(q, b);
    rneg(s, t); rneg(x, t); rassoc(2real, t, x); mul_comm(t, x);
}
pub open spec fn tele_f(q: int, a: int, d: int) -> F { |k: int| cc(q, a + 2 * d * k) }
pub proof fn tele(q: int, a: int, d: int, n: int)
    requires q > 0, n >= 0
    ensures 2real * ss(q, d) * sum(n, tele_f(q, a, d)) == ss(q, a + 2 * d * n - d) - ss(q, a - d)
    decreases n
{
    let c = 2real * ss(q, d);
    if n == 0 {
        assert(2 * d * 0 == 0); rzero(c);
    } else {
        tele(q, a, d, n - 1);
        let x = a + 2 * d * (n - 1);
        assert(a + 2 * d * n - d == x + d) by(nonlinear_arith) requires x == a + 2 * d * (n - 1);
        prod_cc(q, x, d);
        rdist(c, sum(n - 1, tele_f(q, a, d)), cc(q, x));
    }
}
pub proof fn cancel2(s: real, t: real, c: real)
    requires s != 0real, 2real * s * t == c * s
    ensures t == c / 2real
{
    assert(t == c / 2real) by(nonlinear_arith) requires s != 0real, 2real * s * t == c * s;
}
pub proof fn ss_nz(q: int, m: int)
    requires q > 0, m != 0, -q < m < q
    ensures ss(q, m) != 0real
{
    if m > 0 { ss_pos(q, m); } else { ss_pos(q, -m); cc_neg(q, -m); }
}
// whole half turns
pub proof fn turns(q: int, m: int, x: int)
    requires q > 0
    ensures cc(q, q * m + x) == sgn(m, cc(q, x)), ss(q, q * m + x) == sgn(m, ss(q, x))
{
    let t = m / 2;
    if m % 2 == 0 {
        assert(q * m + x == x + 2 * q * t) by(nonlinear_arith) requires m == 2 * t;
        cc_periods(q, x, t);
    } else {
        assert(q * m + x == (x + q) + 2 * q * t) by(nonlinear_arith) requires m == 2 * t + 1;
        cc_periods(q, x + q, t); cc_add_pi(q, x);
    }
}
pub open spec fn par(m: int) -> real { if m % 2 == 0 { 0real } else { 1real } }
pub proof fn la(n: int, m: int)
    requires n >= 1, m != 0, -2 * n < m < 2 * n
    ensures sum(n, |k: int| cc(n, k * m)) == par(m)
{
    let f = |k: int| cc(n, k * m); let g = tele_f(2 * n, 0, m);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by {
        assert(0 + 2 * m * k == 2 * (k * m)) by(nonlinear_arith); cc_scale2(n, k * m);
    }
    sum_ext(n, f, g); tele(2 * n, 0, m, n); ss_nz(2 * n, m);
    assert(0 + 2 * m * n - m == 2 * n * m + (-m)) by(nonlinear_arith);
    turns(2 * n, m, -m); cc_neg(2 * n, m);
    let s = ss(2 * n, m); let t = sum(n, g); rzero(s);
    if m % 2 == 0 { cancel2(s, t, 0real); } else { cancel2(s, t, 2real); }
}
pub proof fn lb(n: int, m: int)
    requires n >= 1, m != 0, -2 * n < m < 2 * n
    ensures sum(n, |k: int| cc(2 * n, (2 * k + 1) * m)) == 0real
{
    let f = |k: int| cc(2 * n, (2 * k + 1) * m); let g = tele_f(2 * n, m, m);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(m + 2 * m * k == (2 * k + 1) * m) by(nonlinear_arith); }
    sum_ext(n, f, g); tele(2 * n, m, m, n); ss_nz(2 * n, m);
    assert(m + 2 * m * n - m == 2 * n * m + 0) by(nonlinear_arith);
    turns(2 * n, m, 0); cc_zero(2 * n);
    let s = ss(2 * n, m); rzero(s);
    cancel2(s, sum(n, g), 0real);
}
pub proof fn lc(n: int, m: int)
    requires n >= 1, m != 0, -(2 * n - 1) < m < 2 * n - 1
    ensures sum(n, |k: int| cc(2 * n - 1, 2 * (k * m))) == 1real / 2real
{
    let q = 2 * n - 1;
    let f = |k: int| cc(q, 2 * (k * m)); let g = tele_f(q, 0, m);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(0 + 2 * m * k == 2 * (k * m)) by(nonlinear_arith); }
    sum_ext(n, f, g); tele(q, 0, m, n); ss_nz(q, m);
    assert(0 + 2 * m * n - m == q * m + 0) by(nonlinear_arith) requires q == 2 * n - 1;
    turns(q, m, 0); cc_zero(q); cc_neg(q, m);
    let s = ss(q, m); rzero(s);
    cancel2(s, sum(n, g), 1real);
}
pub proof fn ld(n: int, m: int)
    requires n >= 1, m != 0, -(2 * n - 1) < m < 2 * n - 1
    ensures sum(n, |k: int| cc(2 * n - 1, (2 * k + 1) * m)) == sgn(m, 1real / 2real)
{
    let q = 2 * n - 1;
    let f = |k: int| cc(q, (2 * k + 1) * m); let g = tele_f(q, m, m);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(m + 2 * m * k == (2 * k + 1) * m) by(nonlinear_arith); }
    sum_ext(n, f, g); tele(q, m, m, n); ss_nz(q, m);
    assert(m + 2 * m * n - m == q * m + m) by(nonlinear_arith) requires q == 2 * n - 1;
    turns(q, m, m); cc_zero(q);
    let s = ss(q, m); rzero(s);
    assert((-1real) * s == -s) by(nonlinear_arith);
    cancel2(s, sum(n, g), sgn(m, 1real));
}
pub proof fn le(n: int, m: int)
    requires n >= 1, m != 0, -(2 * n + 1) < m < 2 * n + 1
    ensures sum(n, |k: int| cc(2 * n + 1, (2 * k + 1) * m)) == -sgn(m, 1real / 2real)
{
    let q = 2 * n + 1;
    let f = |k: int| cc(q, (2 * k + 1) * m); let g = tele_f(q, m, m);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(m + 2 * m * k == (2 * k + 1) * m) by(nonlinear_arith); }
    sum_ext(n, f, g); tele(q, m, m, n); ss_nz(q, m);
    assert(m + 2 * m * n - m == q * m + (-m)) by(nonlinear_arith) requires q == 2 * n + 1;
    turns(q, m, -m); cc_zero(q); cc_neg(q, m);
    let s = ss(q, m); rzero(s);
    assert((-1real) * s == -s) by(nonlinear_arith);
    cancel2(s, sum(n, g), -sgn(m, 1real));
}
// ----- weights: halves at the ends -----
pub open spec fn wt1() -> F { |k: int| 1real }
pub open spec fn wt0() -> F { |k: int| if k == 0 { 1real / 2real } else { 1real } }
pub open spec fn wtl(n: int) -> F { |k: int| if k == n - 1 { 1real / 2real } else { 1real } }
pub open spec fn wt2(n: int) -> F { |k: int| if k == 0 || k == n - 1 { 1real / 2real } else { 1real } }
pub open spec fn wf_(w: F, f: F) -> F { |k: int| w(k) * f(k) }
pub proof fn sum_wt1(n: int, f: F) ensures sum(n, wf_(wt1(), f)) == sum(n, f) { sum_ext(n, wf_(wt1(), f), f); }
pub proof fn sum_wt0(n: int, f: F)
    requires n >= 1
    ensures sum(n, wf_(wt0(), f)) == sum(n, f) - f(0) / 2real
{
    let g = wf_(wt0(), f);
    sum_first(n, f); sum_first(n, g);
    let f1 = |k: int| f(k + 1); let g1 = |k: int| g(k + 1);
    sum_ext(n - 1, g1, f1);
}
pub proof fn sum_wtl(n: int, f: F)
    requires n >= 1
    ensures sum(n, wf_(wtl(n), f)) == sum(n, f) - f(n - 1) / 2real
{
    sum_ext(n - 1, wf_(wtl(n), f), f);
}
pub proof fn sum_wt2(n: int, f: F)
    requires n >= 2
    ensures sum(n, wf_(wt2(n), f)) == sum(n, f) - f(0) / 2real - f(n - 1) / 2real
{
    let g = wf_(wt0(), f);
    sum_ext(n - 1, wf_(wt2(n), f), g);
    sum_wt0(n - 1, f);
}
// ----- the kernel sums -----
pub type P = spec_fn(int) -> int;
pub open spec fn kc(q: int, al: P, m: int) -> F { |k: int| cc(q, al(k) * m) }
pub open spec fn dsum(n: int, w: F, q: int, al: P, m: int) -> real { sum(n, wf_(w, kc(q, al, m))) }
pub open spec fn fw_c(n: int, x: F, q: int, al: P, u: P, k: int) -> F { |i: int| x(i) * cc(q, al(k) * u(i)) }
pub open spec fn fw_s(n: int, x: F, q: int, al: P, u: P, k: int) -> F { |i: int| x(i) * ss(q, al(k) * u(i)) }
pub open spec fn bw_c(n: int, x: F, w: F, q: int, al: P, u: P, j: int) -> F { |k: int| w(k) * sum(n, fw_c(n, x, q, al, u, k)) * cc(q, al(k) * u(j)) }
pub open spec fn bw_s(n: int, x: F, w: F, q: int, al: P, u: P, j: int) -> F { |k: int| w(k) * sum(n, fw_s(n, x, q, al, u, k)) * ss(q, al(k) * u(j)) }
pub proof fn poly_bw(w: real, x: real, a: real, b: real) ensures (w * b) * (x * a) == x * (w * (a * b)) {
    rassoc(w, b, x * a); rassoc(b, x, a); rassoc(w, x, b * a); rassoc(x, w, b * a); mul_comm(a, b);
}
// exchange of the two sums, for any kernel p(k, i)
pub type K2 = spec_fn(int, int) -> real;
pub open spec fn kern_f(w: F, p: K2, i: int, j: int) -> F { |k: int| w(k) * (p(k, i) * p(k, j)) }
pub open spec fn kern(n: int, w: F, p: K2, i: int, j: int) -> real { sum(n, kern_f(w, p, i, j)) }
pub proof fn lem_exchange(n: int, x: F, w: F, p: spec_fn(int, int) -> real, j: int, kj: real)
    requires 0 <= j < n,
        forall|i: int| 0 <= i < n && i != j ==> #[trigger] kern(n, w, p, i, j) == 0real,
        kern(n, w, p, j, j) == kj,
    ensures sum(n, |k: int| w(k) * sum(n, |i: int| x(i) * p(k, i)) * p(k, j)) == x(j) * kj
{
    let t = |k: int, i: int| x(i) * (w(k) * (p(k, i) * p(k, j)));
    let f = |k: int| w(k) * sum(n, |i: int| x(i) * p(k, i)) * p(k, j);
    let rows = |k: int| sum(n, |i: int| t(k, i));
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == rows(k) by {
        let g = |i: int| x(i) * p(k, i); let c = w(k) * p(k, j);
        sum_scale(n, c, g);
        let cg = |i: int| c * g(i); let r = |i: int| t(k, i);
        assert forall|i: int| 0 <= i < n implies #[trigger] cg(i) == r(i) by { poly_bw(w(k), x(i), p(k, i), p(k, j)); }
        sum_ext(n, cg, r);
        rassoc(w(k), sum(n, g), p(k, j)); rassoc(w(k), p(k, j), sum(n, g));
    }
    sum_ext(n, f, rows);
    sum_swap(n, n, t);
    let cols = |i: int| sum(n, |k: int| t(k, i));
    assert forall|i: int| 0 <= i < n implies #[trigger] cols(i) == x(i) * kern(n, w, p, i, j) by {
        let h = kern_f(w, p, i, j);
        sum_scale(n, x(i), h);
        sum_ext(n, |k: int| t(k, i), |k: int| x(i) * h(k));
    }
    assert forall|i: int| 0 <= i < n && i != j implies #[trigger] cols(i) == 0real by {
        assert(kern(n, w, p, i, j) == 0real);
        rzero(x(i));
    }
    sum_single(n, j, cols);
}
pub proof fn lem_kernel(n: int, w: F, q: int, al: P, a: int, b: int)
    requires q > 0
    ensures sum(n, |k: int| w(k) * (cc(q, al(k) * a) * cc(q, al(k) * b))) == (dsum(n, w, q, al, a - b) + dsum(n, w, q, al, a + b)) / 2real,
        sum(n, |k: int| w(k) * (ss(q, al(k) * a) * ss(q, al(k) * b))) == (dsum(n, w, q, al, a - b) - dsum(n, w, q, al, a + b)) / 2real,
{
    let f = wf_(w, kc(q, al, a - b)); let g = wf_(w, kc(q, al, a + b));
    sum_add(n, f, g); sum_sub(n, f, g);
    let s = |k: int| f(k) + g(k); let d = |k: int| f(k) - g(k);
    sum_scale(n, 0.5real, s); sum_scale(n, 0.5real, d);
    let hs = |k: int| 0.5real * s(k); let hd = |k: int| 0.5real * d(k);
    let pc = |k: int| w(k) * (cc(q, al(k) * a) * cc(q, al(k) * b)); let ps = |k: int| w(k) * (ss(q, al(k) * a) * ss(q, al(k) * b));
    assert forall|k: int| 0 <= k < n implies #[trigger] hs(k) == pc(k) && hd(k) == ps(k) by {
        let m = al(k);
        prod_cc(q, m * a, m * b);
        assert(m * a - m * b == m * (a - b) && m * a + m * b == m * (a + b)) by(nonlinear_arith);
        let u = cc(q, m * (a - b)); let v = cc(q, m * (a + b));
        rdist(w(k), u / 2real, v / 2real); rdist(w(k), u, v);
        assert(w(k) * ((u + v) / 2real) == 0.5real * (w(k) * u + w(k) * v) && w(k) * ((u - v) / 2real) == 0.5real * (w(k) * u - w(k) * v)) by(nonlinear_arith);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] hd(k) == ps(k) by { assert(hs(k) == pc(k)); }
    sum_ext(n, hs, pc); sum_ext(n, hd, ps);
}
// inverse of a cosine (sine) transform from its kernel sums
pub proof fn lem_inv_c(n: int, x: F, w: F, q: int, al: P, u: P, j: int, kj: real)
    requires q > 0, 0 <= j < n,
        forall|i: int| 0 <= i < n && i != j ==> dsum(n, w, q, al, #[trigger] u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real,
        (dsum(n, w, q, al, u(j) - u(j)) + dsum(n, w, q, al, u(j) + u(j))) / 2real == kj,
    ensures sum(n, bw_c(n, x, w, q, al, u, j)) == x(j) * kj
{
    let p = |k: int, i: int| cc(q, al(k) * u(i));
    assert forall|i: int| 0 <= i < n && i != j implies #[trigger] kern(n, w, p, i, j) == 0real by {
        lem_kernel(n, w, q, al, u(i), u(j));
        sum_ext(n, kern_f(w, p, i, j), |k: int| w(k) * (cc(q, al(k) * u(i)) * cc(q, al(k) * u(j))));
        assert(dsum(n, w, q, al, u(i) - u(j)) + dsum(n, w, q, al, u(i) + u(j)) == 0real);
    }
    lem_kernel(n, w, q, al, u(j), u(j));
    sum_ext(n, kern_f(w, p, j, j), |k: int| w(k) * (cc(q, al(k) * u(j)) * cc(q, al(k) * u(j))));
    lem_exchange(n, x, w, p, j, kj);
    let f = |k: int| w(k) * sum(n, |i: int| x(i) * p(k, i)) * p(k, j); let g = bw_c(n, x, w, q, al, u, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { sum_ext(n, |i: int| x(i) * p(k, i), fw_c(n, x, q, al, u, k)); }
    sum_ext(n, f, g);
}
pub proof fn lem_inv_s(n: int, x: F, w: F, q: int, al: P, u: P, j: int, kj: real)
    requires q > 0, 0 <= j < n,
        forall|i: int| 0 <= i < n && i != j ==> dsum(n, w, q, al, #[trigger] u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real,
        (dsum(n, w, q, al, u(j) - u(j)) - dsum(n, w, q, al, u(j) + u(j))) / 2real == kj,
    ensures sum(n, bw_s(n, x, w, q, al, u, j)) == x(j) * kj
{
    let p = |k: int, i: int| ss(q, al(k) * u(i));
    assert forall|i: int| 0 <= i < n && i != j implies #[trigger] kern(n, w, p, i, j) == 0real by {
        lem_kernel(n, w, q, al, u(i), u(j));
        sum_ext(n, kern_f(w, p, i, j), |k: int| w(k) * (ss(q, al(k) * u(i)) * ss(q, al(k) * u(j))));
        assert(dsum(n, w, q, al, u(i) - u(j)) - dsum(n, w, q, al, u(i) + u(j)) == 0real);
    }
    lem_kernel(n, w, q, al, u(j), u(j));
    sum_ext(n, kern_f(w, p, j, j), |k: int| w(k) * (ss(q, al(k) * u(j)) * ss(q, al(k) * u(j))));
    lem_exchange(n, x, w, p, j, kj);
    let f = |k: int| w(k) * sum(n, |i: int| x(i) * p(k, i)) * p(k, j); let g = bw_s(n, x, w, q, al, u, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { sum_ext(n, |i: int| x(i) * p(k, i), fw_s(n, x, q, al, u, k)); }
    sum_ext(n, f, g);
}
