// ===== DFT of a sequence given by its real and imaginary parts =====
pub open spec fn t_re(u: F, v: F, n: int, k: int) -> F { |j: int| u(j) * cc(n, 2 * j * k) + v(j) * ss(n, 2 * j * k) }
pub open spec fn t_im(u: F, v: F, n: int, k: int) -> F { |j: int| v(j) * cc(n, 2 * j * k) - u(j) * ss(n, 2 * j * k) }
pub proof fn lem_fft(s: Seq<Cx>, u: F, v: F, n: int, k: int)
    requires forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).re@ == u(j), forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).im@ == v(j)
    ensures fft_re(s, n, k) == sum(n, t_re(u, v, n, k)), fft_im(s, n, k) == sum(n, t_im(u, v, n, k))
{
    let f = |j: int| s[j].re@ * cc(n, 2 * j * k) + s[j].im@ * ss(n, 2 * j * k);
    let g = |j: int| s[j].im@ * cc(n, 2 * j * k) - s[j].re@ * ss(n, 2 * j * k);
    assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == t_re(u, v, n, k)(j) by { assert(s[j].re@ == u(j)); }
    assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == t_im(u, v, n, k)(j) by { assert(s[j].re@ == u(j)); }
    sum_ext(n, f, t_re(u, v, n, k));
    sum_ext(n, g, t_im(u, v, n, k));
}
pub open spec fn fzero() -> F { |j: int| 0real }
// ----- type 1 -----
pub open spec fn ext1(x: F, n: int) -> F { |j: int| if j < n { x(j) } else { x(2 * (n - 1) - j) } }
pub proof fn lem_dct1_fft(s: Seq<Cx>, x: F, n: int, k: int)
    requires n >= 2,
        forall|j: int| 0 <= j < 2 * (n - 1) ==> (#[trigger] s[j]).re@ == ext1(x, n)(j),
        forall|j: int| 0 <= j < 2 * (n - 1) ==> (#[trigger] s[j]).im@ == 0real,
    ensures fft_re(s, 2 * (n - 1), k) * (1real / 2real) == dct1(x, n, k)
{
    let q = n - 1; let N = 2 * q;
    lem_fft(s, ext1(x, n), fzero(), N, k);
    let t = t_re(ext1(x, n), fzero(), N, k);
    let f = |i: int| x(i) * cc(q, k * i);
    assert forall|j: int| 0 <= j < n && j < N implies #[trigger] t(j) == f(j) by {
        assert(2 * j * k == 2 * (k * j)) by(nonlinear_arith);
        cc_scale2(q, k * j);
    }
    let t2 = |i: int| t(n + i);
    let m = |i: int| f(i + 1);
    assert forall|i: int| 0 <= i < n - 2 implies #[trigger] t2(i) == m(n - 3 - i) by {
        let p = n - 2 - i;
        assert(2 * (n + i) * k == 2 * (2 * q * k - k * p)) by(nonlinear_arith) requires q == n - 1, p == n - 2 - i;
        cc_scale2(q, 2 * q * k - k * p);
        assert(2 * q * k - k * p == -(k * p) + 2 * q * k);
        cc_periods(q, -(k * p), k);
        cc_neg(q, k * p);
    }
    sum_split(n, n - 2, t);
    sum_ext(n - 2, t2, |i: int| m(n - 3 - i));
    sum_rev(n - 2, m);
    assert((|i: int| m(n - 2 - 1 - i)) == (|i: int| m(n - 3 - i)));
    // both sums in terms of the interior
    let d = t_dct1(x, n, k);
    assert forall|i: int| 1 <= i < n - 1 implies #[trigger] d(i) == f(i) by { }
    let c0 = cc(q, k * 0); let c1 = cc(q, k * (n - 1)); let x0 = x(0); let x1 = x(n - 1);
    assert(x0 / 2real * c0 == (x0 * c0) / 2real && x1 / 2real * c1 == (x1 * c1) / 2real) by(nonlinear_arith);
    sum_first(n, t); sum_first(n, d);
    let ta = |i: int| t(i + 1); let da = |i: int| d(i + 1);
    sum_step(n - 2, ta); sum_step(n - 2, da);
    if n > 2 {
        sum_ext(n - 2, ta, m);
        sum_ext(n - 2, da, m);
    }
    assert(t(0) == f(0));
    assert(n > 2 ==> t(n - 1) == f(n - 1));
    if n == 2 {
        assert(t(1) == f(1)) by {
            assert(2 * 1 * k == 2 * (k * 1)) by(nonlinear_arith);
            cc_scale2(q, k * 1);
        }
    }
}
pub open spec fn exts1(x: F, n: int) -> F { |j: int| if j == 0 { 0real } else if j <= n { x(j - 1) } else if j == n + 1 { 0real } else { -x(2 * (n + 1) - 1 - j) } }
pub proof fn lem_dst1_fft(s: Seq<Cx>, x: F, n: int, k: int)
    requires n >= 1,
        forall|j: int| 0 <= j < 2 * (n + 1) ==> (#[trigger] s[j]).re@ == exts1(x, n)(j),
        forall|j: int| 0 <= j < 2 * (n + 1) ==> (#[trigger] s[j]).im@ == 0real,
    ensures fft_im(s, 2 * (n + 1), 2 * (n + 1) - 1 - k) * (1real / 2real) == dst1(x, n, k)
{
    let q = n + 1; let N = 2 * q; let u = exts1(x, n); let kk = N - 1 - k; let K = k + 1;
    lem_fft(s, u, fzero(), N, kk);
    let t = t_im(u, fzero(), N, kk);
    let f = |j: int| u(j) * ss(q, j * K);
    assert forall|j: int| 0 <= j < N implies #[trigger] t(j) == f(j) by {
        assert(2 * j * kk == -(2 * (j * K)) + 2 * N * j) by(nonlinear_arith) requires kk == N - K;
        cc_periods(N, -(2 * (j * K)), j);
        cc_neg(N, 2 * (j * K));
        cc_scale2(q, j * K);
        mul_neg(u(j), ss(q, j * K));
    }
    sum_ext(N, t, f);
    // f(0) = 0, then x, then 0, then x again reversed
    let d = t_dst1(x, n, k);
    let g = |j: int| f(j + 1);
    sum_first(N, f);
    let f2 = |i: int| g(n + i);
    sum_split(n, n + 1, g);
    let h = |i: int| f2(i + 1);
    sum_first(n + 1, f2);
    assert(f(0) == 0real && f2(0) == 0real);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == d(i) by { imul_comm(i + 1, K); }
    assert forall|i: int| 0 <= i < n implies #[trigger] h(i) == d(n - 1 - i) by {
        let j = n + 2 + i; let p = n - 1 - i;
        assert(h(i) == f(j));
        assert(j * K == -(K * (p + 1)) + 2 * q * K) by(nonlinear_arith) requires j == n + 2 + i, p == n - 1 - i, q == n + 1;
        cc_periods(q, -(K * (p + 1)), K);
        cc_neg(q, K * (p + 1));
        let a = x(p); let b = ss(q, K * (p + 1));
        assert((-a) * (-b) == a * b) by(nonlinear_arith);
    }
    sum_ext(n, g, d);
    sum_ext(n, h, |i: int| d(n - 1 - i));
    sum_rev(n, d);
}
