// ===== DST6 and DST7 through one FFT of length 2n+1 =====
pub open spec fn im6(x: F) -> F { |j: int| if j % 2 == 1 { x(j / 2) } else { 0real } }
pub proof fn lem_dst6_fft(s: Seq<Cx>, x: F, n: int, m: int)
    requires n >= 1,
        forall|j: int| 0 <= j < 2 * n + 1 ==> (#[trigger] s[j]).re@ == 0real && s[j].im@ == im6(x)(j),
    ensures fft_re(s, 2 * n + 1, m) == dst6(x, n, 2 * m - 1), fft_re(s, 2 * n + 1, m) == dst6(x, n, 2 * (n - m))
{
    let N = 2 * n + 1;
    lem_fft(s, fzero(), im6(x), N, m);
    let t = t_re(fzero(), im6(x), N, m);
    let d1 = t_dst6(x, n, 2 * m - 1); let d2 = t_dst6(x, n, 2 * (n - m));
    sum_even_odd_any(N, t);
    let te = |i: int| t(2 * i); let to = |i: int| t(2 * i + 1);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] te(i) == 0real by { rzero(cc(N, 2 * (2 * i) * m)); rzero(ss(N, 2 * (2 * i) * m)); }
    sum_zero(n + 1, te);
    assert((N + 1) / 2 == n + 1 && N / 2 == n);
    assert forall|i: int| 0 <= i < n implies #[trigger] to(i) == d1(i) && d2(i) == d1(i) by {
        let a = 2 * (2 * i + 1) * m; rzero(cc(N, a));
        assert((2 * m - 1 + 1) * (2 * i + 1) == a) by(nonlinear_arith) requires a == 2 * (2 * i + 1) * m;
        assert((2 * (n - m) + 1) * (2 * i + 1) == (N - a) + 2 * N * i) by(nonlinear_arith) requires a == 2 * (2 * i + 1) * m, N == 2 * n + 1;
        cc_periods(N, N - a, i); cc_pi_minus(N, a);
        assert((2 * i + 1) / 2 == i && (2 * i + 1) % 2 == 1);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] d2(i) == d1(i) by { assert(to(i) == d1(i)); }
    sum_ext(n, to, d1); sum_ext(n, d2, d1);
}
// the odd extension: 0, -x back to front, x
pub open spec fn ext7(x: F, n: int) -> F { |j: int| if j == 0 { 0real } else if j <= n { -x(eo(n, n - j)) } else { x(eo(n, j - n - 1)) } }
pub proof fn lem_dst7_term(n: int, p: int, k: int)
    requires 0 <= p < n
    ensures ss(2 * n + 1, 2 * (n + 1 + p) * (2 * k + 1)) == -ss(2 * n + 1, (2 * k + 1) * (eo(n, p) + 1)),
        ss(2 * n + 1, 2 * (n - p) * (2 * k + 1)) == ss(2 * n + 1, (2 * k + 1) * (eo(n, p) + 1)),
{
    let N = 2 * n + 1; let h = 2 * k + 1; let e = eo(n, p) + 1; let a = h * e; let b = 2 * (n + 1 + p) * h;
    lem_eo_range(n, p);
    // 2(n+1+p) is N + e for even positions and 2N - e for odd ones
    if p < (n + 1) / 2 {
        assert(2 * (n + 1 + p) == N + e);
        assert(b == (a + N) + 2 * N * k) by(nonlinear_arith) requires b == 2 * (n + 1 + p) * h, 2 * (n + 1 + p) == N + e, a == h * e, h == 2 * k + 1;
        cc_periods(N, a + N, k); cc_add_pi(N, a);
    } else {
        assert(2 * (n + 1 + p) == 2 * N - e);
        assert(b == -a + 2 * N * h) by(nonlinear_arith) requires b == 2 * (n + 1 + p) * h, 2 * (n + 1 + p) == 2 * N - e, a == h * e;
        cc_periods(N, -a, h); cc_neg(N, a);
    }
    let c = 2 * (n - p) * h;
    assert(c == -b + 2 * N * h) by(nonlinear_arith) requires b == 2 * (n + 1 + p) * h, c == 2 * (n - p) * h, N == 2 * n + 1;
    cc_periods(N, -b, h); cc_neg(N, b);
}
pub proof fn lem_dst7_fft(s: Seq<Cx>, x: F, n: int, k: int)
    requires n >= 1,
        forall|j: int| 0 <= j < 2 * n + 1 ==> (#[trigger] s[j]).re@ == ext7(x, n)(j) && s[j].im@ == 0real,
    ensures fft_im(s, 2 * n + 1, 2 * k + 1) * (1real / 2real) == dst7(x, n, k)
{
    let N = 2 * n + 1; let u = ext7(x, n); let h = 2 * k + 1;
    lem_fft(s, u, fzero(), N, h);
    let t = t_im(u, fzero(), N, h); let d = t_dst7(x, n, k);
    let de = |j: int| d(eo(n, j));
    lem_eo_sum(n, d);
    sum_first(N, t);
    let t1 = |j: int| t(j + 1);
    sum_split(n, n, t1);
    let t2 = |j: int| t1(n + j);
    rzero(ss(N, 2 * 0 * h)); rzero(cc(N, 2 * 0 * h));
    let der = |j: int| de(n - 1 - j);
    assert forall|j: int| 0 <= j < n implies #[trigger] t2(j) == de(j) by {
        lem_dst7_term(n, j, k); rzero(cc(N, 2 * (n + 1 + j) * h));
        let w = x(eo(n, j)); let S = ss(N, (2 * k + 1) * (eo(n, j) + 1)); mul_neg(w, S);
        assert(t2(j) == t(n + j + 1));
        assert(n + j + 1 == n + 1 + j);
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] t1(j) == der(j) by {
        let p = n - 1 - j; lem_dst7_term(n, p, k); rzero(cc(N, 2 * (j + 1) * h));
        assert(n - p == j + 1);
        let w = x(eo(n, p)); let S = ss(N, (2 * k + 1) * (eo(n, p) + 1)); mul_neg(w, S);
    }
    sum_ext(n, t2, de); sum_ext(n, t1, der); sum_rev(n, de);
}
