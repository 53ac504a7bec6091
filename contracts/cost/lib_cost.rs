// ===== C18: n log n =====
pub open spec fn nlogn(k: int, n: int) -> int { k * (n * bits(n)) }
pub proof fn lem_bits(n: int)
    requires n >= 1
    ensures bits(n) >= 1, bits(2 * n) == bits(n) + 1, bits(2 * n + 1) == bits(n) + 1, n >= 2 ==> bits(n) == bits(n / 2) + 1
    decreases n
{
    assert((2 * n) / 2 == n); assert((2 * n + 1) / 2 == n);
    if n >= 2 { lem_bits(n / 2); }
}
pub proof fn lem_bits_mono(a: int, b: int)
    requires 1 <= a <= b
    ensures bits(a) <= bits(b)
    decreases a
{
    lem_bits(a); lem_bits(b);
    if a >= 2 { lem_bits_mono(a / 2, b / 2); }
}
// everything the planner needs about one length
pub proof fn lem_plan_cost(n: int)
    requires n >= 1
    ensures
        n * bits(n) >= n, n >= 2 ==> n * bits(n) >= 2 * n,
        n >= 32 ==> n * bits(n) >= 6 * n,
        n <= 10 ==> n * (40 * n + 100) <= 500 * n, n <= 50 ==> n * (40 * n + 100) <= 2100 * n, n <= 256 ==> n * (40 * n + 100) <= 10340 * n,
        fft_bound(n) == 100 * (n * bits(n)),
        n >= 2 ==> fft_bound(2 * (n - 1)) <= 600 * (n * bits(n)),
        fft_bound((n - 1) * 2) == fft_bound(2 * (n - 1)),
        fft_bound(2 * (n + 1)) <= 1200 * (n * bits(n)),
        fft_bound((n + 1) * 2) == fft_bound(2 * (n + 1)),
        fft_bound(2 * n + 1) <= 900 * (n * bits(n)),
        n % 2 == 0 ==> 2 * ((n / 2) * bits(n / 2)) + n == n * bits(n),
        n >= 4 && n % 4 == 0 ==> (n / 2) * bits(n / 2) + 2 * ((n / 4) * bits(n / 4)) + n + n / 2 == n * bits(n),
{
    let b = bits(n);
    lem_bits(n);
    if n >= 2 { lem_bits(n / 2); }
    assert(n * b >= n) by(nonlinear_arith) requires b >= 1, n >= 1;
    if n >= 2 { assert(n * b >= 2 * n) by(nonlinear_arith) requires b >= 2, n >= 1; }
    assert(100 * n * b == 100 * (n * b)) by(nonlinear_arith);
    if n >= 32 {
        lem_bits_mono(32, n);
        assert(bits(32) == 6) by { reveal_with_fuel(bits, 8); }
        assert(n * b >= 6 * n) by(nonlinear_arith) requires b >= 6, n >= 1;
    }
    if n <= 10 { assert(n * (40 * n + 100) <= 500 * n) by(nonlinear_arith) requires 1 <= n <= 10; }
    if n <= 50 { assert(n * (40 * n + 100) <= 2100 * n) by(nonlinear_arith) requires 1 <= n <= 50; }
    if n <= 256 { assert(n * (40 * n + 100) <= 10340 * n) by(nonlinear_arith) requires 1 <= n <= 256; }
    lem_bits(n + 1); lem_bits_mono(n + 1, 2 * n);
    let c = bits(2 * (n + 1));
    assert(c <= b + 2);
    assert(100 * (2 * (n + 1)) * c <= 1200 * (n * b)) by(nonlinear_arith) requires c <= b + 2, b >= 1, n >= 1, c >= 1;
    assert((n + 1) * 2 == 2 * (n + 1)); assert((n - 1) * 2 == 2 * (n - 1));
    let d = bits(2 * n + 1);
    assert(100 * (2 * n + 1) * d <= 900 * (n * b)) by(nonlinear_arith) requires d == b + 1, b >= 1, n >= 1;
    if n >= 2 {
        lem_bits_mono(2 * (n - 1), 2 * n); lem_bits(2 * (n - 1));
        let e = bits(2 * (n - 1));
        assert(100 * (2 * (n - 1)) * e <= 600 * (n * b)) by(nonlinear_arith) requires 1 <= e <= b + 1, b >= 1, n >= 2;
    }
    if n % 2 == 0 {
        let h = n / 2;
        assert(2 * (h * (b - 1)) + n == n * b) by(nonlinear_arith) requires n == 2 * h;
    }
    if n >= 4 && n % 4 == 0 {
        let q = n / 4; lem_bits(n / 2); assert(n / 2 / 2 == q);
        assert((n / 2) * (b - 1) + 2 * (q * (b - 2)) + n + n / 2 == n * b) by(nonlinear_arith) requires n == 4 * q, n / 2 == 2 * q;
    }
}
