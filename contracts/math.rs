// ===== exact reals: trigonometry =====
// cosr, sinr, sqrtr and pi are uninterpreted; the axioms below are the only facts assumed about them.
// Each axiom is a theorem of Mathlib; /verif/lean/Axioms.lean states and proves them.
pub uninterp spec fn cosr(x: real) -> real;
pub uninterp spec fn sinr(x: real) -> real;
pub uninterp spec fn sqrtr(x: real) -> real;
pub uninterp spec fn pi() -> real;

pub axiom fn ax_pi_pos() ensures pi() > 0real;
pub axiom fn ax_cos_add(a: real, b: real) ensures cosr(a + b) == cosr(a) * cosr(b) - sinr(a) * sinr(b);
pub axiom fn ax_sin_add(a: real, b: real) ensures sinr(a + b) == sinr(a) * cosr(b) + cosr(a) * sinr(b);
pub axiom fn ax_cos_neg(a: real) ensures cosr(-a) == cosr(a);
pub axiom fn ax_sin_neg(a: real) ensures sinr(-a) == -sinr(a);
pub axiom fn ax_zero() ensures cosr(0real) == 1real, sinr(0real) == 0real;
pub axiom fn ax_half_pi() ensures cosr(pi() / 2real) == 0real, sinr(pi() / 2real) == 1real;
pub axiom fn ax_sin_pos(a: real) requires 0real < a, a < pi() ensures sinr(a) > 0real;
pub axiom fn ax_sqrt(a: real) requires a >= 0real ensures sqrtr(a) >= 0real, sqrtr(a) * sqrtr(a) == a;

// cos(pi m / n) and sin(pi m / n)
pub closed spec fn cc(n: int, m: int) -> real { cosr(pi() * (m as real) / (n as real)) }
pub closed spec fn ss(n: int, m: int) -> real { sinr(pi() * (m as real) / (n as real)) }

proof fn arg_unique(x: real, n: int, m: int)
    requires n > 0, x * (n as real) == pi() * (m as real)
    ensures x == pi() * (m as real) / (n as real)
{
    let p = pi() * (m as real);
    let q = n as real;
    assert(p / q * q == p) by(nonlinear_arith) requires q > 0real;
    assert(x == p / q) by(nonlinear_arith) requires x * q == p, p / q * q == p, q > 0real;
}
proof fn arg_mul(n: int, m: int)
    requires n > 0
    ensures (pi() * (m as real) / (n as real)) * (n as real) == pi() * (m as real)
{
    let p = pi() * (m as real);
    let q = n as real;
    assert(p / q * q == p) by(nonlinear_arith) requires q > 0real;
}

// link to a computed angle
pub proof fn cc_link(x: real, n: int, m: int)
    requires n > 0, x * (n as real) == pi() * (m as real)
    ensures cosr(x) == cc(n, m), sinr(x) == ss(n, m)
{ arg_unique(x, n, m); }

pub closed spec fn ang(n: int, m: int) -> real { pi() * (m as real) / (n as real) }
pub proof fn ang_link(n: int, m: int)
    requires n > 0
    ensures ang(n, m) * (n as real) == pi() * (m as real), cosr(ang(n, m)) == cc(n, m), sinr(ang(n, m)) == ss(n, m)
{ arg_mul(n, m); }
pub proof fn cc_add(n: int, a: int, b: int)
    requires n > 0
    ensures cc(n, a + b) == cc(n, a) * cc(n, b) - ss(n, a) * ss(n, b),
            ss(n, a + b) == ss(n, a) * cc(n, b) + cc(n, a) * ss(n, b),
{
    let x = pi() * (a as real) / (n as real);
    let y = pi() * (b as real) / (n as real);
    arg_mul(n, a); arg_mul(n, b);
    let q = n as real; let ar = a as real; let br = b as real;
    assert((x + y) * q == pi() * ((a + b) as real)) by {
        assert((a + b) as real == ar + br);
        let p = pi();
        assert((x + y) * q == p * (ar + br)) by(nonlinear_arith) requires x * q == p * ar, y * q == p * br;
    }
    arg_unique(x + y, n, a + b);
    ax_cos_add(x, y); ax_sin_add(x, y);
}
pub proof fn cc_neg(n: int, a: int)
    requires n > 0
    ensures cc(n, -a) == cc(n, a), ss(n, -a) == -ss(n, a)
{
    let x = pi() * (a as real) / (n as real);
    arg_mul(n, a);
    let p = pi(); let q = n as real; let ar = a as real;
    assert((-x) * q == p * (-ar)) by(nonlinear_arith) requires x * q == p * ar;
    arg_unique(-x, n, -a);
    ax_cos_neg(x); ax_sin_neg(x);
}
pub proof fn cc_zero(n: int)
    requires n > 0
    ensures cc(n, 0) == 1real, ss(n, 0) == 0real
{
    arg_unique(0real, n, 0); ax_zero();
}
// quarter turn: cos(pi/2) = 0, sin(pi/2) = 1
pub proof fn cc_half(n: int, h: int)
    requires n > 0, 2 * h == n
    ensures cc(n, h) == 0real, ss(n, h) == 1real
{
    let p = pi();
    let x = p / 2real;
    let q = n as real; let hr = h as real;
    assert(q == 2real * hr);
    assert(x * q == p * hr) by(nonlinear_arith) requires q == 2real * hr, x == p / 2real;
    arg_unique(x, n, h);
    ax_half_pi();
}
pub proof fn cc_scale(k: int, n: int, m: int)
    requires n > 0, k > 0
    ensures cc(k * n, k * m) == cc(n, m), ss(k * n, k * m) == ss(n, m)
{
    let x = pi() * (m as real) / (n as real);
    arg_mul(n, m);
    let p = pi(); let q = n as real; let mr = m as real; let kr = k as real;
    assert((k * n) as real == kr * q) by(nonlinear_arith) requires kr == k as real, q == n as real;
    assert((k * m) as real == kr * mr) by(nonlinear_arith) requires kr == k as real, mr == m as real;
    assert(k * n > 0) by(nonlinear_arith) requires n > 0, k > 0;
    assert(x * (kr * q) == p * (kr * mr)) by(nonlinear_arith) requires x * q == p * mr;
    arg_unique(x, k * n, k * m);
}
pub proof fn cc_scale2(n: int, m: int)
    requires n > 0
    ensures cc(2 * n, 2 * m) == cc(n, m), ss(2 * n, 2 * m) == ss(n, m)
{ cc_scale(2, n, m); }
pub proof fn cc_pyth(n: int, m: int)
    requires n > 0
    ensures cc(n, m) * cc(n, m) + ss(n, m) * ss(n, m) == 1real
{
    cc_add(n, m, -m); cc_neg(n, m); cc_zero(n);
    let c = cc(n, m); let s = ss(n, m);
    assert(c * c - s * (-s) == c * c + s * s) by(nonlinear_arith);
}
// half turn
pub proof fn cc_pi(n: int)
    requires n > 0
    ensures cc(n, n) == -1real, ss(n, n) == 0real
{
    cc_scale2(n, n);
    cc_half(2 * n, n);
    cc_add(2 * n, n, n);
}
pub proof fn cc_add_pi(n: int, m: int)
    requires n > 0
    ensures cc(n, m + n) == -cc(n, m), ss(n, m + n) == -ss(n, m)
{
    cc_pi(n); cc_add(n, m, n);
    let c = cc(n, m); let s = ss(n, m);
    assert(c * (-1real) - s * 0real == -c && s * (-1real) + c * 0real == -s) by(nonlinear_arith);
}
pub proof fn cc_add_2pi(n: int, m: int)
    requires n > 0
    ensures cc(n, m + 2 * n) == cc(n, m), ss(n, m + 2 * n) == ss(n, m)
{
    cc_add_pi(n, m); cc_add_pi(n, m + n);
}
pub proof fn cc_periods(n: int, m: int, t: int)
    requires n > 0
    ensures cc(n, m + 2 * n * t) == cc(n, m), ss(n, m + 2 * n * t) == ss(n, m)
    decreases (if t >= 0 { t } else { -t })
{
    if t == 0 {
        assert(2 * n * t == 0);
    } else if t > 0 {
        cc_periods(n, m, t - 1);
        cc_add_2pi(n, m + 2 * n * (t - 1));
        assert(m + 2 * n * (t - 1) + 2 * n == m + 2 * n * t) by(nonlinear_arith);
    } else {
        cc_periods(n, m, t + 1);
        cc_add_2pi(n, m + 2 * n * t);
        assert(m + 2 * n * t + 2 * n == m + 2 * n * (t + 1)) by(nonlinear_arith);
    }
}
// pi - x
pub proof fn cc_pi_minus(n: int, m: int)
    requires n > 0
    ensures cc(n, n - m) == -cc(n, m), ss(n, n - m) == ss(n, m)
{
    cc_neg(n, m); cc_add_pi(n, -m);
}
// 2 pi - x
pub proof fn cc_2pi_minus(n: int, m: int)
    requires n > 0
    ensures cc(n, 2 * n - m) == cc(n, m), ss(n, 2 * n - m) == -ss(n, m)
{
    cc_neg(n, m); cc_add_2pi(n, -m);
}
// pi/2 - x
pub proof fn cc_half_minus(n: int, h: int, m: int)
    requires n > 0, 2 * h == n
    ensures cc(n, h - m) == ss(n, m), ss(n, h - m) == cc(n, m)
{
    cc_neg(n, m); cc_half(n, h); cc_add(n, h, -m);
}
// a table of period len, entry j holding the angle a*j+b, may be indexed modulo its length
pub proof fn cc_table(q: int, a: int, b: int, len: int, t: int)
    requires q > 0, len > 0, a * len == 2 * q
    ensures cc(q, a * (t % len) + b) == cc(q, a * t + b), ss(q, a * (t % len) + b) == ss(q, a * t + b)
{
    let r = t % len; let d = t / len;
    assert(t == d * len + r) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, len); assert(len * d == d * len) by(nonlinear_arith); }
    assert(a * t + b == a * r + b + 2 * q * d) by(nonlinear_arith)
        requires t == d * len + r, a * len == 2 * q;
    cc_periods(q, a * r + b, d);
}
pub proof fn mod_step(cur: int, start: int, stride: int, i: int, len: int)
    requires len > 0, 0 <= stride, stride <= len, cur == (start + stride * i) % len
    ensures
        cur + stride >= len ==> cur + stride - len == (start + stride * (i + 1)) % len,
        cur + stride < len ==> cur + stride == (start + stride * (i + 1)) % len,
{
    let t = start + stride * i;
    assert(start + stride * (i + 1) == t + stride) by(nonlinear_arith) requires t == start + stride * i;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, len);
    let d = t / len;
    if cur + stride >= len {
        assert(t + stride == (d + 1) * len + (cur + stride - len)) by(nonlinear_arith) requires t == len * d + cur;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t + stride, len, d + 1, cur + stride - len);
    } else {
        assert(t + stride == d * len + (cur + stride)) by(nonlinear_arith) requires t == len * d + cur;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t + stride, len, d, cur + stride);
    }
}

// ===== finite sums =====
pub type F = spec_fn(int) -> real;
pub open spec fn sum(n: int, f: F) -> real
    decreases n
{
    if n <= 0 { 0real } else { sum(n - 1, f) + f(n - 1) }
}
pub proof fn sum_step(n: int, f: F)
    requires n >= 0
    ensures sum(n + 1, f) == sum(n, f) + f(n), sum(0, f) == 0real
{}
pub proof fn sum_ext(n: int, f: F, g: F)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i)
    ensures sum(n, f) == sum(n, g)
    decreases n
{
    if n > 0 { sum_ext(n - 1, f, g); assert(f(n - 1) == g(n - 1)); }
}
pub proof fn sum_zero(n: int, f: F)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real
    ensures sum(n, f) == 0real
    decreases n
{
    if n > 0 { sum_zero(n - 1, f); assert(f(n - 1) == 0real); }
}
pub proof fn sum_add(n: int, f: F, g: F)
    ensures sum(n, |i: int| f(i) + g(i)) == sum(n, f) + sum(n, g)
    decreases n
{
    if n > 0 { sum_add(n - 1, f, g); }
}
pub proof fn sum_sub(n: int, f: F, g: F)
    ensures sum(n, |i: int| f(i) - g(i)) == sum(n, f) - sum(n, g)
    decreases n
{
    if n > 0 { sum_sub(n - 1, f, g); }
}
pub proof fn sum_scale(n: int, c: real, f: F)
    ensures sum(n, |i: int| c * f(i)) == c * sum(n, f)
    decreases n
{
    if n > 0 {
        sum_scale(n - 1, c, f);
        let a = sum(n - 1, f); let b = f(n - 1);
        assert(c * (a + b) == c * a + c * b) by(nonlinear_arith);
    } else {
        assert(c * 0real == 0real) by(nonlinear_arith);
    }
}
pub proof fn sum_neg(n: int, f: F)
    ensures sum(n, |i: int| -f(i)) == -sum(n, f)
    decreases n
{
    if n > 0 { sum_neg(n - 1, f); }
}
pub proof fn sum_split(a: int, b: int, f: F)
    requires a >= 0, b >= 0
    ensures sum(a + b, f) == sum(a, f) + sum(b, |i: int| f(a + i))
    decreases b
{
    if b > 0 {
        sum_split(a, b - 1, f);
    }
}
pub proof fn sum_first(n: int, f: F)
    requires n >= 1
    ensures sum(n, f) == f(0) + sum(n - 1, |i: int| f(i + 1))
{
    sum_split(1, n - 1, f);
    assert(sum(1, f) == f(0)) by { sum_step(0, f); }
    sum_ext(n - 1, |i: int| f(1 + i), |i: int| f(i + 1));
}
pub proof fn sum_rev(n: int, f: F)
    requires n >= 0
    ensures sum(n, f) == sum(n, |i: int| f(n - 1 - i))
    decreases n
{
    if n > 0 {
        let g = |i: int| f(n - 1 - i);
        sum_first(n, g);
        sum_rev(n - 1, f);
        sum_ext(n - 1, |i: int| g(i + 1), |i: int| f(n - 1 - 1 - i));
    }
}
pub proof fn sum_even_odd(m: int, f: F)
    requires m >= 0
    ensures sum(2 * m, f) == sum(m, |i: int| f(2 * i)) + sum(m, |i: int| f(2 * i + 1))
    decreases m
{
    if m > 0 {
        sum_even_odd(m - 1, f);
        sum_step(2 * m - 2, f);
        sum_step(2 * m - 1, f);
    }
}
// any length: ceil(n/2) even positions, floor(n/2) odd positions
pub proof fn sum_even_odd_any(n: int, f: F)
    requires n >= 0
    ensures sum(n, f) == sum((n + 1) / 2, |i: int| f(2 * i)) + sum(n / 2, |i: int| f(2 * i + 1))
{
    let m = n / 2;
    sum_even_odd(m, f);
    if n % 2 == 0 {
        assert(n == 2 * m && (n + 1) / 2 == m);
    } else {
        assert(n == 2 * m + 1 && (n + 1) / 2 == m + 1);
        sum_step(2 * m, f);
        sum_step(m, |i: int| f(2 * i));
    }
}
pub proof fn sum_swap(n: int, m: int, f: spec_fn(int, int) -> real)
    ensures sum(n, |i: int| sum(m, |j: int| f(i, j))) == sum(m, |j: int| sum(n, |i: int| f(i, j)))
    decreases n
{
    let inner = |i: int| sum(m, |j: int| f(i, j));
    if n > 0 {
        sum_swap(n - 1, m, f);
        let h = |j: int| sum(n - 1, |i: int| f(i, j));
        let last = |j: int| f(n - 1, j);
        sum_add(m, h, last);
        sum_ext(m, |j: int| sum(n, |i: int| f(i, j)), |j: int| h(j) + last(j));
        assert(inner(n - 1) == sum(m, last)) by { sum_ext(m, |j: int| f(n - 1, j), last); }
        assert(sum(n, inner) == sum(n - 1, inner) + inner(n - 1));
    } else {
        sum_zero(m, |j: int| sum(n, |i: int| f(i, j)));
    }
}
// only one non-zero term
pub proof fn sum_single(n: int, p: int, f: F)
    requires 0 <= p < n, forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == 0real
    ensures sum(n, f) == f(p)
    decreases n
{
    if n - 1 == p { sum_zero(n - 1, f); } else { sum_single(n - 1, p, f); assert(f(n - 1) == 0real); }
}
// re-indexing along a bijection given with its inverse
pub proof fn sum_perm(n: int, f: F, to: spec_fn(int) -> int, inv: spec_fn(int) -> int)
    requires n >= 0,
        forall|j: int| 0 <= j < n ==> 0 <= #[trigger] to(j) < n && inv(to(j)) == j,
        forall|p: int| 0 <= p < n ==> 0 <= #[trigger] inv(p) < n && to(inv(p)) == p,
    ensures sum(n, |j: int| f(to(j))) == sum(n, f)
{
    let d = |j: int, p: int| if to(j) == p { f(p) } else { 0real };
    sum_swap(n, n, d);
    let a = |j: int| sum(n, |p: int| d(j, p));
    let b = |p: int| sum(n, |j: int| d(j, p));
    assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == f(to(j)) by {
        sum_single(n, to(j), |p: int| d(j, p));
    }
    assert forall|p: int| 0 <= p < n implies #[trigger] b(p) == f(p) by {
        let g = |j: int| d(j, p);
        assert forall|j: int| 0 <= j < n && j != inv(p) implies #[trigger] g(j) == 0real by {
            assert(inv(to(j)) == j);
        }
        sum_single(n, inv(p), g);
    }
    sum_ext(n, a, |j: int| f(to(j)));
    sum_ext(n, b, f);
}
// small steps of polynomial rearrangement
pub proof fn rdist(x: real, y: real, z: real)
    ensures x * (y + z) == x * y + x * z, x * (y - z) == x * y - x * z, (y + z) * x == x * y + x * z, (y - z) * x == x * y - x * z
{
    assert(x * (y + z) == x * y + x * z) by(nonlinear_arith);
    assert(x * (y - z) == x * y - x * z) by(nonlinear_arith);
    assert((y + z) * x == x * y + x * z) by(nonlinear_arith);
    assert((y - z) * x == x * y - x * z) by(nonlinear_arith);
}
pub proof fn rassoc(x: real, y: real, z: real)
    ensures x * y * z == x * (y * z), x * y == y * x, x * z == z * x, y * z == z * y, (x * z) * y == x * (y * z), (y * x) * z == x * (y * z), y * (x * z) == x * (y * z), (y * z) * x == x * (y * z), (z * x) * y == x * (y * z), z * (x * y) == x * (y * z)
{
    assert(x * y * z == x * (y * z)) by(nonlinear_arith);
    assert((x * z) * y == x * (y * z)) by(nonlinear_arith);
    assert((y * x) * z == x * (y * z)) by(nonlinear_arith);
    assert(y * (x * z) == x * (y * z)) by(nonlinear_arith);
    assert((y * z) * x == x * (y * z)) by(nonlinear_arith);
    assert((z * x) * y == x * (y * z)) by(nonlinear_arith);
    assert(z * (x * y) == x * (y * z)) by(nonlinear_arith);
    assert(x * y == y * x && x * z == z * x && y * z == z * y) by(nonlinear_arith);
}
pub proof fn rneg(x: real, y: real)
    ensures x * (-y) == -(x * y), (-x) * y == -(x * y), (-x) * (-y) == x * y, x * y == y * x
{
    assert(x * (-y) == -(x * y)) by(nonlinear_arith);
    assert((-x) * y == -(x * y)) by(nonlinear_arith);
    assert((-x) * (-y) == x * y) by(nonlinear_arith);
    assert(x * y == y * x) by(nonlinear_arith);
}
pub proof fn rzero(x: real) ensures 0real * x == 0real, x * 0real == 0real, 1real * x == x, x * 1real == x {}
