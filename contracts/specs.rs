// ===== definitions of the transforms over the exact reals =====
// cc(n, m) = cos(pi m / n), ss(n, m) = sin(pi m / n)
pub open spec fn rv(s: Seq<R>) -> F { |i: int| s[i]@ }
pub open spec fn max_len() -> int { 0x8000_0000 }
// half-weighted end elements
pub open spec fn hw0(x: F) -> F { |i: int| if i == 0 { x(0) / 2real } else { x(i) } }
pub open spec fn hwl(x: F, n: int) -> F { |i: int| if i == n - 1 { x(n - 1) / 2real } else { x(i) } }
pub open spec fn hw2(x: F, n: int) -> F { |i: int| if i == 0 || i == n - 1 { x(i) / 2real } else { x(i) } }
// terms and transforms
pub open spec fn ct(x: F, q: int, m: spec_fn(int) -> int) -> F { |i: int| x(i) * cc(q, m(i)) }
pub open spec fn st(x: F, q: int, m: spec_fn(int) -> int) -> F { |i: int| x(i) * ss(q, m(i)) }
pub open spec fn t_dct1(x: F, n: int, k: int) -> F { |i: int| hw2(x, n)(i) * cc(n - 1, k * i) }
pub open spec fn t_dst1(x: F, n: int, k: int) -> F { |i: int| x(i) * ss(n + 1, (k + 1) * (i + 1)) }
pub open spec fn t_dct2(x: F, n: int, k: int) -> F { |i: int| x(i) * cc(2 * n, k * (2 * i + 1)) }
pub open spec fn t_dst2(x: F, n: int, k: int) -> F { |i: int| x(i) * ss(2 * n, (k + 1) * (2 * i + 1)) }
pub open spec fn t_dct3(x: F, n: int, k: int) -> F { |i: int| hw0(x)(i) * cc(2 * n, (2 * k + 1) * i) }
pub open spec fn t_dst3(x: F, n: int, k: int) -> F { |i: int| hwl(x, n)(i) * ss(2 * n, (2 * k + 1) * (i + 1)) }
pub open spec fn t_dct4(x: F, n: int, k: int) -> F { |i: int| x(i) * cc(4 * n, (2 * k + 1) * (2 * i + 1)) }
pub open spec fn t_dst4(x: F, n: int, k: int) -> F { |i: int| x(i) * ss(4 * n, (2 * k + 1) * (2 * i + 1)) }
pub open spec fn t_dct5(x: F, n: int, k: int) -> F { |i: int| hw0(x)(i) * cc(2 * n - 1, 2 * (k * i)) }
pub open spec fn t_dst5(x: F, n: int, k: int) -> F { |i: int| x(i) * ss(2 * n + 1, 2 * ((k + 1) * (i + 1))) }
pub open spec fn t_dct6(x: F, n: int, k: int) -> F { |i: int| hwl(x, n)(i) * cc(2 * n - 1, k * (2 * i + 1)) }
pub open spec fn t_dst6(x: F, n: int, k: int) -> F { |i: int| x(i) * ss(2 * n + 1, (k + 1) * (2 * i + 1)) }
pub open spec fn t_dct7(x: F, n: int, k: int) -> F { |i: int| hw0(x)(i) * cc(2 * n - 1, (2 * k + 1) * i) }
pub open spec fn t_dst7(x: F, n: int, k: int) -> F { |i: int| x(i) * ss(2 * n + 1, (2 * k + 1) * (i + 1)) }
pub open spec fn t_dct8(x: F, n: int, k: int) -> F { |i: int| x(i) * cc(2 * (2 * n + 1), (2 * k + 1) * (2 * i + 1)) }
pub open spec fn t_dst8(x: F, n: int, k: int) -> F { |i: int| hwl(x, n)(i) * ss(2 * (2 * n - 1), (2 * k + 1) * (2 * i + 1)) }
pub open spec fn dct1(x: F, n: int, k: int) -> real { sum(n, t_dct1(x, n, k)) }
pub open spec fn dct2(x: F, n: int, k: int) -> real { sum(n, t_dct2(x, n, k)) }
pub open spec fn dct3(x: F, n: int, k: int) -> real { sum(n, t_dct3(x, n, k)) }
pub open spec fn dct4(x: F, n: int, k: int) -> real { sum(n, t_dct4(x, n, k)) }
pub open spec fn dct5(x: F, n: int, k: int) -> real { sum(n, t_dct5(x, n, k)) }
pub open spec fn dct6(x: F, n: int, k: int) -> real { sum(n, t_dct6(x, n, k)) }
pub open spec fn dct7(x: F, n: int, k: int) -> real { sum(n, t_dct7(x, n, k)) }
pub open spec fn dct8(x: F, n: int, k: int) -> real { sum(n, t_dct8(x, n, k)) }
pub open spec fn dst1(x: F, n: int, k: int) -> real { sum(n, t_dst1(x, n, k)) }
pub open spec fn dst2(x: F, n: int, k: int) -> real { sum(n, t_dst2(x, n, k)) }
pub open spec fn dst3(x: F, n: int, k: int) -> real { sum(n, t_dst3(x, n, k)) }
pub open spec fn dst4(x: F, n: int, k: int) -> real { sum(n, t_dst4(x, n, k)) }
pub open spec fn dst5(x: F, n: int, k: int) -> real { sum(n, t_dst5(x, n, k)) }
pub open spec fn dst6(x: F, n: int, k: int) -> real { sum(n, t_dst6(x, n, k)) }
pub open spec fn dst7(x: F, n: int, k: int) -> real { sum(n, t_dst7(x, n, k)) }
pub open spec fn dst8(x: F, n: int, k: int) -> real { sum(n, t_dst8(x, n, k)) }

// a walk through a periodic table: entry j of the table (length len) holds the angle a*j+b over q
pub closed spec fn at_walk(cur: int, start: int, stride: int, i: int, len: int) -> bool {
    0 <= cur < len && cur == (start + stride * i) % len
}
pub proof fn walk_init(start: int, stride: int, i: int, len: int, cur: int)
    requires 0 <= cur < len, cur == start + stride * i
    ensures at_walk(cur, start, stride, i, len)
{
    vstd::arithmetic::div_mod::lemma_small_mod(cur as nat, len as nat);
}
pub proof fn walk_init_mod(start: int, stride: int, len: int, cur: int)
    requires 0 < len, cur == start % len
    ensures at_walk(cur, start, stride, 0, len)
{
    assert(stride * 0 == 0);
    vstd::arithmetic::div_mod::lemma_mod_bound(start, len);
}
pub proof fn walk(q: int, a: int, b: int, len: int, start: int, stride: int, i: int, cur: int, m: int)
    requires q > 0, len > 0, a * len == 2 * q, 0 <= stride <= len, at_walk(cur, start, stride, i, len), a * (start + stride * i) + b == m
    ensures
        0 <= cur < len,
        cc(q, a * cur + b) == cc(q, m),
        ss(q, a * cur + b) == ss(q, m),
        cur + stride >= len ==> at_walk(cur + stride - len, start, stride, i + 1, len),
        cur + stride < len ==> at_walk(cur + stride, start, stride, i + 1, len),
        at_walk((cur + stride) % len, start, stride, i + 1, len),
{
    if cur + stride < len { vstd::arithmetic::div_mod::lemma_small_mod((cur + stride) as nat, len as nat); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(cur + stride, len, 1, cur + stride - len); }
    cc_table(q, a, b, len, start + stride * i);
    mod_step(cur, start, stride, i, len);
}
pub proof fn mul_neg(a: real, b: real) ensures a * (-b) == -(a * b), (-a) * b == -(a * b) {
    assert(a * (-b) == -(a * b)) by(nonlinear_arith);
    assert((-a) * b == -(a * b)) by(nonlinear_arith);
}
// the angle step pi / d of a table with entries a*j+b over q
pub proof fn lem_cf(cf: real, d: real, q: int, a: int)
    requires q > 0, a > 0, d * (a as real) == q as real, d != 0real ==> cf == pi() / d
    ensures cf * (q as real) == pi() * (a as real)
{
    let ar = a as real; let qr = q as real; let p = pi();
    assert(d != 0real) by(nonlinear_arith) requires d * ar == qr, qr > 0real;
    assert(cf * d == p) by(nonlinear_arith) requires cf == p / d, d != 0real;
    assert(cf * qr == p * ar) by(nonlinear_arith) requires cf * d == p, d * ar == qr;
}
pub proof fn lem_table(cf: real, off: real, i: int, q: int, a: int, b: int)
    requires q > 0, a > 0, cf * (q as real) == pi() * (a as real), off * (a as real) == b as real
    ensures ({ let x = cf * (i as real + off); cosr(x) == cc(q, a * i + b) && sinr(x) == ss(q, a * i + b) }),
        off == 0real ==> ({ let x = cf * (i as real); cosr(x) == cc(q, a * i + b) && sinr(x) == ss(q, a * i + b) }),
{
    let ar = a as real; let qr = q as real; let p = pi(); let x = i as real + off;
    assert((a * i + b) as real == ar * (i as real) + b as real) by(nonlinear_arith) requires ar == a as real;
    assert((cf * x) * qr == p * (ar * (i as real) + b as real)) by(nonlinear_arith) requires cf * qr == p * ar, off * ar == b as real, x == i as real + off;
    cc_link(cf * x, q, a * i + b);
}
