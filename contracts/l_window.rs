// ===== window functions of length l =====
pub open spec fn win_mp3(l: int, i: int) -> real { ss(2 * l, 2 * i + 1) }
pub open spec fn win_mp3i(l: int, i: int) -> real { ss(2 * l, 2 * i + 1) * sqrtr(4real / (l as real)) }
pub open spec fn win_vorbis(l: int, i: int) -> real { vorb(ss(2 * l, 2 * i + 1)) }
pub open spec fn win_vorbisi(l: int, i: int) -> real { vorb(ss(2 * l, 2 * i + 1)) * sqrtr(4real / (l as real)) }
pub open spec fn win_one(l: int, i: int) -> real { 1real }
pub open spec fn win_inv(l: int, i: int) -> real { sqrtr(2real / (l as real)) }
// sin(pi/2 s^2)
pub open spec fn vorb(s: real) -> real { sinr(pi() / 2real * (s * s)) }
pub proof fn lem_vorbis(s: real)
    ensures sinr(pi() * 0.5real * s * s) == vorb(s)
{
    let p = pi();
    assert(p * 0.5real * s * s == p / 2real * (s * s)) by(nonlinear_arith);
}
pub proof fn lem_winscale(l: int)
    requires l >= 1
    ensures 4real / (l as real) >= 0real, 2real / (l as real) >= 0real
{
    let q = l as real;
    assert(4real / q >= 0real && 2real / q >= 0real) by(nonlinear_arith) requires q > 0real;
}
