// ===== trusted reading of the element type and of dependencies =====
// R stands for the generic element type T, F64 for f64, Cx for Complex<T>, Cx64 for Complex<f64>; each denotes an exact
// real (complex) number and each operation is the exact one (assumption A-REAL). Bodies are never executed.
use core::ops::{Add, Sub, Mul, Div, Neg};

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }
impl View for R { type V = real; uninterp spec fn view(&self) -> real; }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { x: f64 }
impl View for F64 { type V = real; uninterp spec fn view(&self) -> real; }

#[derive(Clone, Copy)]
pub struct Cx { pub re: R, pub im: R }
#[derive(Clone, Copy)]
pub struct Cx64 { pub re: F64, pub im: F64 }

impl vstd::std_specs::ops::AddSpecImpl<R> for R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: R) -> bool { true }
    open spec fn add_spec(self, rhs: R) -> R { arbitrary() }
}
impl Add<R> for R { type Output = R;
    #[verifier::external_body]
    fn add(self, rhs: R) -> (r: R) ensures r@ == self@ + rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<R> for R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: R) -> bool { true }
    open spec fn sub_spec(self, rhs: R) -> R { arbitrary() }
}
impl Sub<R> for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, rhs: R) -> (r: R) ensures r@ == self@ - rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::MulSpecImpl<R> for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: R) -> bool { true }
    open spec fn mul_spec(self, rhs: R) -> R { arbitrary() }
}
impl Mul<R> for R { type Output = R;
    #[verifier::external_body]
    fn mul(self, rhs: R) -> (r: R) ensures r@ == self@ * rhs@, r@ == rhs@ * self@ { unimplemented!() }
}

impl vstd::std_specs::ops::DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: R) -> bool { true }
    open spec fn div_spec(self, rhs: R) -> R { arbitrary() }
}
impl Div<R> for R { type Output = R;
    #[verifier::external_body]
    fn div(self, rhs: R) -> (r: R) ensures rhs@ != 0real ==> r@ == self@ / rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::NegSpecImpl for R {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> R { arbitrary() }
}
impl Neg for R { type Output = R;
    #[verifier::external_body]
    fn neg(self) -> (r: R) ensures r@ == -self@ { unimplemented!() }
}

impl vstd::std_specs::ops::AddSpecImpl<F64> for F64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: F64) -> bool { true }
    open spec fn add_spec(self, rhs: F64) -> F64 { arbitrary() }
}
impl Add<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn add(self, rhs: F64) -> (r: F64) ensures r@ == self@ + rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<F64> for F64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: F64) -> bool { true }
    open spec fn sub_spec(self, rhs: F64) -> F64 { arbitrary() }
}
impl Sub<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn sub(self, rhs: F64) -> (r: F64) ensures r@ == self@ - rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::MulSpecImpl<F64> for F64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: F64) -> bool { true }
    open spec fn mul_spec(self, rhs: F64) -> F64 { arbitrary() }
}
impl Mul<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn mul(self, rhs: F64) -> (r: F64) ensures r@ == self@ * rhs@, r@ == rhs@ * self@ { unimplemented!() }
}

impl vstd::std_specs::ops::DivSpecImpl<F64> for F64 {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: F64) -> bool { true }
    open spec fn div_spec(self, rhs: F64) -> F64 { arbitrary() }
}
impl Div<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn div(self, rhs: F64) -> (r: F64) ensures rhs@ != 0real ==> r@ == self@ / rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::NegSpecImpl for F64 {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F64 { arbitrary() }
}
impl Neg for F64 { type Output = F64;
    #[verifier::external_body]
    fn neg(self) -> (r: F64) ensures r@ == -self@ { unimplemented!() }
}

impl vstd::std_specs::ops::AddSpecImpl<Cx> for Cx {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Cx) -> bool { true }
    open spec fn add_spec(self, rhs: Cx) -> Cx { arbitrary() }
}
impl Add<Cx> for Cx { type Output = Cx;
    #[verifier::external_body]
    fn add(self, rhs: Cx) -> (r: Cx) ensures r.re@ == self.re@ + rhs.re@, r.im@ == self.im@ + rhs.im@ { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<Cx> for Cx {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Cx) -> bool { true }
    open spec fn sub_spec(self, rhs: Cx) -> Cx { arbitrary() }
}
impl Sub<Cx> for Cx { type Output = Cx;
    #[verifier::external_body]
    fn sub(self, rhs: Cx) -> (r: Cx) ensures r.re@ == self.re@ - rhs.re@, r.im@ == self.im@ - rhs.im@ { unimplemented!() }
}

impl vstd::std_specs::ops::MulSpecImpl<Cx> for Cx {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Cx) -> bool { true }
    open spec fn mul_spec(self, rhs: Cx) -> Cx { arbitrary() }
}
impl Mul<Cx> for Cx { type Output = Cx;
    #[verifier::external_body]
    fn mul(self, rhs: Cx) -> (r: Cx) ensures r.re@ == self.re@ * rhs.re@ - self.im@ * rhs.im@, r.im@ == self.re@ * rhs.im@ + self.im@ * rhs.re@, r.re@ == rhs.re@ * self.re@ - rhs.im@ * self.im@, r.im@ == rhs.re@ * self.im@ + rhs.im@ * self.re@ { unimplemented!() }
}

impl vstd::std_specs::ops::MulSpecImpl<R> for Cx {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: R) -> bool { true }
    open spec fn mul_spec(self, rhs: R) -> Cx { arbitrary() }
}
impl Mul<R> for Cx { type Output = Cx;
    #[verifier::external_body]
    fn mul(self, rhs: R) -> (r: Cx) ensures r.re@ == self.re@ * rhs@, r.im@ == self.im@ * rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::NegSpecImpl for Cx {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Cx { arbitrary() }
}
impl Neg for Cx { type Output = Cx;
    #[verifier::external_body]
    fn neg(self) -> (r: Cx) ensures r.re@ == -self.re@, r.im@ == -self.im@ { unimplemented!() }
}

impl Cx {
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Cx) ensures r.re@ == self.re@, r.im@ == -self.im@ { unimplemented!() }
    pub fn new(re: R, im: R) -> (r: Cx) ensures r.re == re, r.im == im { Cx { re, im } }
    #[verifier::external_body]
    pub fn from(x: R) -> (r: Cx) ensures r.re@ == x@, r.im@ == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn scale(&self, t: R) -> (r: Cx) ensures r.re@ == self.re@ * t@, r.im@ == self.im@ * t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Cx) ensures r.re@ == 0real, r.im@ == 0real { unimplemented!() }
}

impl vstd::std_specs::ops::AddSpecImpl<Cx64> for Cx64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Cx64) -> bool { true }
    open spec fn add_spec(self, rhs: Cx64) -> Cx64 { arbitrary() }
}
impl Add<Cx64> for Cx64 { type Output = Cx64;
    #[verifier::external_body]
    fn add(self, rhs: Cx64) -> (r: Cx64) ensures r.re@ == self.re@ + rhs.re@, r.im@ == self.im@ + rhs.im@ { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<Cx64> for Cx64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Cx64) -> bool { true }
    open spec fn sub_spec(self, rhs: Cx64) -> Cx64 { arbitrary() }
}
impl Sub<Cx64> for Cx64 { type Output = Cx64;
    #[verifier::external_body]
    fn sub(self, rhs: Cx64) -> (r: Cx64) ensures r.re@ == self.re@ - rhs.re@, r.im@ == self.im@ - rhs.im@ { unimplemented!() }
}

impl vstd::std_specs::ops::MulSpecImpl<Cx64> for Cx64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Cx64) -> bool { true }
    open spec fn mul_spec(self, rhs: Cx64) -> Cx64 { arbitrary() }
}
impl Mul<Cx64> for Cx64 { type Output = Cx64;
    #[verifier::external_body]
    fn mul(self, rhs: Cx64) -> (r: Cx64) ensures r.re@ == self.re@ * rhs.re@ - self.im@ * rhs.im@, r.im@ == self.re@ * rhs.im@ + self.im@ * rhs.re@, r.re@ == rhs.re@ * self.re@ - rhs.im@ * self.im@, r.im@ == rhs.re@ * self.im@ + rhs.im@ * self.re@ { unimplemented!() }
}

impl vstd::std_specs::ops::MulSpecImpl<F64> for Cx64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: F64) -> bool { true }
    open spec fn mul_spec(self, rhs: F64) -> Cx64 { arbitrary() }
}
impl Mul<F64> for Cx64 { type Output = Cx64;
    #[verifier::external_body]
    fn mul(self, rhs: F64) -> (r: Cx64) ensures r.re@ == self.re@ * rhs@, r.im@ == self.im@ * rhs@ { unimplemented!() }
}

impl vstd::std_specs::ops::NegSpecImpl for Cx64 {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Cx64 { arbitrary() }
}
impl Neg for Cx64 { type Output = Cx64;
    #[verifier::external_body]
    fn neg(self) -> (r: Cx64) ensures r.re@ == -self.re@, r.im@ == -self.im@ { unimplemented!() }
}

impl Cx64 {
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Cx64) ensures r.re@ == self.re@, r.im@ == -self.im@ { unimplemented!() }
    pub fn new(re: F64, im: F64) -> (r: Cx64) ensures r.re == re, r.im == im { Cx64 { re, im } }
    #[verifier::external_body]
    pub fn from(x: F64) -> (r: Cx64) ensures r.re@ == x@, r.im@ == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn scale(&self, t: F64) -> (r: Cx64) ensures r.re@ == self.re@ * t@, r.im@ == self.im@ * t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Cx64) ensures r.re@ == 0real, r.im@ == 0real { unimplemented!() }
}

impl Cx64 {
    #[verifier::external_body]
    pub fn from_polar(m: F64, a: F64) -> (r: Cx64) ensures r.re@ == m@ * cosr(a@), r.im@ == m@ * sinr(a@) { unimplemented!() }
}
impl R {
    #[verifier::external_body]
    pub fn zero() -> (r: R) ensures r@ == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: R) ensures r@ == 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn from_f64(x: F64) -> (r: Option<R>) ensures r.is_some(), r.unwrap()@ == x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_usize(x: usize) -> (r: Option<R>) ensures r.is_some(), r.unwrap()@ == (x as int) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn SQRT_2() -> (r: R) ensures r@ == sqrtr(2real) { unimplemented!() }
    #[verifier::external_body]
    pub fn FRAC_1_SQRT_2() -> (r: R) ensures r@ == 1real / sqrtr(2real) { unimplemented!() }
    #[verifier::external_body]
    pub fn PI() -> (r: R) ensures r@ == pi() { unimplemented!() }
    #[verifier::external_body]
    pub fn neg(&self) -> (r: R) ensures r@ == -self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sub(&self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn mul(&self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() }
}
impl F64 {
    #[verifier::external_body]
    pub fn lit(n: u64, d: u64) -> (r: F64) ensures r@ == (n as int) as real / ((d as int) as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_usize(n: usize) -> (r: F64) ensures r@ == (n as int) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn PI() -> (r: F64) ensures r@ == pi() { unimplemented!() }
    #[verifier::external_body]
    pub fn FRAC_PI_2() -> (r: F64) ensures r@ == pi() / 2real { unimplemented!() }
    #[verifier::external_body]
    pub fn cos(&self) -> (r: F64) ensures r@ == cosr(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn sin(&self) -> (r: F64) ensures r@ == sinr(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn sin_cos(&self) -> (r: (F64, F64)) ensures r.0@ == sinr(self@), r.1@ == cosr(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(&self) -> (r: F64) ensures self@ >= 0real ==> r@ == sqrtr(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn neg(&self) -> (r: F64) ensures r@ == -self@ { unimplemented!() }
}
// ----- panics: allowed only when the contract's panic condition holds -----
#[verifier::external_body]
pub fn vpanic(Ghost(c): Ghost<bool>) requires c ensures false { panic!() }
#[verifier::external_body]
pub fn vpanic_any(Ghost(c): Ghost<bool>) -> ! requires c ensures false { panic!() }
// a check that may be compiled out
pub fn vdebug(b: bool, Ghost(c): Ghost<bool>) requires b || c { }
// x & (m - 1), x >> k and x << k for m = 2^k
pub const fn usize_low(x: usize, m: usize) -> (r: usize) requires m > 0 ensures r == x % m { x % m }
pub const fn usize_shr(x: usize, m: usize) -> (r: usize) requires m > 0 ensures r == x / m { x / m }
pub const fn usize_shl(x: usize, m: usize) -> (r: usize) requires x * m <= usize::MAX ensures r == x * m { x * m }
// an index that may be out of range only when the contract's panic condition holds
pub fn guard_idx(i: usize, n: usize, Ghost(c): Ghost<bool>) -> (r: usize) requires i < n || c ensures r == i, i < n
{ if !(i < n) { vpanic(Ghost(c)); } i }
// a sub-slice lo..hi of a slice of length n
pub fn slice_len(lo: usize, hi: usize, n: usize) -> (r: usize) requires lo <= hi, hi <= n ensures r == hi - lo { hi - lo }
pub const fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub const fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
#[verifier::external_body]
pub fn vec_from_elem(x: R, n: usize) -> (r: Vec<R>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == x@ { unimplemented!() }
// the cells of a slice of numbers seen as complex numbers (slice::from_raw_parts over the pointer of the slice cast to Complex):
// sound when they fit, two cells each; Complex is repr(C)
#[verifier::external_body]
pub fn complex_view_mut(x: &mut [R], n: usize) -> (r: &mut [Cx]) requires 2 * n <= old(x)@.len()
    ensures r@.len() == n, final(x)@.len() == old(x)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn complex_view(x: &[R], n: usize) -> (r: &[Cx]) requires 2 * n <= x@.len() ensures r@.len() == n { unimplemented!() }
// ----- standard library -----
pub assume_specification<T, A> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    where A: std::alloc::Allocator
    ensures r@ == v@;
pub assume_specification<T: std::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (b: bool)
    ensures b == s@.contains(*x);
pub open spec fn is_pow2(n: int) -> bool decreases n { if n <= 0 { false } else { n == 1 || (n % 2 == 0 && is_pow2(n / 2)) } }
pub assume_specification [usize::is_power_of_two] (n: usize) -> (r: bool)
    ensures r == is_pow2(n as int);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == old(s)@[old(s)@.len() - 1 - i];
pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize) ensures r == if x >= y { x - y } else { y - x };
pub assume_specification [usize::div_ceil] (x: usize, y: usize) -> (r: usize) requires y > 0 ensures r == (x as int + y - 1) / (y as int), y == 2 ==> r == x / 2 + x % 2;
pub assume_specification [usize::rem_euclid] (x: usize, y: usize) -> (r: usize) requires y > 0 ensures r == x % y;
pub assume_specification [usize::next_power_of_two] (x: usize) -> (r: usize) requires x <= 0x8000_0000_0000_0000 ensures is_pow2(r as int), r >= x, r >= 1, x >= 1 ==> r < 2 * x, is_pow2(x as int) ==> r == x;
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], x: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> cloned::<T>(x, #[trigger] final(s)@[i]);
pub assume_specification<T: Clone> [<[T]>::clone_from_slice] (s: &mut [T], x: &[T])
    requires old(s)@.len() == x@.len()
    ensures final(s)@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> cloned::<T>(x@[i], #[trigger] final(s)@[i]);
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]);
pub assume_specification<T> [std::mem::replace] (d: &mut T, x: T) -> (r: T)
    ensures *final(d) == x, r == *old(d);
// ----- rustfft -----
#[derive(Clone, Copy)]
pub enum FftDirection { Forward, Inverse }
impl vstd::std_specs::cmp::PartialEqSpecImpl for FftDirection {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &FftDirection) -> bool { *self == *o }
}
impl PartialEq for FftDirection {
    fn eq(&self, o: &FftDirection) -> (r: bool) { match (*self, *o) { (FftDirection::Forward, FftDirection::Forward) => true, (FftDirection::Inverse, FftDirection::Inverse) => true, _ => false } }
}
pub open spec fn fft_re(v: Seq<Cx>, n: int, k: int) -> real { sum(n, |j: int| v[j].re@ * cc(n, 2 * j * k) + v[j].im@ * ss(n, 2 * j * k)) }
pub open spec fn fft_im(v: Seq<Cx>, n: int, k: int) -> real { sum(n, |j: int| v[j].im@ * cc(n, 2 * j * k) - v[j].re@ * ss(n, 2 * j * k)) }
pub open spec fn fft_max() -> int { 0x1_0000_0000_0000 }
pub open spec fn bits(n: int) -> int decreases n { if n <= 1 { 1 } else { 1 + bits(n / 2) } }
// what rustfft's planner is assumed to keep: a planned FFT of length m takes at most this many steps
pub open spec fn fft_bound(m: int) -> int { 100 * m * bits(m) }
pub trait Fft: Send + Sync {
    spec fn flen(&self) -> int;
    spec fn fwd(&self) -> bool;
    spec fn iscratch(&self) -> int;
    // steps of one call, the length counted once (used by C18 only)
    spec fn fcost(&self) -> int;
    fn len(&self) -> (r: usize) ensures r == self.flen();
    fn fft_direction(&self) -> (r: FftDirection) ensures r == (if self.fwd() { FftDirection::Forward } else { FftDirection::Inverse });
    fn get_inplace_scratch_len(&self) -> (r: usize) ensures r == self.iscratch(), self.iscratch() <= 0x1_0000_0000_0000;
    fn process_with_scratch(&self, buffer: &mut [Cx], scratch: &mut [Cx])
        requires old(buffer).len() == self.flen(), old(scratch).len() >= self.iscratch(),
        ensures final(buffer).len() == old(buffer).len(), final(scratch).len() == old(scratch).len(),
            self.fwd() ==> forall|k: int| 0 <= k < self.flen() ==> (#[trigger] final(buffer)@[k]).re@ == fft_re(old(buffer)@, self.flen(), k),
            self.fwd() ==> forall|k: int| 0 <= k < self.flen() ==> (#[trigger] final(buffer)@[k]).im@ == fft_im(old(buffer)@, self.flen(), k);
}
#[verifier::external_body]
pub struct FftPlanner { x: u8 }
impl FftPlanner {
    #[verifier::external_body]
    pub fn new() -> (r: FftPlanner) { unimplemented!() }
    #[verifier::external_body]
    pub fn plan_fft_forward(&mut self, len: usize) -> (r: Arc<dyn Fft>) ensures r.flen() == len, r.fcost() <= fft_bound(len as int), r.fwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn plan_fft_inverse(&mut self, len: usize) -> (r: Arc<dyn Fft>) ensures r.flen() == len, r.fcost() <= fft_bound(len as int), !r.fwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn plan_fft(&mut self, len: usize, d: FftDirection) -> (r: Arc<dyn Fft>) ensures r.flen() == len, r.fcost() <= fft_bound(len as int), r.fwd() == (d == FftDirection::Forward) { unimplemented!() }
}
