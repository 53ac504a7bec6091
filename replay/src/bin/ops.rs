// C18 on the real code: a number type that counts the arithmetic done on it; every planned operation stays below K * n * log2(2n).
use rustdct::mdct::*;
use rustdct::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use rustdct::*;
use std::cell::Cell;
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static COUNT: Cell<u64> = Cell::new(0);
    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
}
// far beyond the bound: no need to finish
#[inline]
fn tick() { COUNT.with(|c| { let v = c.get() + 1; c.set(v); if v & 0xffff == 0 && v > LIMIT.with(|l| l.get()) { over() } }); }
#[cold]
fn over() { std::panic::panic_any(Over) }
struct Over;

#[derive(Copy, Clone, Debug, PartialEq, PartialOrd)]
struct C(f64);
macro_rules! bin { ($($t: ident $f: ident $ta: ident $fa: ident $o: tt),*) => { $(
    impl $t for C { type Output = C; #[inline] fn $f(self, r: C) -> C { tick(); C(self.0 $o r.0) } }
    impl $ta for C { #[inline] fn $fa(&mut self, r: C) { tick(); self.0 = self.0 $o r.0; } }
)* } }
bin!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for C { type Output = C; #[inline] fn neg(self) -> C { tick(); C(-self.0) } }
impl Zero for C { fn zero() -> C { C(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for C { fn one() -> C { C(1.0) } }
impl Num for C { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<C, ()> { Err(()) } }
impl Signed for C {
    fn abs(&self) -> C { tick(); C(self.0.abs()) }
    fn abs_sub(&self, o: &C) -> C { tick(); C((self.0 - o.0).max(0.0)) }
    fn signum(&self) -> C { tick(); C(self.0.signum()) }
    fn is_positive(&self) -> bool { self.0 > 0.0 }
    fn is_negative(&self) -> bool { self.0 < 0.0 }
}
impl FromPrimitive for C {
    fn from_i64(n: i64) -> Option<C> { Some(C(n as f64)) }
    fn from_u64(n: u64) -> Option<C> { Some(C(n as f64)) }
    fn from_f64(n: f64) -> Option<C> { Some(C(n)) }
}
macro_rules! consts { ($($n: ident),*) => { #[allow(non_snake_case)] impl FloatConst for C { $(fn $n() -> C { C(<f64 as FloatConst>::$n()) })* } } }
consts!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2);

const OPS: [&str; 11] = ["dct1", "dst1", "dct2", "dst2", "dct3", "dst3", "dct4", "dst4", "dst6", "dst7", "mdct"];
// K: about three times the largest count / (n * log2(2n)) measured over all lengths to 4096 and samples to 2^17 (`ops measure`)
fn k_of(op: &str) -> f64 { match op { "dct1" | "dst1" | "dst6" | "dst7" => 180.0, _ => 90.0 } }
fn bound(op: &str, n: usize) -> u64 { (k_of(op) * n as f64 * (2.0 * n as f64).log2()) as u64 + 200 }

fn data(n: usize) -> Vec<C> { let mut s = 12345u64; (0..n).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); C((s >> 11) as f64 / (1u64 << 53) as f64 - 0.5) }).collect() }
type Run = Box<dyn FnOnce()>;
macro_rules! two { ($o: expr, $n: expr, $ws: ident, $cv: ident) => {{
    let a = $o;
    let b = a.clone();
    let (mut x, mut y, mut s) = (data($n), data($n), vec![C(0.0); a.get_scratch_len()]);
    vec![("allocating its scratch", Box::new(move || a.$cv(&mut x)) as Run), ("with scratch", Box::new(move || b.$ws(&mut y, &mut s)) as Run)]
}} }
fn planned(p: &mut DctPlanner<C>, op: &str, n: usize) -> Vec<(&'static str, Run)> {
    match op {
        "dct1" => two!(p.plan_dct1(n), n, process_dct1_with_scratch, process_dct1),
        "dst1" => two!(p.plan_dst1(n), n, process_dst1_with_scratch, process_dst1),
        "dct2" => two!(p.plan_dct2(n), n, process_dct2_with_scratch, process_dct2),
        "dst2" => two!(p.plan_dst2(n), n, process_dst2_with_scratch, process_dst2),
        "dct3" => two!(p.plan_dct3(n), n, process_dct3_with_scratch, process_dct3),
        "dst3" => two!(p.plan_dst3(n), n, process_dst3_with_scratch, process_dst3),
        "dct4" => two!(p.plan_dct4(n), n, process_dct4_with_scratch, process_dct4),
        "dst4" => two!(p.plan_dst4(n), n, process_dst4_with_scratch, process_dst4),
        "dst6" => two!(p.plan_dst6(n), n, process_dst6_with_scratch, process_dst6),
        "dst7" => two!(p.plan_dst7(n), n, process_dst7_with_scratch, process_dst7),
        "dct5" => two!(p.plan_dct5(n), n, process_dct5_with_scratch, process_dct5),
        "dst5" => two!(p.plan_dst5(n), n, process_dst5_with_scratch, process_dst5),
        "dct6" => two!(p.plan_dct6(n), n, process_dct6_with_scratch, process_dct6),
        "dct7" => two!(p.plan_dct7(n), n, process_dct7_with_scratch, process_dct7),
        "dct8" => two!(p.plan_dct8(n), n, process_dct8_with_scratch, process_dct8),
        "dst8" => two!(p.plan_dst8(n), n, process_dst8_with_scratch, process_dst8),
        _ => {
            let a: Arc<dyn Mdct<C>> = p.plan_mdct(n, window_fn::mp3);
            let b = a.clone();
            let (i1, i2, mut o, mut s) = (data(n), data(n), data(n), vec![C(0.0); a.get_scratch_len()]);
            let (j, mut o1, mut o2, mut s2) = (data(n), data(n), data(n), s.clone());
            vec![("mdct", Box::new(move || a.process_mdct_with_scratch(&i1, &i2, &mut o, &mut s)) as Run), ("imdct", Box::new(move || b.process_imdct_with_scratch(&j, &mut o1, &mut o2, &mut s2)) as Run)]
        }
    }
}
// operations of one run; None: stopped, or panicked for another reason
fn count(f: Run, limit: u64) -> Result<u64, bool> {
    COUNT.with(|c| c.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.with(|l| l.set(u64::MAX));
    match r { Ok(()) => Ok(COUNT.with(|c| c.get())), Err(e) => Err(e.is::<Over>()) }
}
// a case: op, n, and what the same planner was asked for before ("-" or op:n,op:n..)
#[derive(Clone)]
struct Case { op: String, n: usize, before: String }
fn show(c: &Case) -> String { format!("before={} n={} op={} t=ops", c.before, c.n, c.op) }
fn run(c: &Case) -> Result<f64, String> {
    let b = bound(&c.op, c.n);
    let mut worst = 0.0f64;
    let rs = catch_unwind(|| {
        let mut p = DctPlanner::<C>::new();
        if c.before != "-" { for q in c.before.split(',') { let (o, m) = q.split_once(':').unwrap(); planned(&mut p, o, m.parse().unwrap()); } }
        planned(&mut p, &c.op, c.n)
    });
    // a planner that panics is another property's business
    let Ok(rs) = rs else { return Ok(0.0) };
    for (what, f) in rs {
        match count(f, b.saturating_mul(3) / 2) {
            Ok(k) if k <= b => worst = worst.max(k as f64 / (c.n as f64 * (2.0 * c.n as f64).log2())),
            Ok(k) => return Err(format!("{} ({}) of length {} takes {} arithmetic operations, more than {} = {} * n * log2(2n) + 200", c.op, what, c.n, k, b, k_of(&c.op))),
            Err(true) => return Err(format!("{} ({}) of length {} had done {} arithmetic operations when it was stopped, more than {} = {} * n * log2(2n) + 200", c.op, what, c.n, COUNT.with(|c| c.get()), b, k_of(&c.op))),
            Err(false) => {}
        }
    }
    Ok(worst)
}
fn lens(tier: &str, seed: u64, hints: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![16411, 30030, 32768, 8192, 8191, 9973, 12289, 4096, 4093, 65536, 65537, 20000, 19683, 15625, 16807, 10007, 14641];
    for &h in hints { for d in -2i64..=2 { for m in [1, 2, 4, 16] { let x = (h as i64 + d) * m; if x > 0 && x <= 1 << 17 { v.push(x as usize); } } } }
    let mut s = seed.wrapping_mul(7919) + 17;
    for _ in 0..60 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push(2000 + (s >> 33) as usize % 60000); }
    v.extend(1..=300);
    v.extend((301..=3000).filter(|n| n % 3 == 0));
    v.extend([500, 512, 625, 997, 1000, 1021, 1024, 1331, 1536, 2039, 2047, 2048, 2049, 2187, 3125, 5040, 46368, 131072, 100003]);
    let quick = tier == "quick";
    for &h in hints.iter().rev() { for m in 1..=(if quick { 6 } else { 12 }) { for d in [0i64, -1, 1] { for x in [h as i64 * m + d, (h as i64 * m + d) / 2] { if x > 0 && x <= if quick { 8000 } else { 130000 } && (d == 0 || h > 64) { v.push(x as usize); } } } } }
    if tier == "deep" {
        // a second look after a failed proof: many more lengths, in no order
        for i in 0..1500 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push(if i % 3 == 0 { 300 + (s >> 33) as usize % 120000 } else { 300 + (s >> 33) as usize % 12000 }); }
        v.extend(301..=2500);
        for i in (1..v.len()).rev() { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.swap(i, (s >> 33) as usize % (i + 1)); }
    }
    if tier == "thorough" { v.extend(301..=6000); for _ in 0..600 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push(6000 + (s >> 33) as usize % 120000); } }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}
fn cases(seed: u64, tier: &str, hints: &[usize]) -> Vec<Case> {
    let mut v = vec![];
    let all = ["dct1", "dst1", "dct2", "dst2", "dct3", "dst3", "dct4", "dst4", "dst6", "dst7", "mdct", "dct5", "dst5", "dct6", "dct7", "dct8", "dst8"];
    for (i, n) in lens(tier, seed, hints).into_iter().enumerate() {
        for (j, op) in OPS.iter().enumerate() {
            if *op == "mdct" && n % 2 == 1 { continue; }
            v.push(Case { op: op.to_string(), n, before: "-".into() });
            // after everything else of this length, of half and twice the length
            if n <= 3000 && (i + j) % 4 == 0 {
                let mut b = vec![];
                for m in [n, 2 * n, (n / 2).max(1), n + 1] { for o in all { if o != *op && !(o == "mdct" && m % 2 == 1) && !(o == "dct1" && m < 2) { b.push(format!("{}:{}", o, m)); } } }
                v.push(Case { op: op.to_string(), n, before: b.join(",") });
            }
        }
    }
    v.retain(|c| !(c.op == "dct1" && c.n < 2) && !(c.op == "mdct" && c.n < 2));
    v
}
fn parse(s: &str) -> Case {
    let g = |k: &str| s.split_whitespace().find_map(|p| p.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("-").to_string();
    Case { op: g("op"), n: g("n").parse().unwrap_or(1), before: g("before") }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "case" => match run(&parse(&a[2])) { Ok(_) => println!("holds"), Err(e) => { println!("{}", e); std::process::exit(1) } },
        // the cost assumed of rustfft: at most 100 * m * bits(m)
        "fft" => {
            let mut worst = (0.0f64, 0);
            let top: usize = a[2].parse().unwrap();
            let mut ms: Vec<usize> = (1..top).collect();
            ms.extend([46341, 65536, 65537, 65539, 100003, 131071, 131072, 30030, 60060, 120121]);
            for m in ms {
                let f = rustdct::rustfft::FftPlanner::<C>::new().plan_fft_forward(m);
                let z = rustdct::num_complex::Complex { re: C(0.5), im: C(0.25) };
                let mut x = vec![z; m]; let mut y = x.clone(); let mut s = vec![z; f.get_inplace_scratch_len().max(f.get_outofplace_scratch_len()).max(f.get_immutable_scratch_len())];
                let bits = (usize::BITS - m.leading_zeros()) as f64;
                COUNT.with(|c| c.set(0)); f.process_with_scratch(&mut x, &mut s); let k1 = COUNT.with(|c| c.get());
                COUNT.with(|c| c.set(0)); f.process_outofplace_with_scratch(&mut x, &mut y, &mut s); let k2 = COUNT.with(|c| c.get());
                let r = k1.max(k2) as f64 / (m as f64 * bits);
                if r > worst.0 { worst = (r, m); }
            }
            println!("largest operations / (m * bits(m)): {:.1} at m = {}", worst.0, worst.1);
        }
        "search" | "measure" => {
            let (seed, tier, secs): (u64, String, u64) = if a[1] == "search" { (a[3].parse().unwrap(), a[4].clone(), a[5].parse().unwrap()) } else { (1, "thorough".into(), 3000) };
            let hints: Vec<usize> = if a[1] == "search" { a[6..].iter().filter_map(|x| x.parse().ok()).collect() } else { vec![] };
            let cs = Arc::new(cases(seed, &tier, &hints));
            let (next, done) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
            let fails = Arc::new(Mutex::new(Vec::<(usize, String)>::new()));
            let worst = Arc::new(Mutex::new(std::collections::BTreeMap::<String, (f64, usize)>::new()));
            let t0 = Instant::now();
            let hs: Vec<_> = (0..8).map(|_| {
                let (cs, next, done, fails, worst) = (cs.clone(), next.clone(), done.clone(), fails.clone(), worst.clone());
                std::thread::spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cs.len() || t0.elapsed() > Duration::from_secs(secs) || fails.lock().unwrap().len() >= 5 { break; }
                    match run(&cs[i]) {
                        Ok(w) => { let mut m = worst.lock().unwrap(); let e = m.entry(cs[i].op.clone()).or_insert((0.0, 0)); if w > e.0 { *e = (w, cs[i].n); } }
                        Err(e) => fails.lock().unwrap().push((i, e)),
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                })
            }).collect();
            for h in hs { let _ = h.join(); }
            let mut f = fails.lock().unwrap().clone();
            f.sort();
            println!("CASES {} of {}", done.load(Ordering::Relaxed), cs.len());
            for (op, (w, n)) in worst.lock().unwrap().iter() { println!("WORST {} {:.1} at n = {}", op, w, n); }
            for (i, m) in f.iter().take(5) { println!("FAIL {} :: {}", show(&cs[*i]), m); }
            std::process::exit(if f.is_empty() { 0 } else { 1 });
        }
        _ => std::process::exit(3),
    }
}
