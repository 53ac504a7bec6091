// the textbook definitions, evaluated term by term in f64 with exactly reduced angles
use rustdct::DctNum;

pub trait Num: DctNum {
    const EPS: f64;
    const BIG: f64;
    const TINY: f64;
    fn f(self) -> f64;
    fn n(x: f64) -> Self;
}
impl Num for f64 {
    const EPS: f64 = 1e-11;
    const BIG: f64 = 1e30;
    const TINY: f64 = 1e-30;
    fn f(self) -> f64 { self }
    fn n(x: f64) -> f64 { x }
}
impl Num for f32 {
    const EPS: f64 = 2e-5;
    const BIG: f64 = 1e12;
    const TINY: f64 = 1e-12;
    fn f(self) -> f64 { self as f64 }
    fn n(x: f64) -> f32 { x as f32 }
}

// cos(pi * num / den) and sin(pi * num / den), num an integer
pub struct Trig { den: i64, c: Vec<f64> }
impl Trig {
    pub fn new(den: usize) -> Trig {
        // 2 * den entries of cos(pi * m / den); quarter period shifts give the sine when den is even
        let den = den as i64 * 2;
        let c = (0..2 * den).map(|m| (std::f64::consts::PI * m as f64 / den as f64).cos()).collect();
        Trig { den, c }
    }
    pub fn cos(&self, num: i64) -> f64 { self.c[(2 * num).rem_euclid(2 * self.den) as usize] }
    pub fn sin(&self, num: i64) -> f64 { self.c[(2 * num - self.den / 2).rem_euclid(2 * self.den) as usize] }
}

// planned as double sums at every length
pub const SLOW: [&str; 6] = ["dct5", "dct6", "dct7", "dct8", "dst5", "dst8"];
pub const OPS: [&str; 16] = ["dct1", "dst1", "dct2", "dst2", "dct3", "dst3", "dct4", "dst4", "dct5", "dst5", "dct6", "dst6", "dct7", "dst7", "dct8", "dst8"];

// the angle of term (i, k) is pi * pos(i) * freq(k) / den
fn shape(op: &str, n: usize) -> (fn(i64) -> i64, fn(i64) -> i64, usize, bool) {
    match op {
        "dct1" => (|i| i, |k| 2 * k, 2 * n - 2, false),
        "dst1" => (|i| i + 1, |k| 2 * (k + 1), 2 * n + 2, true),
        "dct2" => (|i| 2 * i + 1, |k| k, 2 * n, false),
        "dst2" => (|i| 2 * i + 1, |k| k + 1, 2 * n, true),
        "dct3" => (|i| i, |k| 2 * k + 1, 2 * n, false),
        "dst3" => (|i| i + 1, |k| 2 * k + 1, 2 * n, true),
        "dct4" => (|i| 2 * i + 1, |k| 2 * k + 1, 4 * n, false),
        "dst4" => (|i| 2 * i + 1, |k| 2 * k + 1, 4 * n, true),
        "dct5" => (|i| i, |k| 4 * k, 4 * n - 2, false),
        "dst5" => (|i| i + 1, |k| 4 * (k + 1), 4 * n + 2, true),
        "dct6" => (|i| 2 * i + 1, |k| 2 * k, 4 * n - 2, false),
        "dst6" => (|i| 2 * i + 1, |k| 2 * (k + 1), 4 * n + 2, true),
        "dct7" => (|i| i, |k| 2 * (2 * k + 1), 4 * n - 2, false),
        "dst7" => (|i| i + 1, |k| 2 * (2 * k + 1), 4 * n + 2, true),
        "dct8" => (|i| 2 * i + 1, |k| 2 * k + 1, 4 * n + 2, false),
        _ => (|i| 2 * i + 1, |k| 2 * k + 1, 4 * n - 2, true),
    }
}
fn weight(op: &str, n: usize, i: usize) -> f64 {
    let first = i == 0;
    let last = i == n - 1;
    match op {
        "dct1" if first || last => 0.5,
        "dct3" | "dct5" | "dct7" if first => 0.5,
        "dst3" | "dct6" | "dst8" if last => 0.5,
        _ => 1.0,
    }
}
thread_local! { static FFT: std::cell::RefCell<rustdct::rustfft::FftPlanner<f64>> = std::cell::RefCell::new(rustdct::rustfft::FftPlanner::new()); }
// sum over i of v[i] * exp(-pi i pos(i) freq(k) / den), for the wanted frequencies, by one FFT of length 2 * den
fn spectrum(v: impl Iterator<Item = (i64, f64)>, den: usize) -> Vec<rustdct::num_complex::Complex<f64>> {
    let m = 2 * den;
    let mut b = vec![rustdct::num_complex::Complex { re: 0.0, im: 0.0 }; m];
    for (p, x) in v { b[p.rem_euclid(m as i64) as usize].re += x; }
    FFT.with(|f| f.borrow_mut().plan_fft_forward(m)).process(&mut b);
    b
}
// a value computed by FFT is only a first answer: `confirm` decides with the definition itself, term by term
pub const FAST: usize = 64;
pub fn reference(op: &str, x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n <= FAST { return reference_at(op, x, &(0..n as i64).collect::<Vec<_>>()); }
    let (pos, freq, den, sine) = shape(op, n);
    let b = spectrum((0..n).map(|i| (pos(i as i64), weight(op, n, i) * x[i])), den);
    (0..n as i64).map(|k| { let z = b[freq(k).rem_euclid(2 * den as i64) as usize]; if sine { -z.im } else { z.re } }).collect()
}
pub fn mdct_ref(n: usize, w: &[f64], x: &[f64]) -> Vec<f64> {
    if n <= FAST { return mdct_at(n, w, x, &(0..n as i64).collect::<Vec<_>>()); }
    let b = spectrum((0..2 * n).map(|i| (2 * i as i64 + 1 + n as i64, w[i] * x[i])), 4 * n);
    (0..n).map(|k| b[2 * k + 1].re).collect()
}
pub fn imdct_ref(n: usize, w: &[f64], x: &[f64]) -> Vec<f64> {
    if n <= FAST { return imdct_at(n, w, x, &(0..2 * n as i64).collect::<Vec<_>>()); }
    let b = spectrum((0..n).map(|k| (2 * k as i64 + 1, x[k])), 4 * n);
    (0..2 * n).map(|i| w[i] * b[(2 * i + 1 + n) % (8 * n)].re).collect()
}
// the definition at the outputs ks; zero inputs cost nothing
pub fn reference_at(op: &str, x: &[f64], ks: &[i64]) -> Vec<f64> {
    let n = x.len();
    let nz: Vec<i64> = (0..n as i64).filter(|&i| x[i as usize] != 0.0).collect();
    let m = n as i64;
    // angle = pi * num(k, i) / den
    let den = match op {
        "dct1" => 2 * n - 2,
        "dst1" => 2 * n + 2,
        "dct2" | "dst2" | "dct3" | "dst3" => 2 * n,
        "dct4" | "dst4" => 4 * n,
        "dct5" | "dct6" | "dct7" | "dst8" => 4 * n - 2,
        _ => 4 * n + 2, // dst5, dst6, dst7, dct8
    };
    let t = Trig::new(den.max(1));
    let mut out = Vec::with_capacity(ks.len());
    for &k in ks {
        let mut s = 0.0;
        for &i in &nz {
            let v = x[i as usize];
            let half_first = if i == 0 { 0.5 } else { 1.0 };
            let half_last = if i == m - 1 { 0.5 } else { 1.0 };
            s += v * match op {
                "dct1" => (if i == 0 || i == m - 1 { 0.5 } else { 1.0 }) * t.cos(2 * k * i),
                "dst1" => t.sin(2 * (k + 1) * (i + 1)),
                "dct2" => t.cos(k * (2 * i + 1)),
                "dst2" => t.sin((k + 1) * (2 * i + 1)),
                "dct3" => half_first * t.cos((2 * k + 1) * i),
                "dst3" => half_last * t.sin((2 * k + 1) * (i + 1)),
                "dct4" => t.cos((2 * k + 1) * (2 * i + 1)),
                "dst4" => t.sin((2 * k + 1) * (2 * i + 1)),
                "dct5" => half_first * t.cos(4 * k * i),
                "dst5" => t.sin(4 * (k + 1) * (i + 1)),
                "dct6" => half_last * t.cos(2 * k * (2 * i + 1)),
                "dst6" => t.sin(2 * (k + 1) * (2 * i + 1)),
                "dct7" => half_first * t.cos(2 * (2 * k + 1) * i),
                "dst7" => t.sin(2 * (2 * k + 1) * (i + 1)),
                "dct8" => t.cos((2 * k + 1) * (2 * i + 1)),
                "dst8" => half_last * t.sin((2 * k + 1) * (2 * i + 1)),
                _ => unreachable!(),
            };
        }
        out.push(s);
    }
    out
}

pub fn inverse_of(op: &str) -> &'static str {
    match op {
        "dct1" => "dct1", "dst1" => "dst1", "dct2" => "dct3", "dct3" => "dct2", "dst2" => "dst3", "dst3" => "dst2",
        "dct4" => "dct4", "dst4" => "dst4", "dct5" => "dct5", "dst5" => "dst5", "dct6" => "dct7", "dct7" => "dct6",
        "dst6" => "dst7", "dst7" => "dst6", "dct8" => "dct8", _ => "dst8",
    }
}
pub fn inverse_scale(op: &str, n: usize) -> f64 {
    let n = n as f64;
    match op {
        "dct1" => (n - 1.0) / 2.0,
        "dst1" => (n + 1.0) / 2.0,
        "dct2" | "dst2" | "dct3" | "dst3" | "dct4" | "dst4" => n / 2.0,
        "dct5" | "dct6" | "dct7" | "dst8" => (2.0 * n - 1.0) / 4.0,
        _ => (2.0 * n + 1.0) / 4.0,
    }
}

// angle pi * (2i+1+n) * (2k+1) / (4n)
pub fn mdct_at(n: usize, w: &[f64], x: &[f64], ks: &[i64]) -> Vec<f64> {
    let t = Trig::new(4 * n);
    let nz: Vec<i64> = (0..2 * n as i64).filter(|&i| x[i as usize] != 0.0).collect();
    ks.iter().map(|&k| nz.iter().map(|&i| w[i as usize] * x[i as usize] * t.cos((2 * i + 1 + n as i64) * (2 * k + 1))).sum()).collect()
}
pub fn imdct_at(n: usize, w: &[f64], x: &[f64], is: &[i64]) -> Vec<f64> {
    let t = Trig::new(4 * n);
    let nz: Vec<i64> = (0..n as i64).filter(|&i| x[i as usize] != 0.0).collect();
    is.iter().map(|&i| w[i as usize] * nz.iter().map(|&k| x[k as usize] * t.cos((2 * i + 1 + n as i64) * (2 * k + 1))).sum::<f64>()).collect()
}

pub fn window_ref(name: &str, l: usize, i: usize) -> f64 {
    let pi = std::f64::consts::PI;
    let s = (pi * (i as f64 + 0.5) / l as f64).sin();
    match name {
        "mp3" => s,
        "vorbis" => (pi / 2.0 * s * s).sin(),
        "one" => 1.0,
        "mp3_invertible" => s * (4.0 / l as f64).sqrt(),
        "vorbis_invertible" => (pi / 2.0 * s * s).sin() * (4.0 / l as f64).sqrt(),
        "invertible" => (2.0 / l as f64).sqrt(),
        _ => unreachable!(),
    }
}
pub const WINDOWS: [&str; 6] = ["mp3", "vorbis", "one", "mp3_invertible", "vorbis_invertible", "invertible"];

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0 }
}
