// the transform objects of the library, named by short strings, and the inner transforms handed to them
use crate::refs::Num;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::num_complex::Complex;
use rustdct::rustfft::{algorithm::Dft, Direction, Fft, FftDirection, FftPlanner, Length};
use rustdct::*;
use std::sync::Arc;

// wrappers whose scratch needs are larger than usual and which leave rubbish in all the scratch they may use
pub struct FatFft<T> { inner: Arc<dyn Fft<T>>, extra: usize }
impl<T: Num> Length for FatFft<T> { fn len(&self) -> usize { self.inner.len() } }
impl<T: Num> Direction for FatFft<T> { fn fft_direction(&self) -> FftDirection { self.inner.fft_direction() } }
impl<T: Num> Fft<T> for FatFft<T> {
    fn process_with_scratch(&self, buffer: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        assert!(scratch.len() >= self.get_inplace_scratch_len(), "inner FFT given too little scratch");
        assert!(buffer.len() % self.len() == 0, "inner FFT given a buffer that is no multiple of its length");
        self.inner.process(buffer);
        for s in scratch.iter_mut() { *s = Complex { re: T::n(f64::NAN), im: T::n(777.0) }; }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [Complex<T>], output: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        assert!(scratch.len() >= self.get_outofplace_scratch_len(), "inner FFT given too little scratch");
        let mut s = vec![Complex { re: T::zero(), im: T::zero() }; self.inner.get_outofplace_scratch_len()];
        self.inner.process_outofplace_with_scratch(input, output, &mut s);
        for s in scratch.iter_mut() { *s = Complex { re: T::n(f64::NAN), im: T::n(777.0) }; }
        for s in input.iter_mut() { *s = Complex { re: T::n(f64::NAN), im: T::n(777.0) }; }
    }
    fn process_immutable_with_scratch(&self, input: &[Complex<T>], output: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        assert!(scratch.len() >= self.get_immutable_scratch_len(), "inner FFT given too little scratch");
        output.copy_from_slice(input);
        self.inner.process(output);
        for s in scratch.iter_mut() { *s = Complex { re: T::n(f64::NAN), im: T::n(777.0) }; }
    }
    fn get_inplace_scratch_len(&self) -> usize { self.inner.get_inplace_scratch_len() + self.extra }
    fn get_outofplace_scratch_len(&self) -> usize { self.inner.get_outofplace_scratch_len() + self.extra }
    fn get_immutable_scratch_len(&self) -> usize { self.inner.get_immutable_scratch_len() + self.extra }
}

pub struct Fat23<T> { inner: Arc<dyn TransformType2And3<T>>, extra: usize }
impl<T: Num> Length for Fat23<T> { fn len(&self) -> usize { self.inner.len() } }
impl<T: Num> RequiredScratch for Fat23<T> { fn get_scratch_len(&self) -> usize { self.inner.get_scratch_len() + self.extra } }
macro_rules! fat {
    ($tr: ident, $ty: ident, $ws: ident, $cv: ident) => {
        impl<T: Num> $tr<T> for $ty<T> {
            fn $ws(&self, buffer: &mut [T], scratch: &mut [T]) {
                assert!(scratch.len() >= self.get_scratch_len(), "inner transform given too little scratch");
                self.inner.$cv(buffer);
                for s in scratch.iter_mut() { *s = T::n(f64::NAN); }
            }
        }
    };
}
fat!(Dct2, Fat23, process_dct2_with_scratch, process_dct2);
fat!(Dct3, Fat23, process_dct3_with_scratch, process_dct3);
fat!(Dst2, Fat23, process_dst2_with_scratch, process_dst2);
fat!(Dst3, Fat23, process_dst3_with_scratch, process_dst3);
impl<T: Num> TransformType2And3<T> for Fat23<T> {}
pub struct Fat4<T> { inner: Arc<dyn TransformType4<T>>, extra: usize }
impl<T: Num> Length for Fat4<T> { fn len(&self) -> usize { self.inner.len() } }
impl<T: Num> RequiredScratch for Fat4<T> { fn get_scratch_len(&self) -> usize { self.inner.get_scratch_len() + self.extra } }
fat!(Dct4, Fat4, process_dct4_with_scratch, process_dct4);
fat!(Dst4, Fat4, process_dst4_with_scratch, process_dst4);
impl<T: Num> TransformType4<T> for Fat4<T> {}

pub fn fft<T: Num>(spec: &str, n: usize, dir: FftDirection) -> Arc<dyn Fft<T>> {
    match spec {
        "fft" => FftPlanner::<T>::new().plan_fft(n, dir),
        "dft" => Arc::new(Dft::new(n, dir)),
        "fatfft" => Arc::new(FatFft { inner: FftPlanner::<T>::new().plan_fft(n, dir), extra: 2 * n + 3 }),
        "slim" => Arc::new(FatFft { inner: FftPlanner::<T>::new().plan_fft(n, dir), extra: 0 }),
        _ => panic!("no fft {}", spec),
    }
}
pub const FFTS: [&str; 4] = ["fft", "dft", "fatfft", "slim"];

pub fn t23<T: Num>(spec: &str, n: usize) -> Option<Arc<dyn TransformType2And3<T>>> {
    let (head, rest) = spec.split_once('/').unwrap_or((spec, ""));
    Some(match head {
        "plan" => DctPlanner::<T>::new().plan_dct2(n),
        "plan3" => DctPlanner::<T>::new().plan_dct3(n),
        "plans2" => DctPlanner::<T>::new().plan_dst2(n),
        "plans3" => DctPlanner::<T>::new().plan_dst3(n),
        "naive" => Arc::new(Type2And3Naive::new(n)),
        "fft" | "dft" | "fatfft" | "slim" => Arc::new(Type2And3ConvertToFft::new(fft(head, n, FftDirection::Forward))),
        "bfly" => match n {
            2 => Arc::new(Type2And3Butterfly2::new()),
            3 => Arc::new(Type2And3Butterfly3::new()),
            4 => Arc::new(Type2And3Butterfly4::new()),
            8 => Arc::new(Type2And3Butterfly8::new()),
            16 => Arc::new(Type2And3Butterfly16::new()),
            _ => return None,
        },
        "split" => {
            if !n.is_power_of_two() || n < 4 { return None; }
            Arc::new(Type2And3SplitRadix::new(t23(rest, n / 2)?, t23(rest, n / 4)?))
        }
        // split radix all the way down to length 1 and 2
        "deep" => {
            if !n.is_power_of_two() { return None; }
            if n < 4 { return t23("naive", n); }
            Arc::new(Type2And3SplitRadix::new(t23("deep", n / 2)?, t23("deep", n / 4)?))
        }
        "fat" => { let inner = t23(rest, n)?; Arc::new(Fat23 { extra: 3 * n + 5, inner }) }
        "fat1" => { let inner = t23(rest, n)?; Arc::new(Fat23 { extra: 1, inner }) }
        _ => return None,
    })
}
pub fn t4<T: Num>(spec: &str, n: usize) -> Option<Arc<dyn TransformType4<T>>> {
    let (head, rest) = spec.split_once('/').unwrap_or((spec, ""));
    Some(match head {
        "plan" => DctPlanner::<T>::new().plan_dct4(n),
        "plans" => DctPlanner::<T>::new().plan_dst4(n),
        "naive" => Arc::new(Type4Naive::new(n)),
        "odd" => { if n % 2 == 0 { return None; } Arc::new(Type4ConvertToFftOdd::new(fft(rest, n, FftDirection::Forward))) }
        "even" => { if n % 2 == 1 { return None; } Arc::new(Type4ConvertToType3Even::new(t23(rest, n / 2)?)) }
        "fat" => { let inner = t4(rest, n)?; Arc::new(Fat4 { extra: 3 * n + 5, inner }) }
        _ => return None,
    })
}

pub fn window<T: Num>(name: &str, l: usize) -> Vec<T> {
    match name {
        "mp3" => window_fn::mp3(l),
        "vorbis" => window_fn::vorbis(l),
        "one" => window_fn::one(l),
        "mp3_invertible" => window_fn::mp3_invertible(l),
        "vorbis_invertible" => window_fn::vorbis_invertible(l),
        "invertible" => window_fn::invertible(l),
        _ => {
            let mut r = crate::refs::Rng(name.strip_prefix("rand").unwrap().parse::<u64>().unwrap() * 77 + 5);
            (0..l).map(|_| T::n(r.unit())).collect()
        }
    }
}
pub fn mdct<T: Num>(spec: &str, n: usize, w: &str) -> Option<Arc<dyn Mdct<T>>> {
    let (head, rest) = spec.split_once('/').unwrap_or((spec, ""));
    let wf = |l: usize| window::<T>(w, l);
    Some(match head {
        "plan" => DctPlanner::<T>::new().plan_mdct(n, wf),
        "naive" => Arc::new(MdctNaive::new(n, wf)),
        "via" => Arc::new(MdctViaDct4::new(t4(rest, n)?, wf)),
        _ => return None,
    })
}

// one buffer operation of one object
pub struct Obj<T> {
    pub len: usize,
    pub scratch: usize,
    pub ws: crate::WsBox<T>,
    pub cv: crate::CvBox<T>,
}
macro_rules! pack {
    ($o: expr, $ws: ident, $cv: ident) => {{
        let a = $o;
        let (b, c) = (a.clone(), a.clone());
        Obj { len: a.len(), scratch: a.get_scratch_len(), ws: Box::new(move |x, s| b.$ws(x, s)), cv: Box::new(move |x| c.$cv(x)) }
    }};
}
pub fn pack23<T: Num>(op: &str, a: Arc<dyn TransformType2And3<T>>) -> Obj<T> {
    match op {
        "dct2" => pack!(a, process_dct2_with_scratch, process_dct2),
        "dct3" => pack!(a, process_dct3_with_scratch, process_dct3),
        "dst2" => pack!(a, process_dst2_with_scratch, process_dst2),
        _ => pack!(a, process_dst3_with_scratch, process_dst3),
    }
}
pub fn pack4<T: Num>(op: &str, a: Arc<dyn TransformType4<T>>) -> Obj<T> {
    match op {
        "dct4" => pack!(a, process_dct4_with_scratch, process_dct4),
        _ => pack!(a, process_dst4_with_scratch, process_dst4),
    }
}
pub fn obj<T: Num>(op: &str, spec: &str, n: usize) -> Option<Obj<T>> {
    let (head, _rest) = spec.split_once('/').unwrap_or((spec, ""));
    let isfft = FFTS.contains(&head);
    let fw = FftDirection::Forward;
    if spec == "plan" { return Some(planned(&mut DctPlanner::new(), op, n)); }
    Some(match op {
        "dct1" => {
            let a: Arc<dyn Dct1<T>> = match head { "naive" => Arc::new(Dct1Naive::new(n)), _ if isfft => Arc::new(Dct1ConvertToFft::new(fft(head, 2 * n - 2, fw))), _ => return None };
            pack!(a, process_dct1_with_scratch, process_dct1)
        }
        "dst1" => {
            let a: Arc<dyn Dst1<T>> = match head { "naive" => Arc::new(Dst1Naive::new(n)), _ if isfft => Arc::new(Dst1ConvertToFft::new(fft(head, 2 * n + 2, fw))), _ => return None };
            pack!(a, process_dst1_with_scratch, process_dst1)
        }
        "dct2" | "dct3" | "dst2" | "dst3" => pack23(op, t23(spec, n)?),
        "dct4" | "dst4" => pack4(op, t4(spec, n)?),
        "dct5" => { let a: Arc<dyn Dct5<T>> = match head { "naive" => Arc::new(Dct5Naive::new(n)), _ => return None }; pack!(a, process_dct5_with_scratch, process_dct5) }
        "dst5" => { let a: Arc<dyn Dst5<T>> = match head { "naive" => Arc::new(Dst5Naive::new(n)), _ => return None }; pack!(a, process_dst5_with_scratch, process_dst5) }
        "dct6" | "dct7" => {
            let a: Arc<dyn Dct6And7<T>> = match head { "naive" => Arc::new(Dct6And7Naive::new(n)), _ => return None };
            if op == "dct6" { pack!(a, process_dct6_with_scratch, process_dct6) } else { pack!(a, process_dct7_with_scratch, process_dct7) }
        }
        "dst6" | "dst7" => {
            let a: Arc<dyn Dst6And7<T>> = match head { "naive" => Arc::new(Dst6And7Naive::new(n)), _ if isfft => Arc::new(Dst6And7ConvertToFft::new(fft(head, 2 * n + 1, fw))), _ => return None };
            if op == "dst6" { pack!(a, process_dst6_with_scratch, process_dst6) } else { pack!(a, process_dst7_with_scratch, process_dst7) }
        }
        "dct8" => { let a: Arc<dyn Dct8<T>> = match head { "naive" => Arc::new(Dct8Naive::new(n)), _ => return None }; pack!(a, process_dct8_with_scratch, process_dct8) }
        "dst8" => { let a: Arc<dyn Dst8<T>> = match head { "naive" => Arc::new(Dst8Naive::new(n)), _ => return None }; pack!(a, process_dst8_with_scratch, process_dst8) }
        _ => return None,
    })
}
pub fn planned<T: Num>(p: &mut DctPlanner<T>, op: &str, n: usize) -> Obj<T> {
    match op {
        "dct1" => pack!(p.plan_dct1(n), process_dct1_with_scratch, process_dct1),
        "dst1" => pack!(p.plan_dst1(n), process_dst1_with_scratch, process_dst1),
        "dct2" => pack!(p.plan_dct2(n), process_dct2_with_scratch, process_dct2),
        "dct3" => pack!(p.plan_dct3(n), process_dct3_with_scratch, process_dct3),
        "dst2" => pack!(p.plan_dst2(n), process_dst2_with_scratch, process_dst2),
        "dst3" => pack!(p.plan_dst3(n), process_dst3_with_scratch, process_dst3),
        "dct4" => pack!(p.plan_dct4(n), process_dct4_with_scratch, process_dct4),
        "dst4" => pack!(p.plan_dst4(n), process_dst4_with_scratch, process_dst4),
        "dct5" => pack!(p.plan_dct5(n), process_dct5_with_scratch, process_dct5),
        "dst5" => pack!(p.plan_dst5(n), process_dst5_with_scratch, process_dst5),
        "dct6" => pack!(p.plan_dct6(n), process_dct6_with_scratch, process_dct6),
        "dct7" => pack!(p.plan_dct7(n), process_dct7_with_scratch, process_dct7),
        "dst6" => pack!(p.plan_dst6(n), process_dst6_with_scratch, process_dst6),
        "dst7" => pack!(p.plan_dst7(n), process_dst7_with_scratch, process_dst7),
        "dct8" => pack!(p.plan_dct8(n), process_dct8_with_scratch, process_dct8),
        "dst8" => pack!(p.plan_dst8(n), process_dst8_with_scratch, process_dst8),
        _ => unreachable!(),
    }
}
pub fn specs_of(op: &str) -> Vec<&'static str> {
    match op {
        "dct1" | "dst1" => vec!["plan", "naive", "fft", "dft", "fatfft", "slim"],
        "dct2" | "dct3" | "dst2" | "dst3" => vec!["plan", "naive", "bfly", "fft", "fatfft", "slim", "dft", "split/plan", "split/naive", "deep", "split/fat/naive", "split/fft", "split/fat1/plan", "split/fatfft", "split/fat/plan"],
        "dct4" | "dst4" => vec!["plan", "naive", "odd/fft", "odd/fatfft", "odd/dft", "odd/slim", "even/plan", "even/naive", "even/fat/naive", "even/fft", "even/fatfft", "even/deep", "even/fat1/plan"],
        "dst6" | "dst7" => vec!["plan", "naive", "fft", "fatfft", "dft", "slim"],
        _ => vec!["plan", "naive"],
    }
}
pub const MDCTS: [&str; 8] = ["plan", "naive", "via/plan", "via/naive", "via/fat/naive", "via/even/fat/naive", "via/fat/plan", "via/even/fft"];
