// C19 on the real code: threads share one object (or objects of one planner); every result must be the one the call gives alone.
// A separate binary: it compiles only while every transform object is Send + Sync.
#![allow(dead_code)]
#[path = "../objs.rs"]
mod objs;
#[path = "../refs.rs"]
mod refs;
use objs::*;
use refs::*;
use rustdct::mdct::*;
use rustdct::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Barrier};
use std::time::{Duration, Instant};

pub type WsBox<T> = Box<dyn Fn(&mut [T], &mut [T]) + Send + Sync>;
pub type CvBox<T> = Box<dyn Fn(&mut [T]) + Send + Sync>;

fn shared<X: Send + Sync + ?Sized>() {}
#[allow(clippy::type_complexity)]
fn every_object_can_be_shared<T: DctNum>() {
    shared::<dyn Dct1<T>>(); shared::<dyn Dst1<T>>(); shared::<dyn Dct2<T>>(); shared::<dyn Dct3<T>>(); shared::<dyn Dst2<T>>(); shared::<dyn Dst3<T>>();
    shared::<dyn Dct4<T>>(); shared::<dyn Dst4<T>>(); shared::<dyn Dct5<T>>(); shared::<dyn Dst5<T>>(); shared::<dyn Dct6<T>>(); shared::<dyn Dct7<T>>();
    shared::<dyn Dst6<T>>(); shared::<dyn Dst7<T>>(); shared::<dyn Dct8<T>>(); shared::<dyn Dst8<T>>(); shared::<dyn TransformType2And3<T>>();
    shared::<dyn TransformType4<T>>(); shared::<dyn Dct6And7<T>>(); shared::<dyn Dst6And7<T>>(); shared::<dyn Mdct<T>>();
    shared::<Arc<dyn Dct1<T>>>(); shared::<Arc<dyn TransformType2And3<T>>>(); shared::<Arc<dyn Mdct<T>>>();
}

// what one thread does: it knows its input, calls one operation of one of the objects, gives back the outputs
struct Call<T> { name: String, input: usize, scratch: usize, run: Box<dyn Fn(&[T], Option<&mut [T]>) -> Vec<T> + Send + Sync>, bad: Box<dyn Fn() + Send + Sync> }

fn group(kind: &str) -> Vec<&'static str> {
    match kind {
        "t1c" => vec!["dct1"], "t1s" => vec!["dst1"], "t23" => vec!["dct2", "dct3", "dst2", "dst3"], "t4" => vec!["dct4", "dst4"],
        "t5c" => vec!["dct5"], "t5s" => vec!["dst5"], "t67c" => vec!["dct6", "dct7"], "t67s" => vec!["dst6", "dst7"], "t8c" => vec!["dct8"], "t8s" => vec!["dst8"],
        _ => vec![],
    }
}
fn buf<T: Num>(name: &str, o: Obj<T>) -> Call<T> {
    let (ws, cv, len, scratch) = (o.ws, Arc::new(o.cv), o.len, o.scratch);
    let cv2 = cv.clone();
    Call {
        name: name.to_string(), input: len, scratch,
        run: Box::new(move |x, s| { let mut y = x.to_vec(); match s { None => cv(&mut y), Some(s) => ws(&mut y, s) }; y }),
        bad: Box::new(move || cv2(&mut vec![T::n(1.0); len + 1])),
    }
}
macro_rules! own {
    ($a: expr, $ws: ident, $cv: ident) => {{ let a = $a; let (b, c) = (a.clone(), a.clone());
        Obj { len: a.len(), scratch: a.get_scratch_len(), ws: Box::new(move |x, s| b.$ws(x, s)), cv: Box::new(move |x| c.$cv(x)) } }};
}
// one object, all its operations
fn shared_object<T: Num>(kind: &str, spec: &str, n: usize) -> Option<Vec<Call<T>>> {
    let mut v = vec![];
    match kind {
        "t23" => { let a = t23::<T>(spec, n)?; for op in group(kind) { v.push(buf(op, pack23(op, a.clone()))); } }
        "t4" => { let a = t4::<T>(spec, n)?; for op in group(kind) { v.push(buf(op, pack4(op, a.clone()))); } }
        "t67c" => {
            let mut p = DctPlanner::<T>::new();
            let a: Arc<dyn Dct6And7<T>> = if spec == "plan" { p.plan_dct6(n) } else { Arc::new(rustdct::algorithm::Dct6And7Naive::new(n)) };
            v.push(buf("dct6", own!(a.clone(), process_dct6_with_scratch, process_dct6)));
            v.push(buf("dct7", own!(a, process_dct7_with_scratch, process_dct7)));
        }
        "t67s" => {
            let mut p = DctPlanner::<T>::new();
            let a: Arc<dyn Dst6And7<T>> = match spec { "plan" => p.plan_dst6(n), "naive" => Arc::new(rustdct::algorithm::Dst6And7Naive::new(n)), s => Arc::new(rustdct::algorithm::Dst6And7ConvertToFft::new(fft(s, 2 * n + 1, rustdct::rustfft::FftDirection::Forward))) };
            v.push(buf("dst6", own!(a.clone(), process_dst6_with_scratch, process_dst6)));
            v.push(buf("dst7", own!(a, process_dst7_with_scratch, process_dst7)));
        }
        "mdct" => {
            let (sp, w) = spec.split_once('+').unwrap();
            mcalls(mdct::<T>(sp, n, w)?, &mut v);
        }
        // different objects of one planner, which may share their inner transforms
        "planner" => {
            let mut p = DctPlanner::<T>::new();
            for op in spec.split('+') {
                for m in [n, 2 * n, (n / 2).max(2)] { v.push(buf(&format!("{}:{}", op, m), planned(&mut p, op, m))); }
            }
            mcalls(p.plan_mdct(2 * n, |l| window::<T>("mp3", l)), &mut v);
        }
        _ => { let op = group(kind)[0]; v.push(buf(op, obj::<T>(op, spec, n)?)); }
    }
    Some(v)
}
fn mcalls<T: Num>(m: Arc<dyn Mdct<T>>, v: &mut Vec<Call<T>>) {
    let (n, s) = (m.len(), m.get_scratch_len());
    let (a, b, c, d) = (m.clone(), m.clone(), m.clone(), m);
    v.push(Call { name: "mdct".into(), input: 2 * n, scratch: s,
        run: Box::new(move |x, sc| { let mut y = vec![T::n(0.0); n]; match sc { None => a.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut vec![T::n(0.5); s]), Some(sc) => a.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, sc) }; y }),
        bad: Box::new(move || { let z = vec![T::n(1.0); n + 1]; c.process_mdct_with_scratch(&z, &z, &mut vec![T::n(1.0); n], &mut vec![T::n(1.0); s]) }) });
    v.push(Call { name: "imdct".into(), input: 3 * n, scratch: s,
        run: Box::new(move |x, sc| { let (mut p, mut q) = (x[n..2 * n].to_vec(), x[2 * n..].to_vec());
            match sc { None => b.process_imdct_with_scratch(&x[..n], &mut p, &mut q, &mut vec![T::n(0.5); s]), Some(sc) => b.process_imdct_with_scratch(&x[..n], &mut p, &mut q, sc) };
            p.extend(q); p }),
        bad: Box::new(move || { let z = vec![T::n(1.0); n + 1]; d.process_imdct_with_scratch(&z, &mut vec![T::n(1.0); n], &mut vec![T::n(1.0); n], &mut vec![T::n(1.0); s]) }) });
}

#[derive(Clone, Debug)]
struct Case { kind: String, spec: String, n: usize, f32: bool, threads: usize, rounds: usize, calls: usize, seed: usize, bad: bool }
fn show(c: &Case) -> String { format!("t=thr kind={} spec={} n={} ty={} threads={} rounds={} calls={} seed={} bad={}", c.kind, c.spec, c.n, if c.f32 { "f32" } else { "f64" }, c.threads, c.rounds, c.calls, c.seed, c.bad) }
fn parse(s: &str) -> Case {
    let g = |k: &str| s.split_whitespace().filter_map(|p| p.split_once('=')).find(|p| p.0 == k).map(|p| p.1.to_string()).unwrap_or_default();
    let u = |k: &str| g(k).parse().unwrap_or(1);
    Case { kind: g("kind"), spec: g("spec"), n: u("n"), f32: g("ty") == "f32", threads: u("threads"), rounds: u("rounds"), calls: u("calls"), seed: u("seed"), bad: g("bad") == "true" }
}

fn run<T: Num>(c: &Case) -> Result<(), String> {
    for round in 0..c.rounds {
        // what each call gives alone, on an object of its own
        let alone = match catch_unwind(|| shared_object::<T>(&c.kind, &c.spec, c.n)) { Ok(Some(a)) => a, _ => return Ok(()) };
        let Some(calls) = shared_object::<T>(&c.kind, &c.spec, c.n) else { return Ok(()) };
        let calls = Arc::new(calls);
        let mut jobs = vec![];
        let mut g = Rng((c.seed * 7919 + round * 31 + c.n) as u64);
        for t in 0..c.threads {
            let k = if t < calls.len() { t } else { g.below(calls.len()) };
            let x: Vec<T> = (0..calls[k].input).map(|_| T::n(g.unit())).collect();
            let y = match catch_unwind(AssertUnwindSafe(|| (alone[k].run)(&x, Some(&mut vec![T::n(0.0); alone[k].scratch])))) { Ok(y) => y, Err(_) => return Ok(()) };
            jobs.push((k, x, y));
        }
        let bar = Arc::new(Barrier::new(c.threads));
        let (tx, rx) = mpsc::channel::<Result<(), String>>();
        for (t, (k, x, y)) in jobs.into_iter().enumerate() {
            let (calls, bar, tx) = (calls.clone(), bar.clone(), tx.clone());
            let (n, bad) = (c.calls, c.bad && t == 0);
            std::thread::spawn(move || {
                let call = &calls[k];
                let mut dirty = vec![T::n(3.5); call.scratch];
                bar.wait();
                for i in 0..n {
                    if bad { let _ = catch_unwind(AssertUnwindSafe(|| (call.bad)())); continue; }
                    let r = catch_unwind(AssertUnwindSafe(|| { if i % 2 == 0 { (call.run)(&x, Some(&mut dirty)) } else { (call.run)(&x, None) } }));
                    match r {
                        Err(_) => { let _ = tx.send(Err(format!("thread {} call {}: {} panics while other threads use the object; alone it returns", t, i, call.name))); return; }
                        Ok(z) => {
                            let norm: f64 = x.iter().map(|v| v.f().abs()).sum();
                            for j in 0..y.len() { if !((z[j].f() - y[j].f()).abs() <= T::EPS * norm) {
                                let _ = tx.send(Err(format!("thread {} call {}: {}: element {} is {:?}, alone the same call gives {:?}", t, i, call.name, j, z[j].f(), y[j].f()))); return;
                            }}
                        }
                    }
                }
                let _ = tx.send(Ok(()));
            });
        }
        let end = Instant::now() + Duration::from_secs(60);
        for _ in 0..c.threads {
            match rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return Err(e),
                Err(_) => return Err("the threads do not finish within 60 s; alone each call returns".into()),
            }
        }
    }
    Ok(())
}
fn run_case(c: &Case) -> Result<(), String> { if c.f32 { run::<f32>(c) } else { run::<f64>(c) } }

fn cases(seed: usize, tier: &str, hints: &[usize]) -> Vec<Case> {
    let mut ns: Vec<usize> = vec![4, 8, 2, 3, 16, 64, 5, 9, 10, 12, 15, 20, 27, 32, 33, 36, 48, 81, 100, 128, 129, 200, 256, 257, 512, 1000, 1024];
    for &h in hints { for x in [h, 2 * h, h / 2] { if x > 0 && x < 3000 && !ns.contains(&x) { ns.push(x); } } }
    if tier != "quick" { ns.extend(1..70); ns.extend([2048, 4096, 5000, 8192]); }
    let mut v = vec![];
    for pass in 0..(if tier != "quick" { 40 } else { 6 }) {
        for &n in &ns {
            let mut push = |kind: &str, spec: &str, n: usize| {
                let slow = spec.contains("naive") || kind.starts_with("t5") || kind.starts_with("t8") || kind == "t67c";
                if slow && n > 260 { return; }
                let long = n > 200 || slow && n > 60;
                v.push(Case { kind: kind.into(), spec: spec.into(), n, f32: (pass + n) % 4 == 3, threads: if pass % 3 == 2 { 16 } else { 8 }, rounds: if pass % 2 == 0 { 6 } else { 2 }, calls: if long { 12 } else if pass % 2 == 0 { 40 } else { 200 }, seed: seed + pass, bad: pass % 3 == 1 });
            };
            for k in ["t1c", "t1s", "t23", "t4", "t5c", "t5s", "t67c", "t67s", "t8c", "t8s"] {
                if k == "t1c" && n < 2 { continue; }
                for sp in specs_of(group(k)[0]) { if sp == "dft" && n > 100 { continue; } push(k, sp, n); }
            }
            if n % 2 == 0 { for sp in MDCTS { push("mdct", &format!("{}+mp3", sp), n); } }
            for ops in ["dct2+dct4+dst3", "dct1+dst1+dct3+dst4", "dst6+dst7+dct6", "dct4+dct4", "dct5+dst5+dct8+dst8"] { push("planner", ops, n); }
        }
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    every_object_can_be_shared::<f32>();
    every_object_can_be_shared::<f64>();
    match a[1].as_str() {
        "case" => {
            // a race need not show on the first try
            let c = parse(&a[2]);
            for _ in 0..50 { if let Err(e) = run_case(&c) { println!("{}", e); std::process::exit(1); } }
            println!("holds");
        }
        // search C19 SEED TIER SECS HINTS..
        "search" => {
            let secs: u64 = a[5].parse().unwrap();
            let hints: Vec<usize> = a[6..].iter().filter_map(|x| x.parse().ok()).collect();
            let cs = cases(a[3].parse().unwrap(), &a[4], &hints);
            let t0 = Instant::now();
            let (mut done, mut fails) = (0, vec![]);
            for c in &cs {
                if t0.elapsed() > Duration::from_secs(secs) || fails.len() >= 3 { break; }
                println!("RUN {}", show(c));
                done += 1;
                if let Err(e) = run_case(c) { let hang = e.contains("do not finish"); fails.push((show(c), e)); if hang { break; } }
            }
            println!("CASES {} of {}", done, cs.len());
            for (c, e) in &fails { println!("FAIL {} :: {}", c, e); }
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        _ => std::process::exit(3),
    }
}
