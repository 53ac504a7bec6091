mod objs;
mod refs;
use objs::*;
use refs::*;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::rustfft::{FftDirection, Length};
use rustdct::DctPlanner;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

type WsBox<T> = Box<dyn Fn(&mut [T], &mut [T])>;
type CvBox<T> = Box<dyn Fn(&mut [T])>;
type Case = BTreeMap<String, String>;
fn parse(s: &str) -> Case { s.split_whitespace().filter_map(|p| p.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect() }
fn show(c: &Case) -> String { c.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ") }
fn num(c: &Case, k: &str) -> usize { c.get(k).and_then(|v| v.parse().ok()).unwrap_or(0) }
fn st<'a>(c: &'a Case, k: &str) -> &'a str { c.get(k).map(|s| s.as_str()).unwrap_or("") }

// input vectors by name
fn input<T: Num>(name: &str, n: usize) -> Vec<T> {
    let (h, r) = name.split_once(':').unwrap_or((name, "0"));
    let j: usize = r.parse().unwrap_or(0);
    let mut g = Rng(j as u64 * 1000003 + n as u64);
    if h == "few" {
        let mut v = vec![T::n(0.0); n];
        for _ in 0..16 { let p = g.below(n); v[p] = T::n(g.unit()); }
        v[n - 1] = T::n(0.75);
        return v;
    }
    (0..n).map(|i| T::n(match h {
        "rand" => g.unit(),
        "delta" => if i == j { 1.0 } else { 0.0 },
        "ones" => 1.0,
        "zeros" => 0.0,
        "alt" => if i % 2 == 0 { 1.0 } else { -1.0 },
        "ramp" => i as f64 + 1.0,
        "neg" => -1.0 - (i % 3) as f64,
        "tiny" => g.unit() * T::TINY,
        "big" => g.unit() * T::BIG,
        "pal" => ((i.min(n - 1 - i)) % 5) as f64 - 1.5,
        "anti" => (i as f64) - (n as f64 - 1.0) / 2.0,
        "sparse" => if g.below(4) == 0 { g.unit() } else { 0.0 },
        "firsthalf" => if 2 * i < n { g.unit() } else { 0.0 },
        "lasthalf" => if 2 * i >= n { g.unit() } else { 0.0 },
        "evens" => if i % 2 == 0 { g.unit() } else { 0.0 },
        "odds" => if i % 2 == 1 { g.unit() } else { 0.0 },
        "zerofirst" => if i == 0 { 0.0 } else { g.unit() },
        "zerolast" => if i + 1 == n { 0.0 } else { g.unit() },
        "mixed" => g.unit() * 10f64.powi(g.below(7) as i32 - 3),
        "ints" => (g.below(9) as f64) - 4.0,
        "vals" => [1.0, -0.5, 2.25][g.below(3)],
        "pairs" => [0.75, -1.0, 2.0, 1.5, -0.25][(i / 2 + j) % 5],
        "nan" => f64::NAN,
        "inf" => if i % 3 == 0 { f64::NEG_INFINITY } else { f64::INFINITY },
        "odd" => [f64::NAN, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, 1.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, -f64::MAX][g.below(10)],
        _ => unreachable!(),
    })).collect()
}
fn inputs(n: usize, seed: usize, small: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![format!("rand:{}", seed), "ones".into(), "ramp".into(), "alt".into(), "zeros".into(), "neg".into(), "tiny".into(), "big".into(), "pal".into(), "anti".into(),
        format!("sparse:{}", seed), "firsthalf".into(), "lasthalf".into(), "evens".into(), "odds".into(), "zerofirst".into(), "zerolast".into(), format!("mixed:{}", seed), format!("ints:{}", seed), format!("vals:{}", seed), "pairs".into(), format!("rand:{}", seed + 1)];
    if n <= small { for j in 0..n { v.push(format!("delta:{}", j)); } } else { for j in [0, 1, n / 2, n - 1] { v.push(format!("delta:{}", j)); } }
    if n > 260 { v.truncate(3); v.push("delta:1".into()); v.push(format!("mixed:{}", seed)); }
    if n > LARGE { v = vec![format!("few:{}", seed), format!("rand:{}", seed), format!("few:{}", seed + 1)]; }
    v
}
const LARGE: usize = 1500;
fn fl<T: Num>(v: &[T]) -> Vec<f64> { v.iter().map(|x| x.f()).collect() }
fn near<T: Num>(what: &str, got: &[T], want: &[f64], norm: f64) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{}: {} values, expected {}", what, got.len(), want.len())); }
    for i in 0..want.len() {
        let e = (got[i].f() - want[i]).abs();
        if !(e <= T::EPS * norm) { return Err(format!("{}: element {} is {:?}, the definition gives {:?} (allowed error {:.1e})", what, i, got[i].f(), want[i], T::EPS * norm)); }
    }
    Ok(())
}
// as near, but an element far from `want` (computed by FFT) is compared with the definition summed term by term before it is reported
fn judge<T: Num>(what: &str, got: &[T], want: &[f64], norm: f64, at: impl Fn(&[i64]) -> Vec<f64>) -> Result<(), String> {
    if got.len() != want.len() { return near(what, got, want, norm); }
    let bad: Vec<i64> = (0..want.len() as i64).filter(|&i| !((got[i as usize].f() - want[i as usize]).abs() <= T::EPS * norm)).take(12).collect();
    for (&i, w) in bad.iter().zip(at(&bad)) {
        let g = got[i as usize].f();
        if !((g - w).abs() <= T::EPS * norm) { return Err(format!("{}: element {} is {:?}, the definition gives {:?} (allowed error {:.1e})", what, i, g, w, T::EPS * norm)); }
    }
    Ok(())
}
fn norm1(v: &[f64]) -> f64 { v.iter().map(|x| x.abs()).sum::<f64>() }
fn scratch<T: Num>(kind: &str, n: usize) -> Vec<T> {
    let mut g = Rng(n as u64);
    (0..n).map(|i| match kind { "nan" => T::n(f64::NAN), "big" => T::n(1000.0 + i as f64), "rand" => T::n(g.unit()), _ => T::n(0.0) }).collect()
}
fn same<T: Num>(a: T, b: T) -> bool { a == b || (a.f().is_nan() && b.f().is_nan()) }

fn run<T: Num>(c: &Case) -> Result<(), String> {
    let (op, spec, n) = (st(c, "op"), st(c, "spec"), num(c, "n"));
    let seed = num(c, "seed");
    match st(c, "t") {
        "val" => {
            let Some(o) = obj::<T>(op, spec, n) else { return Ok(()) };
            if o.len != n { return Err(format!("len() is {}, expected {}", o.len, n)); }
            let ins = if c.contains_key("in") { vec![st(c, "in").to_string()] } else { inputs(n, seed, 24) };
            for i in ins {
                let x = input::<T>(&i, n);
                let norm = norm1(&fl(&x));
                let mut y = x.clone();
                let want = reference(op, &fl(&x));
                (o.cv)(&mut y);
                let at = |ks: &[i64]| reference_at(op, &fl(&x), ks);
                judge(&format!("in={} {}", i, op), &y, &want, norm, at)?;
                let mut y = x.clone();
                let mut s = scratch::<T>("zero", o.scratch);
                (o.ws)(&mut y, &mut s);
                judge(&format!("in={} {} with exact scratch", i, op), &y, &want, norm, at)?;
            }
            Ok(())
        }
        "scr" => {
            let Some(o) = obj::<T>(op, spec, n) else { return Ok(()) };
            for i in [format!("rand:{}", seed), "ones".to_string()] {
                let x = input::<T>(&i, n);
                let norm = norm1(&fl(&x));
                let mut y0 = x.clone();
                (o.cv)(&mut y0);
                let want = fl(&y0);
                let mut dirty: Vec<T> = scratch("zero", o.scratch);
                for round in 0..2 {
                    let mut y = x.clone();
                    (o.ws)(&mut y, &mut dirty);
                    near(&format!("in={} scratch zero then as left by the call before, round {}: {}", i, round, op), &y, &want, norm)?;
                }
                for kind in ["nan", "big", "rand", "zero"] {
                    for extra in [0usize, 1, 2, 7, n, o.scratch + 1, 4 * n + 3] {
                        let mut y = x.clone();
                        let mut s = scratch::<T>(kind, o.scratch + extra);
                        let s0 = s.clone();
                        (o.ws)(&mut y, &mut s);
                        near(&format!("in={} scratch {} longer by {} than advertised ({}): {}", i, kind, extra, o.scratch, op), &y, &want, norm)?;
                        for j in o.scratch..s.len() {
                            if !same(s[j], s0[j]) { return Err(format!("in={} scratch {} longer by {}: element {} beyond the advertised length {} was overwritten", i, kind, extra, j, o.scratch)); }
                        }
                    }
                }
            }
            Ok(())
        }
        "size" => {
            let Some(o) = obj::<T>(op, spec, n) else { return Ok(()) };
            let mut tried: Vec<(usize, usize, bool)> = vec![];
            for b in [0, 1, 2, n.saturating_sub(1), n, n + 1, n + 2, n / 2, 2 * n, 3 * n, 2 * n + 1, 4 * n] {
                for s in [0, o.scratch.saturating_sub(1), o.scratch / 2, o.scratch, o.scratch + 1, 2 * o.scratch + 9, n, 2 * n] {
                    tried.push((b, s, true));
                }
                tried.push((b, 0, false));
            }
            if n <= 20 { for b in 0..=2 * n + 2 { for s in [0, 1, o.scratch.saturating_sub(1), o.scratch, o.scratch + 1] { tried.push((b, s, true)); } tried.push((b, 0, false)); } }
            for s in 0..(o.scratch + 3).min(80) { tried.push((n, s, true)); }
            for (b, s, ws) in tried {
                let ok = b == n && (!ws || s >= o.scratch);
                let mut y = input::<T>("rand:1", b);
                let mut sc = scratch::<T>("rand", s);
                let r = catch_unwind(AssertUnwindSafe(|| if ws { (o.ws)(&mut y, &mut sc) } else { (o.cv)(&mut y) }));
                let how = if ws { format!("buffer {} scratch {} (length {}, scratch {})", b, s, n, o.scratch) } else { format!("buffer {} (length {})", b, n) };
                if ok && r.is_err() { return Err(format!("{}: a correct call panics", how)); }
                if !ok && r.is_ok() { return Err(format!("{}: a wrongly sized call returns", how)); }
            }
            Ok(())
        }
        "run" => {
            let Some(o) = obj::<T>(op, spec, n) else { return Ok(()) };
            for i in if n <= 2100 { &["rand:1", "nan", "inf", "zeros", "odd:3", "big", "neg"][..] } else { &["rand:1", "odd:3"][..] } {
                let mut y = input::<T>(i, n);
                let mut s = scratch::<T>("rand", o.scratch);
                catch_unwind(AssertUnwindSafe(|| { (o.ws)(&mut y, &mut s); y = input::<T>(i, n); (o.cv)(&mut y); })).map_err(|e| format!("in={}: {}", i, message(e)))?;
            }
            if o.len != n { return Err(format!("len() is {}, expected {}", o.len, n)); }
            Ok(())
        }
        "mrun" => {
            let Some(o) = mdct::<T>(spec, n, "mp3") else { return Ok(()) };
            for i in ["rand:1", "nan", "inf", "zeros", "odd:3", "big", "neg"] {
                let (mut a, mut b, mut d) = (input::<T>(i, n), input::<T>("rand:2", n), input::<T>("rand:3", n));
                let mut s = scratch::<T>("rand", o.get_scratch_len());
                catch_unwind(AssertUnwindSafe(|| { o.process_mdct_with_scratch(&a, &b, &mut d, &mut s); d = input::<T>(i, n); o.process_imdct_with_scratch(&d, &mut a, &mut b, &mut s); })).map_err(|e| format!("in={}: {}", i, message(e)))?;
                if n > 5000 { break; }
            }
            Ok(())
        }
        "mdct" | "imdct" => {
            let w = st(c, "w");
            let Some(o) = mdct::<T>(spec, n, w) else { return Ok(()) };
            let wv = if WINDOWS.contains(&w) { (0..2 * n).map(|i| window_ref(w, 2 * n, i)).collect() } else { fl(&window::<T>(w, 2 * n)) };
            let wm = wv.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            if o.len() != n { return Err(format!("len() is {}, expected {}", o.len(), n)); }
            let fwd = st(c, "t") == "mdct";
            for i in inputs(if fwd { 2 * n } else { n }, seed, 24) {
                for dirty in ["zeros", "rand:9"] {
                    let mut s = scratch::<T>("zero", o.get_scratch_len());
                    if fwd {
                        let x = input::<T>(&i, 2 * n);
                        let want = mdct_ref(n, &wv, &fl(&x));
                        let mut out = input::<T>(dirty, n);
                        o.process_mdct_with_scratch(&x[..n], &x[n..], &mut out, &mut s);
                        judge(&format!("in={} output before={} mdct", i, dirty), &out, &want, wm * norm1(&fl(&x)), |ks| mdct_at(n, &wv, &fl(&x), ks))?;
                    } else {
                        let x = input::<T>(&i, n);
                        let d = input::<T>(dirty, 2 * n);
                        let want: Vec<f64> = imdct_ref(n, &wv, &fl(&x)).iter().zip(&d).map(|(a, b)| a + b.f()).collect();
                        let (mut a, mut b) = (d[..n].to_vec(), d[n..].to_vec());
                        o.process_imdct_with_scratch(&x, &mut a, &mut b, &mut s);
                        let norm = wm * norm1(&fl(&x)) + if dirty == "zeros" { 0.0 } else { 1.0 };
                        let at = |is: &[i64]| -> Vec<f64> { imdct_at(n, &wv, &fl(&x), is).iter().zip(is).map(|(v, &i)| v + d[i as usize].f()).collect() };
                        judge(&format!("in={} outputs before={} imdct first half", i, dirty), &a, &want[..n], norm, at)?;
                        judge(&format!("in={} outputs before={} imdct second half", i, dirty), &b, &want[n..], norm, |is: &[i64]| at(&is.iter().map(|i| i + n as i64).collect::<Vec<_>>()))?;
                    }
                }
            }
            Ok(())
        }
        "mscr" => {
            let w = st(c, "w");
            let Some(o) = mdct::<T>(spec, n, w) else { return Ok(()) };
            let sl = o.get_scratch_len();
            let x = input::<T>("rand:3", 2 * n);
            let mut prev: Option<(Vec<f64>, Vec<f64>)> = None;
            for kind in ["zero", "nan", "big", "rand"] {
                for extra in [0usize, 1, 2, 7, n, sl + 1, 4 * n + 3] {
                    let mut s = scratch::<T>(kind, sl + extra);
                    let s0 = s.clone();
                    let mut y = vec![T::n(0.5); n];
                    o.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut s);
                    for j in sl..s.len() { if !same(s[j], s0[j]) { return Err(format!("mdct scratch {} longer by {}: element {} beyond the advertised length {} was overwritten", kind, extra, j, sl)); } }
                    let mut s = s0.clone();
                    let (mut a, mut b) = (vec![T::n(0.25); n], vec![T::n(-0.5); n]);
                    o.process_imdct_with_scratch(&x[..n], &mut a, &mut b, &mut s);
                    for j in sl..s.len() { if !same(s[j], s0[j]) { return Err(format!("imdct scratch {} longer by {}: element {} beyond the advertised length {} was overwritten", kind, extra, j, sl)); } }
                    a.extend(b);
                    let norm = norm1(&fl(&x)) + 1.0;
                    if let Some((p, q)) = &prev {
                        near(&format!("scratch {} longer by {} than advertised ({}): mdct against clean scratch", kind, extra, sl), &y, p, norm)?;
                        near(&format!("scratch {} longer by {} than advertised ({}): imdct against clean scratch", kind, extra, sl), &a, q, norm)?;
                    } else { prev = Some((fl(&y), fl(&a))); }
                }
            }
            Ok(())
        }
        "msize" => {
            let Some(o) = mdct::<T>(spec, n, "one") else { return Ok(()) };
            let sl = o.get_scratch_len();
            let bs = [n, n - 1, n + 1, 0, 2 * n, n / 2];
            for &a in &bs { for &b in &bs { for &d in &bs { for s in [sl, sl + 1, sl.saturating_sub(1), 0, n / 2] {
                let ok = a == n && b == n && d == n && s >= sl;
                for fwd in [true, false] {
                    let (mut x, mut y, mut z, mut sc) = (input::<T>("rand:1", a), input::<T>("rand:2", b), input::<T>("rand:3", d), scratch::<T>("rand", s));
                    let r = catch_unwind(AssertUnwindSafe(|| if fwd { o.process_mdct_with_scratch(&x, &y, &mut z, &mut sc) } else { o.process_imdct_with_scratch(&z, &mut x, &mut y, &mut sc) }));
                    let how = format!("{} first {} second {} third {} scratch {} (length {}, scratch {})", if fwd { "mdct" } else { "imdct" }, a, b, d, s, n, sl);
                    if ok && r.is_err() { return Err(format!("{}: a correct call panics", how)); }
                    if !ok && r.is_ok() { return Err(format!("{}: a wrongly sized call returns", how)); }
                }
            }}}}
            Ok(())
        }
        "hist" => {
            let mut p = DctPlanner::<T>::new();
            let mut done = String::new();
            let mut kept: Vec<(String, usize, Obj<T>)> = vec![];
            for r in st(c, "req").split(',').filter(|r| !r.is_empty()) {
                let (op, n) = r.split_once(':').unwrap();
                let n: usize = n.parse().unwrap();
                let err = |e: String| format!("request {} after [{}]: {}", r, done, e);
                if let Some(w) = op.strip_prefix("mdct-") {
                    let r = catch_unwind(AssertUnwindSafe(|| p.plan_mdct(n, |l| window::<T>(w, l)))).map_err(|_| err("planning panics".into()))?;
                    if r.len() != n { return Err(err(format!("len() is {}", r.len()))); }
                    let wv = if WINDOWS.contains(&w) { (0..2 * n).map(|i| window_ref(w, 2 * n, i)).collect() } else { fl(&window::<T>(w, 2 * n)) };
                    let x = input::<T>("rand:5", 2 * n);
                    let mut y = vec![T::n(0.0); n];
                    let mut s = vec![T::n(0.0); r.get_scratch_len()];
                    catch_unwind(AssertUnwindSafe(|| r.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut s))).map_err(|_| err("the returned transform panics".into()))?;
                    judge(&err("mdct".into()), &y, &mdct_ref(n, &wv, &fl(&x)), 2.0 * norm1(&fl(&x)), |ks| mdct_at(n, &wv, &fl(&x), ks))?;
                    let (mut a, mut b) = (vec![T::n(0.0); n], vec![T::n(0.0); n]);
                    r.process_imdct_with_scratch(&x[..n], &mut a, &mut b, &mut s);
                    a.extend(b);
                    judge(&err("imdct".into()), &a, &imdct_ref(n, &wv, &fl(&x[..n])), 2.0 * norm1(&fl(&x)), |is| imdct_at(n, &wv, &fl(&x[..n]), is))?;
                } else {
                    let o = catch_unwind(AssertUnwindSafe(|| planned(&mut p, op, n))).map_err(|_| err("planning panics".into()))?;
                    if o.len != n { return Err(err(format!("len() is {}", o.len))); }
                    // the double sums are too slow to be evaluated at such lengths
                    if n > 4096 && SLOW.contains(&op) { if !done.is_empty() { done.push(','); } done.push_str(r); continue; }
                    kept.push((op.to_string(), n, o));
                    let (_, _, o) = kept.last().unwrap();
                    let x = input::<T>("rand:5", n);
                    let mut y = x.clone();
                    catch_unwind(AssertUnwindSafe(|| (o.cv)(&mut y))).map_err(|_| err("the returned transform panics".into()))?;
                    judge(&err(op.to_string()), &y, &reference(op, &fl(&x)), norm1(&fl(&x)), |ks| reference_at(op, &fl(&x), ks))?;
                }
                if !done.is_empty() { done.push(','); }
                done.push_str(r);
            }
            // the objects of the early requests still work after the later ones
            for (op, n, o) in &kept {
                if *n > 300 { continue; }
                let x = input::<T>("rand:6", *n);
                let mut y = x.clone();
                (o.cv)(&mut y);
                judge(&format!("object of request {}:{} used after [{}]", op, n, done), &y, &reference(op, &fl(&x)), norm1(&fl(&x)), |ks| reference_at(op, &fl(&x), ks))?;
            }
            Ok(())
        }
        "ctor" => ctor::<T>(c),
        "win" => {
            let l = n;
            for w in WINDOWS {
                let v = window::<T>(w, l);
                if v.len() != l { return Err(format!("{}({}) returns {} values", w, l, v.len())); }
                for i in 0..l {
                    let want = window_ref(w, l, i);
                    if !((v[i].f() - want).abs() <= T::EPS * 2.0) { return Err(format!("{}({})[{}] is {:?}, documented value {:?}", w, l, i, v[i].f(), want)); }
                }
            }
            Ok(())
        }
        "winpc" => {
            for w in WINDOWS {
                let v = fl(&window::<T>(w, 2 * n));
                if v.len() != 2 * n { return Err(format!("{}({}) returns {} values", w, 2 * n, v.len())); }
                let want = match w { "mp3" | "vorbis" => 1.0, "one" => 2.0, _ => 2.0 / n as f64 };
                for i in 0..n {
                    if !((v[i] - v[2 * n - 1 - i]).abs() <= T::EPS * 2.0) { return Err(format!("{}({}): element {} is {:?}, element {} is {:?}", w, 2 * n, i, v[i], 2 * n - 1 - i, v[2 * n - 1 - i])); }
                    let s = v[i] * v[i] + v[i + n] * v[i + n];
                    if !((s - want).abs() <= T::EPS * 4.0 * want) { return Err(format!("{}({}): w[{}]^2 + w[{}]^2 is {:?}, expected {:?}", w, 2 * n, i, i + n, s, want)); }
                }
            }
            Ok(())
        }
        "tdac" => {
            let w = st(c, "w");
            let Some(o) = mdct::<T>(spec, n, w) else { return Ok(()) };
            let scale = match w { "mp3" | "vorbis" => n as f64 / 2.0, "one" => n as f64, _ => 1.0 };
            for i in inputs(5 * n, seed, 0) {
                let x = input::<T>(&i, 5 * n);
                let mut out = vec![T::n(0.0); 5 * n];
                let mut s = scratch::<T>("zero", o.get_scratch_len());
                let mut y = vec![T::n(0.0); n];
                for b in 0..4 {
                    o.process_mdct_with_scratch(&x[b * n..(b + 1) * n], &x[(b + 1) * n..(b + 2) * n], &mut y, &mut s);
                    let (l, r) = out.split_at_mut((b + 1) * n);
                    o.process_imdct_with_scratch(&y, &mut l[b * n..], &mut r[..n], &mut s);
                }
                let want: Vec<f64> = x[n..4 * n].iter().map(|v| v.f() * scale).collect();
                near(&format!("in={} samples {}..{} after overlap-add", i, n, 4 * n), &out[n..4 * n], &want, norm1(&fl(&x)) * scale.max(1.0) * 4.0)?;
            }
            // the same from the other side: the signal synthesised from chosen spectra is the one whose MDCTs they are, times the constant
            for i in inputs(4 * n, seed, 0) {
                let y = input::<T>(&i, 4 * n);
                let mut x = vec![T::n(0.0); 5 * n];
                let mut s = scratch::<T>("zero", o.get_scratch_len());
                let mut z = vec![T::n(0.0); n];
                for b in 0..4 {
                    let (l, r) = x.split_at_mut((b + 1) * n);
                    o.process_imdct_with_scratch(&y[b * n..(b + 1) * n], &mut l[b * n..], &mut r[..n], &mut s);
                }
                for b in 0..4 {
                    o.process_mdct_with_scratch(&x[b * n..(b + 1) * n], &x[(b + 1) * n..(b + 2) * n], &mut z, &mut s);
                    let want: Vec<f64> = y[b * n..(b + 1) * n].iter().map(|v| v.f() * scale).collect();
                    near(&format!("spectra={} block {} after synthesis and analysis", i, b), &z, &want, norm1(&fl(&y)) * scale.max(1.0) * 4.0)?;
                }
            }
            Ok(())
        }
        "inv" => {
            let Some(o) = obj::<T>(op, spec, n) else { return Ok(()) };
            let Some(p) = obj::<T>(inverse_of(op), spec, n) else { return Ok(()) };
            let scale = inverse_scale(op, n);
            for i in inputs(n, seed, 24) {
                let x = input::<T>(&i, n);
                let mut y = x.clone();
                (o.cv)(&mut y);
                (p.cv)(&mut y);
                let want: Vec<f64> = x.iter().map(|v| v.f() * scale).collect();
                near(&format!("in={} {} then {}", i, op, inverse_of(op)), &y, &want, norm1(&fl(&x)) * (n as f64))?;
            }
            Ok(())
        }
        t => panic!("no such case {}", t),
    }
}

fn ctor<T: Num>(c: &Case) -> Result<(), String> {
    let a = num(c, "a");
    let b = num(c, "b");
    let dir = if st(c, "dir") == "inv" { FftDirection::Inverse } else { FftDirection::Forward };
    let fw = dir == FftDirection::Forward;
    let which = st(c, "ctor");
    let mut w_asked: Option<usize> = None;
    let r = catch_unwind(AssertUnwindSafe(|| -> usize {
        match which {
            "Dct1ConvertToFft" => Dct1ConvertToFft::new(fft::<T>("fft", a, dir)).len(),
            "Dst1ConvertToFft" => Dst1ConvertToFft::new(fft::<T>("fft", a, dir)).len(),
            "Type2And3ConvertToFft" => Type2And3ConvertToFft::new(fft::<T>("fft", a, dir)).len(),
            "Type4ConvertToFftOdd" => Type4ConvertToFftOdd::new(fft::<T>("fft", a, dir)).len(),
            "Dst6And7ConvertToFft" => Dst6And7ConvertToFft::new(fft::<T>("fft", a, dir)).len(),
            "Type4ConvertToType3Even" => Type4ConvertToType3Even::new(t23::<T>("naive", a).unwrap()).len(),
            "Type2And3SplitRadix" => Type2And3SplitRadix::new(t23::<T>("naive", a).unwrap(), t23::<T>("naive", b).unwrap()).len(),
            "Dct1Naive" => Dct1Naive::<T>::new(a).len(),
            "Dst1Naive" => Dst1Naive::<T>::new(a).len(),
            "Type2And3Naive" => Type2And3Naive::<T>::new(a).len(),
            "Type4Naive" => Type4Naive::<T>::new(a).len(),
            "Dct5Naive" => Dct5Naive::<T>::new(a).len(),
            "Dst5Naive" => Dst5Naive::<T>::new(a).len(),
            "Dct6And7Naive" => Dct6And7Naive::<T>::new(a).len(),
            "Dst6And7Naive" => Dst6And7Naive::<T>::new(a).len(),
            "Dct8Naive" => Dct8Naive::<T>::new(a).len(),
            "Dst8Naive" => Dst8Naive::<T>::new(a).len(),
            "MdctNaive" => MdctNaive::<T>::new(a, |l| { w_asked = Some(l); vec![T::n(1.0); b] }).len(),
            "MdctViaDct4" => MdctViaDct4::<T>::new(t4::<T>("naive", a).unwrap(), |l| { w_asked = Some(l); vec![T::n(1.0); b] }).len(),
            _ => panic!("no ctor"),
        }
    }));
    let (ok, len) = match which {
        "Dct1ConvertToFft" => (fw && a % 2 == 0, a / 2 + 1),
        "Dst1ConvertToFft" => (fw && a % 2 == 0, a / 2 - 1),
        "Type2And3ConvertToFft" => (fw, a),
        "Type4ConvertToFftOdd" => (fw && a % 2 == 1, a),
        "Dst6And7ConvertToFft" => (fw && a % 2 == 1, a / 2),
        "Type4ConvertToType3Even" => (true, 2 * a),
        "Type2And3SplitRadix" => ((2 * a).is_power_of_two() && a > 1 && a == 2 * b, 2 * a),
        "Dct1Naive" => (a != 1, a),
        "MdctNaive" | "MdctViaDct4" => (a % 2 == 0 && b == 2 * a, a),
        _ => (true, a),
    };
    if let Some(l) = w_asked { if l != 2 * a { return Err(format!("the window function is asked for {} values, not {}", l, 2 * a)); } }
    match r {
        Ok(l) if !ok => Err(format!("unusable arguments are accepted (object of length {})", l)),
        Ok(l) if l != len => Err(format!("the object has length {}, expected {}", l, len)),
        Err(_) if ok => Err("usable arguments are refused".to_string()),
        _ => Ok(()),
    }
}

fn message(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    format!("panics: {}", m.replace('\n', " "))
}
fn run_any(c: &Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| if st(c, "ty") == "f32" { run::<f32>(c) } else { run::<f64>(c) })) {
        Ok(x) => x,
        Err(e) => Err(message(e)),
    }
}

const FIVE8: [&str; 8] = ["dct5", "dst5", "dct6", "dct7", "dct8", "dst8", "", ""];
fn mk(parts: &[(&str, String)]) -> Case { parts.iter().map(|(a, b)| (a.to_string(), b.clone())).collect() }

fn lens(tier: &str, hints: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    v.extend([48, 49, 50, 60, 63, 64, 65, 96, 100, 127, 128, 129, 147, 200, 255, 256, 257, 500, 512, 625, 1000, 1024]);
    v.extend(41..=160);
    v.extend([161, 169, 180, 192, 199, 210, 211, 225, 240, 243, 250, 260, 289, 299, 300, 320, 343, 360, 384, 400, 480, 511, 513, 600, 640, 720, 729, 750, 768, 800, 900, 960, 1023, 1025, 1152, 1200, 1280, 1331]);
    for &h in hints { for d in -2i64..=2 { for m in [1, 2, 4] { let x = (h as i64 + d) * m; if x > 0 && x <= 3000 { v.push(x as usize); } } if h > 1 { let x = h as i64 / 2 + d; if x > 0 && x <= 3000 { v.push(x as usize); } } } }
    if tier != "quick" { v.extend(161..=700); }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}
// lengths for the planned transforms only: many more of them
fn wide(tier: &str, seed: u64, hints: &[usize]) -> Vec<usize> {
    let quick = tier == "quick";
    let mut v: Vec<usize> = vec![];
    for &h in hints.iter().rev() { for m in 1..=(if quick { 5 } else { 9 }) { for d in -2i64..=2 { for x in [h as i64 * m + d, (h as i64 * m + d) / 2] { if x > 0 && x <= (if quick { 20000 } else { 140000 }) && (!quick || x <= 4000 || (d.abs() <= 1 && m <= 3)) { v.push(x as usize); } } } } }
    v.extend(161..=(if quick { 800 } else { 3000 }));
    let mut g = Rng(seed * 104729 + 1);
    for i in 0..(if quick { 120 } else { 900 }) { v.push(match i % 4 { 0 => 800 + g.below(3200), 1 => 800 + g.below(10000), 2 => { let k = [2usize, 3, 4, 6, 8, 12, 16, 32, 64][g.below(9)]; k * (1 + g.below(8000 / k)) } _ => 4000 + g.below(if quick { 20000 } else { 130000 }) }); }
    for e in 7..(if quick { 14 } else { 18 }) { for d in -3i64..=3 { v.push(((1i64 << e) + d) as usize); } v.push(3 << (e - 1)); v.push(5 << (e - 2)); }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    if !quick { for i in (1..v.len()).rev() { let j = g.below(i + 1); v.swap(i, j); } }
    v
}

fn cases(prop: &str, seed: u64, tier: &str, hints: &[usize]) -> Vec<Case> {
    let mut out = vec![];
    let mut ls = lens(tier, hints);
    // a second look after a failed proof: other data, and far more lengths first
    let deep = tier == "deep";
    if deep { ls.retain(|&n| n <= 300); }
    let quick = tier == "quick";
    let tys = ["f64", "f32"];
    let ops: Vec<&str> = match prop {
        "C01" => vec!["dct1", "dst1"],
        "C02" => vec!["dct2", "dct3", "dst2", "dst3"],
        "C03" => vec!["dct4", "dst4"],
        "C04" => vec!["dct5", "dst5", "dct6", "dct7", "dst6", "dst7", "dct8", "dst8"],
        "C07" | "C08" | "C09" | "C16" => OPS.to_vec(),
        _ => vec![],
    };
    let t = match prop { "C01" | "C02" | "C03" | "C04" => "val", "C07" => "scr", "C08" => "size", "C09" => "run", "C16" => "inv", _ => "" };
    let ws = wide(tier, seed, hints);
    let mut far: Vec<Case> = vec![];
    for &n in &ws {
        for op in &ops {
            if t == "" || (*op == "dct1" && n < 2) { continue; }
            let lim = match (t, FIVE8.contains(op)) { ("size", false) => 4000, ("size", true) => 600, ("scr", false) => if quick { 800 } else { 2500 }, ("scr", true) => 400, (_, false) => 1 << 20, (_, true) => if quick { 2500 } else { 6000 } };
            if n > lim { continue; }
            far.push(mk(&[("t", t.into()), ("op", op.to_string()), ("spec", "plan".into()), ("n", n.to_string()), ("ty", if n % 5 == 0 && n < 3000 { "f32" } else { "f64" }.into()), ("seed", (seed + 1).to_string())]));
        }
        if n % 2 == 0 {
            let (t, lim): (&str, usize) = match prop { "C05" => ("mdct", 1 << 20), "C06" => ("imdct", 1 << 20), "C07" => ("mscr", 800), "C08" => ("msize", 300), "C09" => ("mrun", 1 << 20), "C15" => ("tdac", 40000), _ => ("", 0) };
            if n <= lim {
                let w = match (t, n % 6) { ("tdac", _) => WINDOWS[n / 2 % 6], (_, 0) => "rand7", (_, 2) => "invertible", _ => "vorbis" };
                far.push(mk(&[("t", t.into()), ("spec", "plan".into()), ("n", n.to_string()), ("w", w.into()), ("ty", "f64".into()), ("seed", (seed + 1).to_string())]));
            }
        }
    }
    if deep { out.append(&mut far); }
    for &n in &ls {
        for op in &ops {
            if *op == "dct1" && n < 2 { continue; }
            for sp in specs_of(op) {
                // the quadratic code at large lengths only with one type
                for ty in tys {
                    if n > 100 && ty == "f32" { continue; }
                    if (sp == "dft" || sp == "odd/dft") && n > 100 { continue; }
                    if prop == "C07" && n > 300 { continue; }
                    if n > LARGE && sp.contains("naive") && !FIVE8.contains(op) { continue; }
                    out.push(mk(&[("t", t.into()), ("op", op.to_string()), ("spec", sp.into()), ("n", n.to_string()), ("ty", ty.into()), ("seed", seed.to_string())]));
                }
            }
        }
        if n % 2 == 0 {
            let mts: Vec<&str> = match prop { "C05" => vec!["mdct"], "C06" => vec!["imdct"], "C07" => vec!["mscr"], "C08" => vec!["msize"], "C09" => vec!["mrun"], "C15" => vec!["tdac"], "C11" => vec!["mdct", "imdct"], _ => vec![] };
            for t in mts {
                for sp in MDCTS {
                    let ws: Vec<String> = match (prop, t) { ("C15", _) => WINDOWS.iter().map(|w| w.to_string()).collect(), (_, "mdct") | (_, "imdct") => vec![format!("rand{}", seed), "mp3".into(), "one".into(), "invertible".into()], _ => vec!["mp3".into()] };
                    for w in ws {
                        for ty in tys {
                            if n > 260 && (ty == "f32" || sp == "naive") { continue; }
                            if prop == "C11" && (sp != "plan" || ty == "f32") { continue; }
                            out.push(mk(&[("t", t.into()), ("spec", sp.into()), ("n", n.to_string()), ("w", w.clone()), ("ty", ty.into()), ("seed", seed.to_string())]));
                        }
                    }
                }
            }
        }
    }
    let mt: Vec<&str> = match prop { "C05" => vec!["mdct"], "C06" => vec!["imdct"], "C09" => vec!["mrun"], "C15" => vec!["tdac"], "C11" => vec!["mdct", "imdct"], _ => vec![] };
    for t in mt { for n in [1026usize, 1152, 1500, 2000, 2046, 2048, 2050, 3000, 4096, 5000, 8192, 10000, 16384, 32768, 44100, 65536] { for sp in ["plan", "via/plan", "via/even/fft"] { for w in ["mp3", "rand4", "invertible"] {
        if (n > 10000 && sp != "plan") || (t == "tdac" && w == "rand4") { continue; }
        out.push(mk(&[("t", t.into()), ("spec", sp.into()), ("n", n.to_string()), ("w", w.into()), ("ty", "f64".into()), ("seed", seed.to_string())]));
    }}}}
    // long transforms
    if t == "val" || t == "run" || t == "inv" {
        let mut big: Vec<usize> = vec![1536, 2000, 2047, 2048, 2049, 2187, 2500, 3000, 3125, 4095, 4096, 4097, 5000, 6000, 6561, 8191, 8192, 8193, 10000, 15625, 16384, 16385, 19683, 20000, 32768, 32769, 44100, 65536, 65537, 131072];
        if tier == "thorough" { big.extend((11..20).flat_map(|e| [(1usize << e) - 3, (1 << e) - 2, (1 << e) + 2, 3 << (e - 1), 5 << (e - 2), 15 << (e - 3)])); big.extend([262144, 262145, 524288, 1 << 20]); }
        for &n in &big { for op in &ops { if FIVE8.contains(op) { if n <= 5000 && t != "run" { out.push(mk(&[("t", t.into()), ("op", op.to_string()), ("spec", "plan".into()), ("n", n.to_string()), ("ty", "f64".into()), ("seed", seed.to_string())])); } continue; } for sp in ["plan", "fft", "slim", "split/plan", "split/fft", "odd/fft", "even/plan", "even/fft", "deep"] {
            if !specs_of(op).contains(&sp) || (n > 20000 && sp != "plan" && tier != "thorough") { continue; }
            out.push(mk(&[("t", t.into()), ("op", op.to_string()), ("spec", sp.into()), ("n", n.to_string()), ("ty", "f64".into()), ("seed", seed.to_string())]));
        }}}
    }
    out.append(&mut far);
    if prop == "C13" || prop == "C14" {
        let t = if prop == "C13" { "win" } else { "winpc" };
        for n in [1536usize, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 22050, 32768, 44100, 48000, 65536, 65537, 100000, 131072, 1 << 20] { out.push(mk(&[("t", t.into()), ("n", n.to_string()), ("ty", "f64".into())])); }
        for n in 1..=(if !quick { 6000 } else { 2500 }) { for ty in tys { out.push(mk(&[("t", t.into()), ("n", n.to_string()), ("ty", ty.into())])); } }
        for &n in hints { for d in (1..=9).flat_map(|m| [m * n - 1, m * n, m * n + 1, m * n / 2, m * n / 2 + 1]) { if d > 0 && d < 200000 { out.push(mk(&[("t", t.into()), ("n", d.to_string()), ("ty", "f64".into())])); } } }
    }
    if prop == "C09" {
        for n in [1usize << 18] {
            for op in &["dct2", "dst3", "dct3", "dst2", "dct4", "dst4", "dct1", "dst1", "dst6", "dst7"] { out.push(mk(&[("t", "run".into()), ("op", op.to_string()), ("spec", "plan".into()), ("n", n.to_string()), ("ty", "f64".into())])); }
        }
    }
    if prop == "C10" || prop == "C11" {
        let mut g = Rng(seed * 7919 + 13);
        let kinds: Vec<String> = OPS.iter().map(|s| s.to_string()).chain(["mdct-mp3".to_string(), "mdct-one".to_string(), "mdct-rand3".to_string()]).collect();
        let mut pool: Vec<usize> = ls.iter().cloned().filter(|&n| n <= 300).collect();
        let mut long: Vec<usize> = ws.iter().cloned().filter(|&n| n <= if quick { 1200 } else { 4000 }).collect();
        let fix = |k: &str, n: usize| -> usize { if k.starts_with("mdct") && n % 2 == 1 { n + 1 } else if k == "dct1" && n < 2 { 2 } else { n } };
        if prop == "C10" {
            // every length alone and then again through each kind
            for &n in &ls { let r: Vec<String> = kinds.iter().filter(|k| n <= 512 || !(k.ends_with('5') || k.ends_with('8') || k.ends_with("dct6") || k.ends_with("dct7"))).map(|k| format!("{}:{}", k, fix(k, n))).collect(); out.push(mk(&[("t", "hist".into()), ("req", r.join(",")), ("ty", "f64".into())])); }
            // lengths in simple ratios to each other, growing and shrinking; lengths that agree in their low bits
            for k in &kinds {
                let slow = SLOW.contains(&k.as_str());
                let mut p = 2;
                while p <= if slow { 256 } else if deep { 32768 } else { 4096 } {
                    let mut l: Vec<usize> = vec![p, p * 5 / 4, p * 3 / 2, p * 7 / 4, 2 * p - 1, 2 * p, 2 * p + 1, 3 * p];
                    l.retain(|&n| n > 0);
                    let up: Vec<String> = l.iter().map(|&n| format!("{}:{}", k, fix(k, n))).collect();
                    let mut down = up.clone(); down.reverse();
                    for r in [up, down] { out.push(mk(&[("t", "hist".into()), ("req", r.join(",")), ("ty", "f64".into())])); }
                    p *= 2;
                }
                for w in [256usize, 1024, 4096, 16384, 65536] {
                    for d in [4usize, 7, 30] {
                        if k.starts_with("mdct") && w > 16384 { continue; }
                        let r: Vec<String> = [w + d, d, w + d + 1, w + d].iter().map(|&n| format!("{}:{}", k, fix(k, n))).collect();
                        if d == 4 || !slow || w <= 256 || w > 4096 { out.push(mk(&[("t", "hist".into()), ("req", r.join(",")), ("ty", "f64".into())])); }
                    }
                }
            }
            for i in 0..(if tier == "thorough" { 200000 } else if deep { 60000 } else { 25000 }) {
                // every tenth history at longer lengths
                if i % 10 == 9 { std::mem::swap(&mut pool, &mut long); }
                let len = 2 + g.below(14);
                let base = pool[g.below(pool.len())];
                let mut r = vec![];
                for _ in 0..len {
                    let k = &kinds[g.below(kinds.len())];
                    let n = match g.below(10) { 0 => pool[g.below(pool.len())], 1 => base * 2, 2 => (base / 2).max(1), 3 => (base / 4).max(1), 4 => base + 1, 5 => (base - 1).max(1), 6 => base * 4, _ => base };
                    if i % 10 == 9 && (k.ends_with('5') || k.ends_with('8') || *k == "dct6" || *k == "dct7") { continue; }
                    r.push(format!("{}:{}", k, fix(k, n)));
                }
                if i % 10 == 9 { std::mem::swap(&mut pool, &mut long); }
                out.push(mk(&[("t", "hist".into()), ("req", r.join(",")), ("ty", if g.below(4) == 0 { "f32" } else { "f64" }.into())]));
            }
        } else {
            let ws = ["mp3", "one", "vorbis", "invertible", "mp3_invertible", "vorbis_invertible", "rand1", "rand2", "rand3"];
            for n in (2..=130).step_by(2) { let r: Vec<String> = ws.iter().map(|w| format!("mdct-{}:{}", w, n)).chain([format!("mdct-mp3:{}", n)]).collect(); out.push(mk(&[("t", "hist".into()), ("req", r.join(",")), ("ty", "f64".into())])); }
            for i in 0..(if tier == "thorough" { 200000 } else if deep { 60000 } else { 25000 }) {
                if i % 10 == 9 { std::mem::swap(&mut pool, &mut long); }
                let base = fix("mdct", pool[g.below(pool.len())]);
                let mut r = vec![];
                for _ in 0..2 + g.below(8) {
                    let n = match g.below(5) { 0 => fix("mdct", pool[g.below(pool.len())]), 1 => base * 2, _ => base };
                    if g.below(5) == 0 { let k = &kinds[g.below(16)]; r.push(format!("{}:{}", k, fix(k, n))); }
                    r.push(format!("mdct-{}:{}", ws[g.below(ws.len())], n));
                }
                if i % 10 == 9 { std::mem::swap(&mut pool, &mut long); }
                out.push(mk(&[("t", "hist".into()), ("req", r.join(",")), ("ty", "f64".into())]));
            }
        }
    }
    if prop == "C12" {
        let names1 = ["Dct1ConvertToFft", "Dst1ConvertToFft", "Type2And3ConvertToFft", "Type4ConvertToFftOdd", "Dst6And7ConvertToFft"];
        let mut ns: Vec<usize> = (1..=200).collect();
        ns.extend([255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097]);
        for &h in hints { for m in 1..=5 { let h = h * m; if h < 40000 { ns.extend([h, h + 1, h.max(2) - 1, 2 * h + 1, h / 2]); } } }
        ns.extend(ws.iter().filter(|&&n| n <= if quick { 2100 } else { 10000 }));
        ns.sort(); ns.dedup(); ns.retain(|&n| n > 0);
        for &a in &ns {
            for w in names1 { for d in ["fwd", "inv"] {
                if a < 2 && w == "Dst1ConvertToFft" { continue; }
                out.push(mk(&[("t", "ctor".into()), ("ctor", w.into()), ("a", a.to_string()), ("dir", d.into())]));
            }}
            for w in ["Type4ConvertToType3Even", "Dct1Naive", "Dst1Naive", "Type2And3Naive", "Type4Naive", "Dct5Naive", "Dst5Naive", "Dct6And7Naive", "Dst6And7Naive", "Dct8Naive", "Dst8Naive"] {
                out.push(mk(&[("t", "ctor".into()), ("ctor", w.into()), ("a", a.to_string())]));
            }
            for w in ["MdctNaive", "MdctViaDct4"] { for b in [2 * a, 2 * a - 1, 2 * a + 1, a, 0, 4 * a, 2 * a + 2] { out.push(mk(&[("t", "ctor".into()), ("ctor", w.into()), ("a", a.to_string()), ("b", b.to_string())])); } }
        }
        for a in (1..=70).chain([96, 128, 255, 256, 257, 384, 512, 1000, 1024, 2048, 4096]) { for b in (1..=70).chain([48, 128, 256, 500, 512, 513, 1024, 2048]) { out.push(mk(&[("t", "ctor".into()), ("ctor", "Type2And3SplitRadix".into()), ("a", a.to_string()), ("b", b.to_string())])); } }
    }
    out
}

// worker protocol on stdout: "C <idx>" before a case, "F <idx> <message>" after a failing one, "D <idx>" at the end
fn worker(prop: &str, seed: u64, tier: &str, hints: &[usize], shard: usize, shards: usize, from: usize, secs: f64) {
    std::panic::set_hook(Box::new(|_| {}));
    let cs = cases(prop, seed, tier, hints);
    let start = Instant::now();
    let mut o = std::io::stdout();
    let mut n = 0;
    let mut fails = 0;
    for (i, c) in cs.iter().enumerate() {
        if i % shards != shard || i < from { continue; }
        if start.elapsed().as_secs_f64() > secs { break; }
        let _ = o.write_all(format!("C {}\n", i).as_bytes());
        let _ = o.flush();
        if let Err(e) = run_any(c) {
            let _ = o.write_all(format!("F {} {}\n", i, e.replace('\n', " ")).as_bytes());
            fails += 1;
            if fails >= 3 { break; }
        }
        n += 1;
    }
    let _ = o.write_all(format!("D {}\n", n).as_bytes());
    let _ = o.flush();
}

fn one(case: &str, secs: u64) -> Option<String> {
    let me = std::env::current_exe().unwrap();
    let mut ch = Command::new(me).args(["case", case]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(s) => {
                let mut o = String::new();
                ch.stdout.take().unwrap().read_to_string(&mut o).ok();
                if s.success() { return None; }
                let o = o.trim();
                return Some(if s.code() == Some(1) && !o.is_empty() { o.to_string() } else { format!("the process is aborted ({})", s) });
            }
            None => {
                if t.elapsed() > Duration::from_secs(secs) { let _ = ch.kill(); let _ = ch.wait(); return Some(format!("the call does not return within {} s", secs)); }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // case "<case>": exit 0 held, 1 fails (message on stdout)
        "case" => {
            std::panic::set_hook(Box::new(|_| {}));
            match run_any(&parse(&a[2])) { Ok(()) => println!("holds"), Err(e) => { println!("{}", e); std::process::exit(1) } }
        }
        "list" => { for c in cases(&a[2], a[3].parse().unwrap(), &a[4], &a[5..].iter().filter_map(|x| x.parse().ok()).collect::<Vec<_>>()) { println!("{}", show(&c)); } }
        "worker" => {
            let p: Vec<usize> = a[5..9].iter().map(|x| x.parse().unwrap()).collect();
            let h: Vec<usize> = a[9..].iter().filter_map(|x| x.parse().ok()).collect();
            worker(&a[2], a[3].parse().unwrap(), &a[4], &h, p[0], p[1], p[2], p[3] as f64);
        }
        // search PROP SEED TIER SECS HINTS..: prints JSON lines, exit 1 when a case fails
        "search" => {
            let (prop, seed, tier, secs) = (a[2].clone(), a[3].clone(), a[4].clone(), a[5].parse::<usize>().unwrap());
            let hints: Vec<String> = a[6..].to_vec();
            let hn: Vec<usize> = hints.iter().filter_map(|x| x.parse().ok()).collect();
            let cs = std::sync::Arc::new(cases(&prop, seed.parse().unwrap(), &tier, &hn));
            let shards = 8;
            let me = std::env::current_exe().unwrap();
            let mut hs = vec![];
            for sh in 0..shards {
                let (prop, seed, tier, hints, me, cs) = (prop.clone(), seed.clone(), tier.clone(), hints.clone(), me.clone(), cs.clone());
                hs.push(std::thread::spawn(move || {
                    let mut from = 0usize;
                    let mut done = 0usize;
                    let mut fails: Vec<(usize, String)> = vec![];
                    let t0 = Instant::now();
                    loop {
                        let left = secs as f64 - t0.elapsed().as_secs_f64();
                        if left <= 0.0 || fails.len() >= 3 { break; }
                        let mut ch = Command::new(&me).args(["worker", &prop, &seed, &tier, &sh.to_string(), &shards.to_string(), &from.to_string(), &(left.ceil() as usize).to_string()]).args(&hints).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
                        let out = ch.stdout.take().unwrap();
                        let (tx, rx) = std::sync::mpsc::channel::<String>();
                        let rd = std::thread::spawn(move || { use std::io::BufRead; for l in std::io::BufReader::new(out).lines() { if let Ok(l) = l { if tx.send(l).is_err() { break; } } } });
                        let mut cur: Option<usize> = None;
                        let mut ended = false;
                        let mut hang = false;
                        loop {
                            match rx.recv_timeout(Duration::from_secs(60)) {
                                Ok(l) => {
                                    let mut p = l.splitn(3, ' ');
                                    match p.next() {
                                        Some("C") => { cur = p.next().and_then(|x| x.parse().ok()); done += 1; }
                                        Some("F") => { let i: usize = p.next().unwrap().parse().unwrap(); fails.push((i, p.next().unwrap_or("").to_string())); }
                                        Some("D") => { ended = true; }
                                        _ => {}
                                    }
                                }
                                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => { hang = true; let _ = ch.kill(); break; }
                                Err(_) => break,
                            }
                        }
                        let _ = ch.wait();
                        let _ = rd.join();
                        if ended { break; }
                        match cur {
                            Some(i) => {
                                // died or hung in case i: confirm it alone
                                if let Some(m) = one(&show(&cs[i]), 60) { fails.push((i, m)); } else if hang { break; }
                                from = i + 1;
                            }
                            None => break,
                        }
                    }
                    (done, fails)
                }));
            }
            let mut done = 0;
            let mut fails = vec![];
            for h in hs { let (d, f) = h.join().unwrap(); done += d; fails.extend(f); }
            fails.sort();
            println!("CASES {} of {}", done, cs.len());
            for (i, m) in fails.iter().take(5) { println!("FAIL {} :: {}", show(&cs[*i]), m); }
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        _ => std::process::exit(3),
    }
}
