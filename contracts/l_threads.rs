use vstd::thread::{spawn, JoinHandle};
// ===== C19, client programs: any number of threads share one object, each makes a call of its own choice on it =====
// The contract of each call is checked inside the closure a thread runs; joining gives back exactly what that contract
// says about that thread's own input, so no interleaving with the other threads can show in the result.
pub open spec fn thr_val_dct1(op: u8, x: Seq<R>, n: int, k: int) -> real { { dct1(rv(x), n, k) } }
pub open spec fn thr_good_dct1(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dct1(op, x, n, k) }
pub fn client_threads_dct1(t: Arc<dyn Dct1>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct1(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct1(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dct1(op, x0, n, r@)
        {
            let mut v = x;
            { d.process_dct1(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct1(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct1(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_dst1(op: u8, x: Seq<R>, n: int, k: int) -> real { { dst1(rv(x), n, k) } }
pub open spec fn thr_good_dst1(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dst1(op, x, n, k) }
pub fn client_threads_dst1(t: Arc<dyn Dst1>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst1(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst1(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dst1(op, x0, n, r@)
        {
            let mut v = x;
            { d.process_dst1(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst1(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst1(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_transformtype2and3(op: u8, x: Seq<R>, n: int, k: int) -> real { if op == 0 { dct2(rv(x), n, k) } else if op == 1 { dct3(rv(x), n, k) } else if op == 2 { dst2(rv(x), n, k) } else { dst3(rv(x), n, k) } }
pub open spec fn thr_good_transformtype2and3(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_transformtype2and3(op, x, n, k) }
pub fn client_threads_transformtype2and3(t: Arc<dyn TransformType2And3>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_transformtype2and3(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_transformtype2and3(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_transformtype2and3(op, x0, n, r@)
        {
            let mut v = x;
            if op == 0 { d.process_dct2(v.as_mut_slice()); } else if op == 1 { d.process_dct3(v.as_mut_slice()); } else if op == 2 { d.process_dst2(v.as_mut_slice()); } else { d.process_dst3(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_transformtype2and3(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_transformtype2and3(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_transformtype4(op: u8, x: Seq<R>, n: int, k: int) -> real { if op == 0 { dct4(rv(x), n, k) } else { dst4(rv(x), n, k) } }
pub open spec fn thr_good_transformtype4(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_transformtype4(op, x, n, k) }
pub fn client_threads_transformtype4(t: Arc<dyn TransformType4>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_transformtype4(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_transformtype4(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_transformtype4(op, x0, n, r@)
        {
            let mut v = x;
            if op == 0 { d.process_dct4(v.as_mut_slice()); } else { d.process_dst4(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_transformtype4(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_transformtype4(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_dct5(op: u8, x: Seq<R>, n: int, k: int) -> real { { dct5(rv(x), n, k) } }
pub open spec fn thr_good_dct5(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dct5(op, x, n, k) }
pub fn client_threads_dct5(t: Arc<dyn Dct5>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct5(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct5(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dct5(op, x0, n, r@)
        {
            let mut v = x;
            { d.process_dct5(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct5(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct5(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_dst5(op: u8, x: Seq<R>, n: int, k: int) -> real { { dst5(rv(x), n, k) } }
pub open spec fn thr_good_dst5(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dst5(op, x, n, k) }
pub fn client_threads_dst5(t: Arc<dyn Dst5>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst5(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst5(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dst5(op, x0, n, r@)
        {
            let mut v = x;
            { d.process_dst5(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst5(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst5(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_dct6and7(op: u8, x: Seq<R>, n: int, k: int) -> real { if op == 0 { dct6(rv(x), n, k) } else { dct7(rv(x), n, k) } }
pub open spec fn thr_good_dct6and7(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dct6and7(op, x, n, k) }
pub fn client_threads_dct6and7(t: Arc<dyn Dct6And7>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct6and7(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct6and7(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dct6and7(op, x0, n, r@)
        {
            let mut v = x;
            if op == 0 { d.process_dct6(v.as_mut_slice()); } else { d.process_dct7(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct6and7(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct6and7(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_dst6and7(op: u8, x: Seq<R>, n: int, k: int) -> real { if op == 0 { dst6(rv(x), n, k) } else { dst7(rv(x), n, k) } }
pub open spec fn thr_good_dst6and7(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dst6and7(op, x, n, k) }
pub fn client_threads_dst6and7(t: Arc<dyn Dst6And7>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst6and7(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst6and7(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dst6and7(op, x0, n, r@)
        {
            let mut v = x;
            if op == 0 { d.process_dst6(v.as_mut_slice()); } else { d.process_dst7(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst6and7(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst6and7(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_dct8(op: u8, x: Seq<R>, n: int, k: int) -> real { { dct8(rv(x), n, k) } }
pub open spec fn thr_good_dct8(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dct8(op, x, n, k) }
pub fn client_threads_dct8(t: Arc<dyn Dct8>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct8(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct8(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dct8(op, x0, n, r@)
        {
            let mut v = x;
            { d.process_dct8(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dct8(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dct8(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_val_dst8(op: u8, x: Seq<R>, n: int, k: int) -> real { { dst8(rv(x), n, k) } }
pub open spec fn thr_good_dst8(op: u8, x: Seq<R>, n: int, y: Seq<R>) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y[k])@ == thr_val_dst8(op, x, n, k) }
pub fn client_threads_dst8(t: Arc<dyn Dst8>, jobs: Vec<(u8, Vec<R>)>) -> (outs: Vec<Option<Vec<R>>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst8(jobs@[i].0, jobs@[i].1@, t.slen(), y@)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<Vec<R>>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst8(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (op, x) = q.pop().unwrap();
        proof { assert(js[c] == (op, x)); assert(js[c].1@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost x0 = x@;
        let h = spawn(move || -> (r: Vec<R>)
            requires d.wf(), d.slen() == n, x@ == x0, x0.len() == n
            ensures thr_good_dst8(op, x0, n, r@)
        {
            let mut v = x;
            { d.process_dst8(v.as_mut_slice()); }
            v
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<Vec<R>>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: Vec<R>| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_dst8(js[js.len() - 1 - j].0, js[js.len() - 1 - j].1@, n, r@),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_dst8(js[i].0, js[i].1@, n, y@)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
pub open spec fn thr_good_mdct(fwd: bool, w: Seq<R>, a: Seq<R>, b: Seq<R>, n: int, y: (Vec<R>, Vec<R>)) -> bool {
    if fwd { y.0@.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] y.0@[k])@ == mdct(rv(w), rv(a), rv(b), n, k) }
    else { y.0@.len() == n && y.1@.len() == n
        && (forall|k: int| 0 <= k < n ==> (#[trigger] y.0@[k])@ == imdct(rv(w), rv(a), n, k))
        && (forall|k: int| 0 <= k < n ==> (#[trigger] y.1@[k])@ == imdct(rv(w), rv(a), n, n + k)) }
}
pub fn client_threads_mdct(t: Arc<dyn Mdct>, jobs: Vec<(bool, Vec<R>, Vec<R>)>) -> (outs: Vec<Option<(Vec<R>, Vec<R>)>>)
    requires t.wf(), forall|i: int| 0 <= i < jobs@.len() ==> (#[trigger] jobs@[i]).1@.len() == t.slen() && jobs@[i].2@.len() == t.slen()
    ensures outs@.len() == jobs@.len(),
        forall|i: int| 0 <= i < jobs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_mdct(jobs@[i].0, t.win(), jobs@[i].1@, jobs@[i].2@, t.slen(), y)), //#thread
{
    let ghost js = jobs@; let ghost n = t.slen(); let ghost w = t.win();
    let mut q = jobs;
    let mut hs: Vec<JoinHandle<(Vec<R>, Vec<R>)>> = Vec::new();
    while q.len() > 0
        invariant t.wf(), t.slen() == n, t.win() == w, q@.len() + hs@.len() == js.len(), forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).1@.len() == n && js[i].2@.len() == n,
            q@ == js.subrange(0, q@.len() as int),
            forall|j: int, r: (Vec<R>, Vec<R>)| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_mdct(js[js.len() - 1 - j].0, w, js[js.len() - 1 - j].1@, js[js.len() - 1 - j].2@, n, r),
        decreases q@.len()
    {
        let ghost c = q@.len() as int - 1;
        let (fwd, a, b) = q.pop().unwrap();
        proof { assert(js[c] == (fwd, a, b)); assert(js[c].1@.len() == n && js[c].2@.len() == n); assert(q@ == js.subrange(0, c)); }
        let d = Arc::clone(&t);
        let ghost a0 = a@; let ghost b0 = b@;
        let h = spawn(move || -> (r: (Vec<R>, Vec<R>))
            requires d.wf(), d.slen() == n, d.win() == w, a@ == a0, b@ == b0, a0.len() == n, b0.len() == n
            ensures thr_good_mdct(fwd, w, a0, b0, n, r)
        {
            let len = d.len();
            let mut s = vec_from_elem(R::zero(), d.get_scratch_len());
            let mut x = vec_from_elem(R::zero(), len);
            let mut y = vec_from_elem(R::zero(), len);
            if fwd { d.process_mdct_with_scratch(a.as_slice(), b.as_slice(), x.as_mut_slice(), s.as_mut_slice()); }
            else { d.process_imdct_with_scratch(a.as_slice(), x.as_mut_slice(), y.as_mut_slice(), s.as_mut_slice()); }
            (x, y)
        });
        hs.push(h);
    }
    let mut outs: Vec<Option<(Vec<R>, Vec<R>)>> = Vec::new();
    while hs.len() > 0
        invariant outs@.len() + hs@.len() == js.len(),
            forall|j: int, r: (Vec<R>, Vec<R>)| 0 <= j < hs@.len() && #[trigger] hs@[j].predicate(r) ==> thr_good_mdct(js[js.len() - 1 - j].0, w, js[js.len() - 1 - j].1@, js[js.len() - 1 - j].2@, n, r),
            forall|i: int| 0 <= i < outs@.len() ==> ((#[trigger] outs@[i]) matches Some(y) ==> thr_good_mdct(js[i].0, w, js[i].1@, js[i].2@, n, y)),
        decreases hs@.len()
    {
        let h = hs.pop().unwrap();
        match h.join() { Ok(y) => { outs.push(Some(y)); }, Err(_) => { outs.push(None); } }
    }
    outs
}
