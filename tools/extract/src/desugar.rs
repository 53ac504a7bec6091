// Pass A: expansion of the crate's own macros.  Pass B: iterator chains become counted loops.
use crate::model::Model;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct MacroExpander<'a> { pub model: &'a Model, pub errors: Vec<String>, pub depth: usize }
impl<'a> VisitMut for MacroExpander<'a> {
    // a part that is compiled in some configurations only
    fn visit_attribute_mut(&mut self, a: &mut Attribute) {
        if a.path().is_ident("cfg") || a.path().is_ident("cfg_attr") { self.errors.push("a statement under cfg".into()); }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(ts) = self.model.expand(&m.mac) {
                match parse2::<Expr>(ts) {
                    Ok(x) => { *e = strip_double(x); }
                    Err(er) => self.errors.push(format!("macro expansion does not parse: {}", er)),
                }
                self.depth += 1;
                if self.depth < 50 { self.visit_expr_mut(e); }
                self.depth -= 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if let Some(ts) = self.model.expand(&m.mac) {
                    match parse2::<Expr>(ts) {
                        Ok(x) => { let semi = m.semi_token; *s = Stmt::Expr(strip_double(x), semi); }
                        Err(er) => self.errors.push(format!("macro expansion does not parse: {}", er)),
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}
fn strip_double(e: Expr) -> Expr { e }

struct Mentions { all: BTreeSet<String> }
impl<'ast> syn::visit::Visit<'ast> for Mentions {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if let Some(i) = p.path.get_ident() { self.all.insert(i.to_string()); } }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let mut b = Bound { all: vec![] };
        for p in &c.inputs { syn::visit::Visit::visit_pat(&mut b, p); }
        let mut inner = Mentions { all: BTreeSet::new() };
        syn::visit::Visit::visit_expr(&mut inner, &c.body);
        self.all.extend(inner.all.into_iter().filter(|n| !b.all.iter().any(|(m, _)| m == n)));
    }
}
struct Bound { all: Vec<(String, bool)> }
impl<'ast> syn::visit::Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.all.push((p.ident.to_string(), p.mutability.is_some())); }
}
// the numbers a chain is bounded by
fn bounds(c: &Chain) -> Vec<&Expr> {
    match c {
        Chain::Base { lo, hi, .. } => lo.iter().chain(hi.iter()).collect(),
        Chain::Range { lo, hi, .. } => vec![lo, hi],
        Chain::Rev(c) | Chain::Enumerate(c) | Chain::Map(c, _) | Chain::Copied(c) => bounds(c),
        Chain::Skip(c, n) | Chain::Take(c, n) | Chain::StepBy(c, n) => { let mut v = bounds(c); v.push(n); v }
        Chain::Zip(a, b) => { let mut v = bounds(a); v.extend(bounds(b)); v }
    }
}

#[derive(Clone)]
enum Chain {
    // element places of a slice-like expression; lo/hi when it is a sub-slice
    Base { expr: Expr, lo: Option<Expr>, hi: Option<Expr>, mutable: bool },
    Range { lo: Expr, hi: Expr, inclusive: bool },
    Rev(Box<Chain>),
    Skip(Box<Chain>, Expr),
    Take(Box<Chain>, Expr),
    StepBy(Box<Chain>, Expr),
    Zip(Box<Chain>, Box<Chain>),
    Enumerate(Box<Chain>),
    Map(Box<Chain>, ExprClosure),
    Copied(Box<Chain>),
}
enum Item { Ref(Expr), MutRef(Expr), Val(Vec<Stmt>, Expr), Tuple(Vec<Item>) }

type ItemFn = Box<dyn Fn(Expr) -> Item>;

pub struct Desugar { pub k: usize, pub errors: Vec<String>, lazy: BTreeMap<String, Chain>, uses: BTreeSet<String>, muts: BTreeSet<String>, pub ret: Option<Type>, want: Option<Type> }
fn is_vec(t: &Type) -> bool { quote!(#t).to_string().starts_with("Vec <") && !quote!(#t).to_string().contains('_') }

fn is_lit(e: &Expr, v: &str) -> bool { quote!(#e).to_string() == v }
fn simple(e: &Expr) -> bool {
    match e { Expr::Lit(_) => true, Expr::Path(p) => p.path.get_ident().is_some(), _ => false }
}
fn add(a: &Expr, b: &Expr) -> Expr {
    if is_lit(a, "0") { return b.clone(); }
    if is_lit(b, "0") { return a.clone(); }
    parse_quote!((#a + #b))
}
fn unparen(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), _ => e }
}

impl Desugar {
    pub fn new() -> Self { Desugar { k: 0, errors: vec![], lazy: BTreeMap::new(), uses: BTreeSet::new(), muts: BTreeSet::new(), ret: None, want: None } }
    fn fresh(&mut self) -> usize { self.k += 1; self.k }

    fn slice_base(&self, e: &Expr, mutable: bool) -> Chain {
        // X[a..b] or X
        let e = unparen(e);
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = unparen(&ix.index) {
                if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    return Chain::Base { expr: (*ix.expr).clone(), lo: r.start.as_deref().cloned(), hi: r.end.as_deref().cloned(), mutable };
                }
            }
        }
        Chain::Base { expr: e.clone(), lo: None, hi: None, mutable }
    }
    fn into_iter_expr(&self, e: &Expr) -> Option<Chain> {
        let e = unparen(e);
        if let Some(c) = self.chain(e) { return Some(c); }
        if let Expr::Reference(r) = e { return Some(self.slice_base(&r.expr, r.mutability.is_some())); }
        None
    }
    fn chain(&self, e: &Expr) -> Option<Chain> {
        let e = unparen(e);
        match e {
            Expr::Range(r) => {
                let lo = r.start.as_deref()?.clone();
                let hi = r.end.as_deref()?.clone();
                Some(Chain::Range { lo, hi, inclusive: matches!(r.limits, RangeLimits::Closed(_)) })
            }
            Expr::Path(p) => { let id = p.path.get_ident()?.to_string(); self.lazy.get(&id).cloned() }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let arg = |i: usize| m.args.iter().nth(i).cloned();
                match (n.as_str(), m.args.len()) {
                    ("iter", 0) => Some(self.slice_base(&m.receiver, false)),
                    ("iter_mut", 0) => Some(self.slice_base(&m.receiver, true)),
                    ("into_iter", 0) => self.into_iter_expr(&m.receiver),
                    ("by_ref", 0) => None,
                    ("rev", 0) => Some(Chain::Rev(Box::new(self.chain(&m.receiver)?))),
                    ("enumerate", 0) => Some(Chain::Enumerate(Box::new(self.chain(&m.receiver)?))),
                    ("copied", 0) | ("cloned", 0) => Some(Chain::Copied(Box::new(self.chain(&m.receiver)?))),
                    ("skip", 1) => Some(Chain::Skip(Box::new(self.chain(&m.receiver)?), arg(0)?)),
                    ("take", 1) => Some(Chain::Take(Box::new(self.chain(&m.receiver)?), arg(0)?)),
                    ("step_by", 1) => Some(Chain::StepBy(Box::new(self.chain(&m.receiver)?), arg(0)?)),
                    ("zip", 1) => Some(Chain::Zip(Box::new(self.chain(&m.receiver)?), Box::new(self.into_iter_expr(&arg(0)?)?))),
                    ("map", 1) => match arg(0)? {
                        Expr::Closure(c) if c.inputs.len() == 1 => Some(Chain::Map(Box::new(self.chain(&m.receiver)?), c)),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn hoist(&mut self, e: &Expr, pre: &mut Vec<Stmt>, what: &str) -> Expr {
        let e = unparen(e);
        if simple(e) { return e.clone(); }
        let k = self.fresh();
        let id = format_ident!("{}__{}", what, k);
        pre.push(parse_quote!(let #id = #e;));
        parse_quote!(#id)
    }
    // returns (length expression, item function)
    fn eval(&mut self, c: &Chain, pre: &mut Vec<Stmt>) -> (Expr, ItemFn) {
        match c {
            Chain::Base { expr, lo, hi, mutable } => {
                let ex = expr.clone();
                let m = *mutable;
                let k = self.fresh();
                let n = format_ident!("ln__{}", k);
                if lo.is_none() && hi.is_none() {
                    pre.push(parse_quote!(let #n = #ex.len();));
                    let f: ItemFn = Box::new(move |i| if m { Item::MutRef(parse_quote!(#ex[#i])) } else { Item::Ref(parse_quote!(#ex[#i])) });
                    return (parse_quote!(#n), f);
                }
                let lo: Expr = match lo { Some(l) => self.hoist(l, pre, "lo"), None => parse_quote!(0) };
                let hi: Expr = match hi { Some(h) => self.hoist(h, pre, "up"), None => parse_quote!(#ex.len()) };
                pre.push(parse_quote!(let #n = slice_len(#lo, #hi, #ex.len());));
                let f: ItemFn = Box::new(move |i| {
                    let ix = add(&lo, &i);
                    if m { Item::MutRef(parse_quote!(#ex[#ix])) } else { Item::Ref(parse_quote!(#ex[#ix])) }
                });
                (parse_quote!(#n), f)
            }
            Chain::Range { lo, hi, inclusive } => {
                let lo = self.hoist(lo, pre, "lo");
                let hi: Expr = if *inclusive { let h: Expr = parse_quote!(#hi + 1); self.hoist(&h, pre, "up") } else { self.hoist(hi, pre, "up") };
                let len: Expr = if is_lit(&lo, "0") { hi.clone() } else {
                    let e: Expr = parse_quote!(if #hi >= #lo { #hi - #lo } else { 0 });
                    self.hoist(&e, pre, "ln")
                };
                let f: ItemFn = Box::new(move |i| { let e = add(&lo, &i); Item::Val(vec![], e) });
                (len, f)
            }
            Chain::Rev(c) => {
                let (n, f) = self.eval(c, pre);
                let n2 = n.clone();
                (n, Box::new(move |i| f(parse_quote!((#n2 - 1 - #i)))))
            }
            Chain::Skip(c, s) => {
                let (n, f) = self.eval(c, pre);
                let s = self.hoist(s, pre, "sk");
                let e: Expr = parse_quote!(if #n >= #s { #n - #s } else { 0 });
                let n2 = self.hoist(&e, pre, "ln");
                (n2, Box::new(move |i| f(add(&i, &s))))
            }
            Chain::Take(c, s) => {
                let (n, f) = self.eval(c, pre);
                let s = self.hoist(s, pre, "tk");
                let e: Expr = parse_quote!(if #n >= #s { #s } else { #n });
                (self.hoist(&e, pre, "ln"), f)
            }
            Chain::StepBy(c, s) => {
                let (n, f) = self.eval(c, pre);
                let s = self.hoist(s, pre, "st");
                let e: Expr = parse_quote!(if #n == 0 { 0 } else { (#n - 1) / #s + 1 });
                (self.hoist(&e, pre, "ln"), Box::new(move |i| f(parse_quote!((#i * #s)))))
            }
            Chain::Zip(a, b) => {
                let (n, f) = self.eval(a, pre);
                let (m, g) = self.eval(b, pre);
                let e: Expr = parse_quote!(if #n <= #m { #n } else { #m });
                let l = self.hoist(&e, pre, "ln");
                (l, Box::new(move |i| Item::Tuple(vec![f(i.clone()), g(i)])))
            }
            Chain::Enumerate(c) => {
                let (n, f) = self.eval(c, pre);
                (n, Box::new(move |i| Item::Tuple(vec![Item::Val(vec![], i.clone()), f(i)])))
            }
            Chain::Copied(c) => {
                let (n, f) = self.eval(c, pre);
                (n, Box::new(move |i| match f(i) { Item::Ref(e) => Item::Val(vec![], e), x => x }))
            }
            Chain::Map(c, cl) => {
                let (n, f) = self.eval(c, pre);
                let cl = cl.clone();
                (n, Box::new(move |i| {
                    let mut st = Vec::new();
                    let mut derefs = Vec::new();
                    bind(&cl.inputs[0], f(i), &mut st, &mut derefs);
                    let mut body = (*cl.body).clone();
                    Deref { ids: &derefs }.visit_expr_mut(&mut body);
                    Item::Val(st, body)
                }))
            }
        }
    }
    // for-loop over an arbitrary chain
    fn lower_for(&mut self, f: &ExprForLoop) -> Option<Vec<Stmt>> {
        let mut pre: Vec<Stmt> = Vec::new();
        let label = f.label.clone();
        if let Expr::Range(r) = unparen(&f.expr) {
            if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                let lo = self.hoist(lo, &mut pre, "lo");
                let k = self.fresh();
                let hi_id = format_ident!("hi__{}", k);
                let hi = unparen(hi);
                pre.push(parse_quote!(let #hi_id: usize = #hi;));
                let mut pat = (*f.pat).clone();
                if let Pat::Wild(_) = pat { let it = format_ident!("it__{}", k); pat = parse_quote!(#it); }
                let mut body = f.body.clone();
                self.block(&mut body);
                pre.push(Stmt::Expr(parse_quote!(#label for #pat in #lo..#hi_id #body), None));
                return Some(pre);
            }
        }
        let mut c = self.into_iter_expr(&f.expr)?;
        // a literal skip on the outside moves the first index
        let mut lo: Expr = parse_quote!(0);
        if let Chain::Skip(x, n) = &c { if matches!(unparen(n), Expr::Lit(_)) { lo = n.clone(); let x = (**x).clone(); c = x; } }
        let (n, item) = self.eval(&c, &mut pre);
        let k = self.fresh();
        let it = format_ident!("it__{}", k);
        let hi_id = format_ident!("hi__{}", k);
        pre.push(parse_quote!(let #hi_id: usize = #n;));
        let mut st = Vec::new();
        let mut derefs = Vec::new();
        bind(&f.pat, item(parse_quote!(#it)), &mut st, &mut derefs);
        let mut body = f.body.clone();
        Deref { ids: &derefs }.visit_block_mut(&mut body);
        let mut stmts = st;
        stmts.extend(body.stmts);
        let mut body = Block { brace_token: Default::default(), stmts };
        self.block(&mut body);
        pre.push(Stmt::Expr(parse_quote!(#label for #it in #lo..#hi_id #body), None));
        Some(pre)
    }
    pub fn block(&mut self, b: &mut Block) {
        count_whiles(b);
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = Vec::new();
        for mut s in stmts {
            match &mut s {
                Stmt::Local(l) => {
                    if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                        let is_range = matches!(unparen(&init.expr), Expr::Range(_));
                        let is_path = matches!(unparen(&init.expr), Expr::Path(_));
                        if !is_range && !is_path {
                            if let Some(c) = self.chain(&init.expr) {
                                // its bounds are evaluated where it is consumed: what they mention must stay the same until then
                                let mut u = Mentions { all: BTreeSet::new() };
                                syn::visit::Visit::visit_expr(&mut u, &init.expr);
                                if bounds(&c).iter().any(|e| { let mut w = Mentions { all: BTreeSet::new() }; syn::visit::Visit::visit_expr(&mut w, e); w.all.iter().any(|n| self.muts.contains(n)) }) { self.errors.push("an iterator is bounded by a mutable variable".into()); }
                                self.uses.extend(u.all);
                                self.lazy.insert(id.ident.to_string(), c);
                                continue;
                            }
                        }
                    }
                }
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    match self.lower_for(&f.clone()) {
                        Some(v) => { for mut x in v { self.nested(&mut x); out.push(x); } continue; }
                        None => self.errors.push("a for loop iterates over an expression this extractor cannot index".into()),
                    }
                }
                Stmt::Expr(Expr::MethodCall(m), _) if m.method == "for_each" && m.args.len() == 1 => {
                    if let (Some(_), Some(Expr::Closure(c))) = (self.chain(&m.receiver), m.args.first()) {
                        let recv = &m.receiver; let pat = &c.inputs[0]; let body = &c.body;
                        let f: ExprForLoop = parse_quote!(for #pat in #recv { #body; });
                        if let Some(v) = self.lower_for(&f) { for mut x in v { self.nested(&mut x); out.push(x); } continue; }
                    }
                }
                _ => {}
            }
            if let Stmt::Local(l) = &s {
                let mut p = Bound { all: vec![] };
                syn::visit::Visit::visit_pat(&mut p, &l.pat);
                for (n, m) in p.all {
                    if self.uses.contains(&n) { self.errors.push(format!("an iterator mentions {}, which is bound again", n)); }
                    if m { self.muts.insert(n); } else { self.muts.remove(&n); }
                }
            }
            self.nested(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn nested(&mut self, s: &mut Stmt) {
        self.want = match s { Stmt::Local(l) => match &l.pat { Pat::Type(t) => Some((*t.ty).clone()), _ => None }, _ => None };
        let mut v = Nested { d: self }; v.visit_stmt_mut(s);
        self.want = None;
    }

    fn terminal(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e { Expr::MethodCall(m) => m, _ => return None };
        let n = m.method.to_string();
        match (n.as_str(), m.args.len()) {
            ("collect", 0) => {
                let c = self.chain(&m.receiver)?;
                let mut pre = Vec::new();
                let (len, item) = self.eval(&c, &mut pre);
                let k = self.fresh();
                let (it, hi, v) = (format_ident!("it__{}", k), format_ident!("hi__{}", k), format_ident!("vec__{}", k));
                let (st, val) = value(item(parse_quote!(#it)));
                let ty = self.want.clone().or(self.ret.clone()).filter(is_vec).map(|t| quote!(: #t));
                Some(parse_quote!({
                    #(#pre)*
                    let #hi: usize = #len;
                    let mut #v #ty = Vec::new();
                    for #it in 0..#hi { #(#st)* #v.push(#val); }
                    #v
                }))
            }
            ("fold", 2) => {
                let c = self.chain(&m.receiver)?;
                let init = &m.args[0];
                let cl = match &m.args[1] { Expr::Closure(c) if c.inputs.len() == 2 => c.clone(), _ => return None };
                let mut pre = Vec::new();
                let (len, item) = self.eval(&c, &mut pre);
                let k = self.fresh();
                let (it, hi, v) = (format_ident!("it__{}", k), format_ident!("hi__{}", k), format_ident!("acc__{}", k));
                let mut st = Vec::new();
                let mut derefs = Vec::new();
                let ap = &cl.inputs[0];
                st.push(parse_quote!(let #ap = #v;));
                bind(&cl.inputs[1], item(parse_quote!(#it)), &mut st, &mut derefs);
                let mut body = (*cl.body).clone();
                Deref { ids: &derefs }.visit_expr_mut(&mut body);
                Some(parse_quote!({
                    #(#pre)*
                    let #hi: usize = #len;
                    let mut #v = #init;
                    for #it in 0..#hi { #(#st)* #v = #body; }
                    #v
                }))
            }
            _ => None,
        }
    }
}
// `let mut k = A; while k < B { ..; k += 1; }` counts like `for k in A..B { .. }` when B stays the same, nothing else changes k,
// and k is not used afterwards
fn count_whiles(b: &mut Block) {
    let mut j = 0;
    while j < b.stmts.len() {
        if let Some((k, lo, hi, body, at)) = counting(&b.stmts, j) {
            let id = format_ident!("{}", k);
            b.stmts[j] = Stmt::Expr(parse_quote!(for #id in #lo..#hi #body), None);
            b.stmts.remove(at);
        } else { j += 1; }
    }
}
struct Changes<'a> { k: &'a str, hit: bool, jump: bool, uses: bool, vecs: bool, bound: &'a BTreeSet<String> }
impl<'a, 'ast> syn::visit::Visit<'ast> for Changes<'a> {
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) { self.target(&a.left); syn::visit::visit_expr_assign(self, a); }
    fn visit_expr_binary(&mut self, e: &'ast ExprBinary) {
        if matches!(e.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_)) { self.target(&e.left); }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_reference(&mut self, r: &'ast ExprReference) { if r.mutability.is_some() { self.target(&r.expr); } syn::visit::visit_expr_reference(self, r); }
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) { self.jump = true; }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if p.path.is_ident(self.k) { self.uses = true; } }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) { let n = p.ident.to_string(); if n == self.k || self.bound.contains(&n) { self.hit = true; } }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if let Expr::Path(p) = unparen(&m.receiver) {
            if p.path.get_ident().map(|i| self.bound.contains(&i.to_string())).unwrap_or(false) && ["push", "pop", "truncate", "resize", "clear", "extend", "extend_from_slice", "insert", "remove", "drain", "append"].iter().any(|n| m.method == n) { self.vecs = true; }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast Macro) { if m.tokens.clone().into_iter().any(|t| t.to_string().contains(self.k)) { self.uses = true; } }
}
impl<'a> Changes<'a> {
    fn target(&mut self, e: &Expr) { if let Expr::Path(p) = unparen(e) { if let Some(i) = p.path.get_ident() { let n = i.to_string(); if n == self.k || self.bound.contains(&n) { self.hit = true; } } } }
}
fn counting(v: &[Stmt], j: usize) -> Option<(String, Expr, Expr, Block, usize)> {
    let Stmt::Expr(Expr::While(w), _) = &v[j] else { return None };
    if w.label.is_some() { return None; }
    let Expr::Binary(c) = unparen(&w.cond) else { return None };
    if !matches!(c.op, BinOp::Lt(_)) { return None; }
    let k = match unparen(&c.left) { Expr::Path(p) => p.path.get_ident()?.to_string(), _ => return None };
    let hi = unparen(&c.right).clone();
    let mut bound = BTreeSet::new();
    match &hi {
        Expr::Lit(_) => {}
        Expr::Path(p) => { bound.insert(p.path.get_ident()?.to_string()); }
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => match unparen(&m.receiver) { Expr::Path(p) => { bound.insert(p.path.get_ident()?.to_string()); } _ => return None },
        _ => return None,
    }
    if bound.contains(&k) { return None; }
    let mut body = w.body.clone();
    // the step: at the end, or before statements that do not mention the counter
    let step = body.stmts.iter().rposition(|s| matches!(s, Stmt::Expr(Expr::Binary(a), _) if matches!(a.op, BinOp::AddAssign(_)) && matches!(unparen(&a.left), Expr::Path(p) if p.path.is_ident(&k)) && is_lit(unparen(&a.right), "1")))?;
    {
        let none = BTreeSet::new();
        let mut u = Changes { k: &k, hit: false, jump: false, uses: false, vecs: false, bound: &none };
        for s in &body.stmts[step + 1..] { syn::visit::Visit::visit_stmt(&mut u, s); }
        if u.uses || u.hit { return None; }
    }
    body.stmts.remove(step);
    use syn::visit::Visit;
    let mut ch = Changes { k: &k, hit: false, jump: false, uses: false, vecs: false, bound: &bound };
    ch.visit_block(&body);
    if ch.hit || ch.jump || ch.vecs { return None; }
    // where it is bound, with nothing between that mentions it
    let mut at = j;
    let lo = loop {
        if at == 0 { return None; }
        at -= 1;
        if let Stmt::Local(l) = &v[at] {
            let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
            if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
                if i.ident == k { if i.mutability.is_none() || init.diverge.is_some() || !simple(unparen(&init.expr)) { return None; } break unparen(&init.expr).clone(); }
            }
        }
        let mut u = Changes { k: &k, hit: false, jump: false, uses: false, vecs: false, bound: &BTreeSet::new() };
        u.visit_stmt(&v[at]);
        if u.uses || u.hit { return None; }
    };
    if let Expr::Path(p) = &lo { let n = p.path.get_ident()?.to_string(); for s in &v[at + 1..j] { let mut u = Changes { k: &n, hit: false, jump: false, uses: false, vecs: false, bound: &BTreeSet::new() }; u.visit_stmt(s); if u.hit { return None; } } }
    for s in &v[j + 1..] {
        let mut u = Changes { k: &k, hit: false, jump: false, uses: false, vecs: false, bound: &BTreeSet::new() };
        u.visit_stmt(s);
        if u.uses { return None; }
        if u.hit { break; }
    }
    Some((k, lo, hi, body, at))
}
fn value(i: Item) -> (Vec<Stmt>, Expr) {
    match i {
        Item::Val(s, e) => (s, e),
        Item::Ref(e) => (vec![], e),
        Item::MutRef(e) => (vec![], parse_quote!(&mut #e)),
        Item::Tuple(v) => {
            let mut st = Vec::new(); let mut es: Vec<Expr> = Vec::new();
            for x in v { let (s, e) = value(x); st.extend(s); es.push(e); }
            (st, parse_quote!((#(#es),*)))
        }
    }
}
fn bind(p: &Pat, item: Item, st: &mut Vec<Stmt>, derefs: &mut Vec<String>) {
    match (p, item) {
        (Pat::Paren(q), i) => bind(&q.pat, i, st, derefs),
        (Pat::Type(q), i) => bind(&q.pat, i, st, derefs),
        (Pat::Wild(_), _) => {}
        (Pat::Tuple(t), Item::Tuple(v)) if t.elems.len() == v.len() => {
            for (q, i) in t.elems.iter().zip(v) { bind(q, i, st, derefs); }
        }
        (Pat::Reference(r), Item::Ref(e)) => { let q = &r.pat; st.push(parse_quote!(let #q = #e;)); }
        (Pat::Ident(id), Item::Ref(e)) => { derefs.push(id.ident.to_string()); let q = &id.ident; st.push(parse_quote!(let #q = #e;)); }
        (Pat::Ident(id), Item::MutRef(e)) => { st.push(parse_quote!(let #id = &mut #e;)); }
        (q, i) => {
            let (s, e) = value(i);
            if s.is_empty() { st.push(parse_quote!(let #q = #e;)); } else { st.push(parse_quote!(let #q = { #(#s)* #e };)); }
        }
    }
}
struct Deref<'a> { ids: &'a [String] }
impl<'a> VisitMut for Deref<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = unparen(&u.expr) {
                    if let Some(id) = p.path.get_ident() {
                        if self.ids.contains(&id.to_string()) { *e = Expr::Path(p.clone()); return; }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Nested<'a> { d: &'a mut Desugar }
impl<'a> VisitMut for Nested<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) { self.d.block(b); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = self.d.terminal(e) { *e = x; }
        visit_mut::visit_expr_mut(self, e);
    }
}
