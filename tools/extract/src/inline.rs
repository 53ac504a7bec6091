// Pass 0: a function without a contract is replaced at its calls by its own body (arguments bound first, locals renamed apart),
// so that the contract of the caller is checked against the code that runs. Nothing is inlined that has a contract.
use crate::contracts::Contracts;
use crate::desugar::MacroExpander;
use crate::model::{FnItem, Model};
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), _ => e } }
fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t { match x { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}
// x, x.f, self.f.g: nothing happens when it is evaluated
fn place(e: &Expr) -> bool { match unparen(e) { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => place(&f.base), _ => false } }
fn root(e: &Expr) -> Option<String> { match unparen(e) { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => root(&f.base), Expr::Index(i) => root(&i.expr), Expr::MethodCall(m) => root(&m.receiver), _ => None } }
// `if c { ..; return a; } rest` is `if c { ..; a } else { rest }`
fn join_returns(b: &mut Block) {
    for i in 0..b.stmts.len() {
        let last = i + 1 == b.stmts.len();
        if let Stmt::Expr(Expr::If(f), _) = &mut b.stmts[i] {
            let ends = matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
            if ends && f.else_branch.is_none() && !last {
                let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
                if let Stmt::Expr(Expr::If(f), semi) = &mut b.stmts[i] {
                    let mut e: Block = parse_quote!({ #(#rest)* });
                    join_returns(&mut e);
                    join_returns(&mut f.then_branch);
                    f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e }))));
                    *semi = None;
                }
                return;
            }
            if last { tail_returns(&mut b.stmts[i]); return; }
        }
        if last { if let Stmt::Expr(Expr::Return(r), _) = &b.stmts[i] { let r = r.clone(); b.stmts.pop(); if let Some(e) = r.expr { b.stmts.push(Stmt::Expr(*e, None)); } return; } }
    }
}
fn tail_returns(s: &mut Stmt) {
    if let Stmt::Expr(Expr::If(f), semi) = s {
        if f.else_branch.is_none() { return; }
        join_returns(&mut f.then_branch);
        match f.else_branch.as_mut().map(|e| &mut *e.1) {
            Some(Expr::Block(b)) => join_returns(&mut b.block),
            Some(e @ Expr::If(_)) => { let mut t = Stmt::Expr(e.clone(), None); tail_returns(&mut t); if let Stmt::Expr(x, _) = t { *e = x; } }
            _ => {}
        }
        *semi = None;
    }
}

#[derive(Clone)]
enum To { Plain(Expr), Ref(Expr, bool) }

// replaces identifiers of values: parameters by argument places, locals by fresh names
struct Subst { to: BTreeMap<String, To>, names: BTreeMap<String, String>, bad: bool }
impl Subst {
    fn key(&self, e: &Expr) -> Option<To> { if let Expr::Path(p) = unparen(e) { p.path.get_ident().and_then(|i| self.to.get(&i.to_string()).cloned()) } else { None } }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut field = false;
        for x in t {
            let was = std::mem::replace(&mut field, false);
            match x {
                TokenTree::Ident(i) if !was => {
                    let s = i.to_string();
                    if let Some(n) = self.names.get(&s) { out.extend([TokenTree::Ident(id(n))]); }
                    else if let Some(To::Plain(e) | To::Ref(e, _)) = self.to.get(&s) { out.extend(e.to_token_stream()); }
                    else { out.extend([TokenTree::Ident(i)]); }
                }
                TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream())))]),
                TokenTree::Punct(p) => { field = p.as_char() == '.' && p.spacing() == proc_macro2::Spacing::Alone; out.extend([TokenTree::Punct(p)]); }
                o => out.extend([o]),
            }
        }
        out
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => { if let Some(To::Ref(x, _)) = self.key(&u.expr) { *e = x; return; } }
            Expr::MethodCall(m) => if let Some(To::Ref(x, _)) = self.key(&m.receiver) { *m.receiver = x; for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; },
            Expr::Index(m) => if let Some(To::Ref(x, _)) = self.key(&m.expr) { *m.expr = x; self.visit_expr_mut(&mut m.index); return; },
            Expr::Field(f) => if let Some(To::Ref(x, _)) = self.key(&f.base) { *f.base = x; return; },
            Expr::Assign(a) => if self.key(&a.left).is_some() { self.bad = true; },
            Expr::Path(_) => match self.key(e) {
                Some(To::Plain(x)) => { *e = x; return; }
                Some(To::Ref(x, true)) => { *e = parse_quote!(&mut #x); return; }
                Some(To::Ref(x, false)) => { *e = parse_quote!(&#x); return; }
                None => {}
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(n) = p.path.get_ident().and_then(|i| self.names.get(&i.to_string())) { p.path = id(n).into(); }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.names.get(&p.ident.to_string()) { p.ident = id(n); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(m.tokens.clone()); }
}
// identifiers bound by patterns
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
// what keeps a body from being put in place of its call
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) { visit::visit_expr_closure(self, c); }
    fn visit_item(&mut self, _: &'a syn::Item) { self.0 = true; }
}
struct Rename { from: String }
impl VisitMut for Rename {
    fn visit_path_mut(&mut self, p: &mut Path) { if p.segments[0].ident == self.from { p.segments[0].ident = id("T"); } visit_mut::visit_path_mut(self, p); }
}

#[derive(Clone)]
struct Helper { params: Vec<(String, bool, Option<Type>)>, method: bool, mutself: bool, block: Block, ret: Option<Type> }
fn helper(f: &FnItem) -> Option<Helper> {
    let mut b = f.block.clone()?;
    join_returns(&mut b);
    let mut l = Leaves(false);
    l.visit_block(&b);
    if l.0 { return None; }
    let mut sig = f.sig.clone();
    for p in f.sig.generics.params.iter() {
        match p {
            GenericParam::Lifetime(_) => {}
            GenericParam::Type(t) => {
                let n = t.ident.to_string();
                let num = t.bounds.to_token_stream().to_string().contains("DctNum") || f.sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string().contains(&format!("{} : DctNum", n))).unwrap_or(false);
                if !num { return None; }
                if n != "T" { let mut r = Rename { from: n }; r.visit_block_mut(&mut b); r.visit_signature_mut(&mut sig); }
            }
            GenericParam::Const(_) => return None,
        }
    }
    let (mut params, mut method, mut mutself) = (vec![], false, false);
    for i in sig.inputs.iter() {
        match i {
            FnArg::Receiver(r) => { if r.reference.is_none() { return None; } method = true; mutself = r.mutability.is_some(); }
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                    if t.ty.to_token_stream().to_string().contains("impl ") { return None; }
                    params.push((p.ident.to_string(), p.mutability.is_some(), if matches!(&*t.ty, Type::Path(_)) { Some((*t.ty).clone()) } else { None }));
                }
                _ => return None,
            },
        }
    }
    let ret = match &sig.output { ReturnType::Type(_, t) if matches!(&**t, Type::Path(_)) && !t.to_token_stream().to_string().contains('&') => Some((**t).clone()), _ => None };
    Some(Helper { params, method, mutself, block: b, ret })
}

struct Inliner<'a> { free: &'a BTreeMap<String, Helper>, inherent: &'a BTreeMap<(String, String), Helper>, local: BTreeMap<String, Helper>, owner: String, used: BTreeSet<String>, k: usize, done: usize, stack: Vec<String> }
impl<'a> Inliner<'a> {
    fn find(&self, e: &Expr) -> Option<(Helper, Vec<Expr>)> {
        match unparen(e) {
            Expr::Call(c) => {
                let Expr::Path(p) = unparen(&c.func) else { return None };
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = s.last()?.clone();
                let h = if s.len() == 1 && self.local.contains_key(&last) { self.local.get(&last) }
                    else if s.len() >= 2 && (s[s.len() - 2] == "Self" || s[s.len() - 2] == self.owner) { self.inherent.get(&(self.owner.clone(), last)) }
                    else if s.len() >= 2 && s[s.len() - 2].chars().next().map(|c| c.is_uppercase()).unwrap_or(false) { None }
                    else { self.free.get(&last) }?;
                if h.method || h.params.len() != c.args.len() { return None; }
                Some((h.clone(), c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                if m.receiver.to_token_stream().to_string() != "self" { return None; }
                let h = self.inherent.get(&(self.owner.clone(), m.method.to_string()))?;
                if !h.method || h.params.len() != m.args.len() { return None; }
                Some((h.clone(), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    // the statements that compute the call, and its value
    fn body(&mut self, h: Helper, args: Vec<Expr>) -> Option<(Vec<Stmt>, Option<Expr>)> {
        if self.done > 200 { return None; }
        let mut b = h.block;
        let mut bound = Bound(BTreeSet::new());
        bound.visit_block(&b);
        for p in &h.params { bound.0.insert(p.0.clone()); }
        self.k += 1;
        let mut names = BTreeMap::new();
        for n in &bound.0 { if self.used.contains(n) { names.insert(n.clone(), format!("{}__h{}", n, self.k)); } }
        let mut s = Subst { to: BTreeMap::new(), names, bad: false };
        let mut out: Vec<Stmt> = vec![];
        // what another argument may change is copied first, as the call does
        let mut touched: BTreeSet<String> = args.iter().filter_map(|a| match unparen(a) { Expr::Reference(r) if r.mutability.is_some() => root(&r.expr), _ => None }).collect();
        if h.mutself { touched.insert("self".into()); }
        for ((n, m, ty), a) in h.params.iter().zip(args) {
            let a = unparen(&a).clone();
            match &a {
                x if !m && place(x) && !root(x).map(|r| touched.contains(&r)).unwrap_or(false) => { s.names.remove(n); s.to.insert(n.clone(), To::Plain(x.clone())); }
                Expr::Reference(r) if !m && place(&r.expr) => { s.names.remove(n); s.to.insert(n.clone(), To::Ref((*r.expr).clone(), r.mutability.is_some())); }
                Expr::Lit(_) if !m => { s.names.remove(n); s.to.insert(n.clone(), To::Plain(a.clone())); }
                x => {
                    let v = id(s.names.get(n).unwrap_or(n));
                    let mt: Option<Token![mut]> = if *m { Some(Default::default()) } else { None };
                    // an argument is evaluated before the parameters exist
                    out.push(match ty { Some(t) => parse_quote!(let #mt #v: #t = #x;), None => parse_quote!(let #mt #v = #x;) });
                }
            }
        }
        // a local of the body must not hide a parameter that is replaced
        let mut own = Bound(BTreeSet::new());
        own.visit_block(&b);
        for n in &own.0 { if s.to.contains_key(n) { return None; } }
        s.visit_block_mut(&mut b);
        if s.bad { return None; }
        idents(b.to_token_stream(), &mut self.used);
        for n in out.iter() { idents(n.to_token_stream(), &mut self.used); }
        self.done += 1;
        let tail = match b.stmts.last() {
            Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) => { let e = e.clone(); b.stmts.pop(); Some(e) }
            _ => None,
        };
        out.extend(b.stmts);
        Some((out, tail))
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let mut todo: std::collections::VecDeque<Stmt> = std::mem::take(&mut b.stmts).into();
        // local closures that are only called are helpers too
        while let Some(mut st) = todo.pop_front() {
            if let Stmt::Local(l) = &st {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let (Expr::Closure(c), None) = (unparen(&init.expr), &init.diverge) {
                        if let Some(h) = closure(c) {
                            let n = p.ident.to_string();
                            let mut after = TokenStream::new();
                            for s in &todo { s.to_tokens(&mut after); }
                            if only_called(after, &n) { self.local.insert(n, h); continue; }
                        }
                    }
                }
            }
            // calls in statement position become statements of this block
            let mut pre: Vec<Stmt> = vec![];
            let mut gone = false;
            match &mut st {
                Stmt::Expr(e, semi) => {
                    let semi = *semi;
                    if let Some((h, a)) = self.find(e) {
                        if let Some((s, t)) = self.body(h, a) { pre = s; gone = true; if let Some(t) = t { pre.push(Stmt::Expr(t, semi)); } }
                    } else if let Expr::Assign(x) = e {
                        if let Some((h, a)) = self.find(&x.right) { if let Some((s, Some(t))) = self.body(h, a) { pre = s; *x.right = t; } }
                    } else if let Expr::Return(x) = e {
                        if let Some(v) = &mut x.expr { if let Some((h, a)) = self.find(v) { if let Some((s, Some(t))) = self.body(h, a) { pre = s; **v = t; } } }
                    }
                }
                Stmt::Local(l) => if let Some(init) = &mut l.init {
                    if init.diverge.is_none() { if let Some((h, a)) = self.find(&init.expr) {
                        let ret = h.ret.clone();
                        if let Some((s, Some(t))) = self.body(h, a) {
                            pre = s;
                            *init.expr = t;
                            // the value keeps the type the function gave it
                            if let (Pat::Ident(_), Some(r)) = (&l.pat, ret) { let p = l.pat.clone(); l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(r) }); }
                        }
                    } }
                },
                _ => {}
            }
            if !pre.is_empty() || gone {
                if !gone { pre.push(st); }
                for s in pre.into_iter().rev() { todo.push_front(s); }
                continue;
            }
            self.visit_stmt_mut(&mut st);
            out.push(st);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // .map(helper) is .map(|x| helper(x))
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = unparen(a) {
                    let probe: Expr = parse_quote!(#p(x__m));
                    if self.find(&probe).is_some() && !self.local.contains_key(&p.to_token_stream().to_string()) { *a = parse_quote!(|x__m| #p(x__m)); }
                }
            }
        }
        if let Some((h, a)) = self.find(e) {
            if let Some((s, t)) = self.body(h, a) {
                *e = match (s.is_empty(), t) { (true, Some(t)) => if matches!(t, Expr::Path(_) | Expr::Lit(_) | Expr::MethodCall(_) | Expr::Call(_)) { t } else { parse_quote!((#t)) }, (_, t) => { let b: Block = parse_quote!({ #(#s)* #t }); Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }) } };
                self.visit_expr_mut(e);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn closure(c: &ExprClosure) -> Option<Helper> {
    if c.capture.is_some() || c.asyncness.is_some() { return None; }
    let mut params = vec![];
    for p in c.inputs.iter() {
        match p {
            Pat::Ident(p) if p.by_ref.is_none() => params.push((p.ident.to_string(), p.mutability.is_some(), None)),
            Pat::Type(t) => match &*t.pat { Pat::Ident(p) if p.by_ref.is_none() => params.push((p.ident.to_string(), p.mutability.is_some(), if matches!(&*t.ty, Type::Path(_)) { Some((*t.ty).clone()) } else { None })), _ => return None },
            _ => return None,
        }
    }
    let mut block: Block = match &*c.body { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => parse_quote!({ #e }) };
    join_returns(&mut block);
    let mut l = Leaves(false);
    l.visit_block(&block);
    if l.0 { None } else { Some(Helper { params, method: false, mutself: false, block, ret: None }) }
}
// every mention of n is a call n(..) and it is mentioned
fn only_called(t: TokenStream, n: &str) -> bool {
    fn go(t: TokenStream, n: &str, calls: &mut usize) -> bool {
        let v: Vec<TokenTree> = t.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                TokenTree::Ident(y) if y == n => match v.get(i + 1) {
                    Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis && !(i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.')) => *calls += 1,
                    _ => return false,
                },
                TokenTree::Group(g) => if !go(g.stream(), n, calls) { return false; },
                _ => {}
            }
        }
        true
    }
    let mut c = 0;
    go(t, n, &mut c) && c > 0
}

pub fn run(model: &mut Model, contracts: &Contracts) {
    let known = |k: &str| contracts.fns.contains_key(k);
    let mut free: BTreeMap<String, Helper> = BTreeMap::new();
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    for (_, n, _) in &model.free { *count.entry(n.clone()).or_default() += 1; }
    for (m, n, f) in &model.free { if !known(&format!("{}::{}", m, n)) && count[n] == 1 { if let Some(h) = helper(f) { free.insert(n.clone(), h); } } }
    let mut inherent: BTreeMap<(String, String), Helper> = BTreeMap::new();
    for (t, v) in &model.inherent { for (n, f) in v { if n != "new" && !known(&format!("{}::{}", t, n)) { if let Some(h) = helper(f) { inherent.insert((t.clone(), n.clone()), h); } } } }
    // a helper that calls itself, in any number of steps, stays a function
    let all: BTreeMap<String, BTreeSet<String>> = free.iter().map(|(n, h)| (n.clone(), h)).chain(inherent.iter().map(|((_, n), h)| (n.clone(), h))).map(|(n, h)| { let mut s = BTreeSet::new(); idents(h.block.to_token_stream(), &mut s); (n, s) }).collect();
    let cyc = |n: &str| { let (mut seen, mut todo) = (BTreeSet::new(), vec![n.to_string()]); while let Some(x) = todo.pop() { if let Some(s) = all.get(&x) { for y in s { if y == n { return true; } if all.contains_key(y) && seen.insert(y.clone()) { todo.push(y.clone()); } } } } false };
    free.retain(|n, _| !cyc(n));
    inherent.retain(|k, _| !cyc(&k.1));
    let snap = Model { macros: model.macros.clone(), ..Default::default() };
    let go = |b: &mut Block, owner: &str| {
        let mut x = b.clone();
        let mut me = MacroExpander { model: &snap, errors: vec![], depth: 0 };
        me.visit_block_mut(&mut x);
        if !me.errors.is_empty() { return; }
        let mut used = BTreeSet::new();
        idents(x.to_token_stream(), &mut used);
        let mut i = Inliner { free: &free, inherent: &inherent, local: BTreeMap::new(), owner: owner.to_string(), used, k: 0, done: 0, stack: vec![] };
        i.visit_block_mut(&mut x);
        if i.done > 0 { *b = x; }
    };
    for (t, v) in model.inherent.iter_mut() { for (_, f) in v.iter_mut() { if let Some(b) = &mut f.block { go(b, t); } } }
    for (t, m) in model.trait_impls.iter_mut() { for (_, v) in m.iter_mut() { for (_, f) in v.iter_mut() { if let Some(b) = &mut f.block { go(b, t); } } } }
    for (_, _, f) in model.blanket_fns.iter_mut() { if let Some(b) = &mut f.block { go(b, "DctNum"); } }
    for (_, _, f) in model.free.iter_mut() { if let Some(b) = &mut f.block { go(b, ""); } }
    for (_, (_, t)) in model.traits.iter_mut() { for i in t.items.iter_mut() { if let TraitItem::Fn(f) = i { if let Some(b) = &mut f.default { go(b, ""); } } } }
    // helpers nobody calls any more are gone
    for _ in 0..8 {
        let mut mentions: Vec<(String, BTreeSet<String>)> = vec![];
        let mut add = |n: &str, t: TokenStream| { let mut s = BTreeSet::new(); idents(t, &mut s); mentions.push((n.to_string(), s)); };
        for (_, v) in model.inherent.iter() { for (n, f) in v { add(n, f.block.to_token_stream()); } }
        for (_, m) in model.trait_impls.iter() { for (_, v) in m { for (n, f) in v { add(n, f.block.to_token_stream()); } } }
        for (_, n, f) in &model.blanket_fns { add(n, f.block.to_token_stream()); }
        for (_, n, f) in &model.free { add(n, f.block.to_token_stream()); }
        for (_, (_, t)) in &model.traits { for i in &t.items { if let TraitItem::Fn(f) = i { add("", f.default.to_token_stream()); } } }
        for (_, c) in &model.consts { add("", c.expr.to_token_stream()); }
        let alive = |n: &str| mentions.iter().any(|(o, s)| o != n && s.contains(n));
        let before = (model.free.len(), model.inherent.values().map(|v| v.len()).sum::<usize>());
        model.free.retain(|(_, n, _)| !free.contains_key(n) || alive(n));
        for (t, v) in model.inherent.iter_mut() { v.retain(|(n, _)| !inherent.contains_key(&(t.clone(), n.clone())) || alive(n)); }
        if before == (model.free.len(), model.inherent.values().map(|v| v.len()).sum::<usize>()) { break; }
    }
}
