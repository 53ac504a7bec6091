// Pass F (cost mode only): every function body keeps a ghost step counter. A body is charged, where it begins, the number of
// arithmetic operators its straight-line text contains; a loop body the same once per iteration; a call of a function with
// a @cost contract is charged that bound, a call of an inner FFT its fcost(). Every exit asserts counter <= @cost.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Auto = BTreeMap<String, Option<u64>>;
#[derive(Default, Clone)]
pub struct LoopCost { pub k: u64, pub lo: String, pub flat: bool, pub whilst: bool }
pub struct Cost<'a> {
    pub costed: &'a BTreeSet<String>,
    pub auto: &'a Auto,
    pub loops: BTreeMap<usize, LoopCost>,
    pub errors: Vec<String>,
    // straight-line operators of the body in hand; whether it contains a charge or another loop
    ops: u64,
    deep: bool,
    pub insert: bool,
    pub unknown: bool,
    // a measure of the rounds done, for the while loops that have one
    pub whiles: BTreeMap<usize, String>,
}
const FFT: [&str; 4] = ["process_with_scratch", "process_outofplace_with_scratch", "process_immutable_with_scratch", "process"];
// sizes, no element arithmetic
const SIZES: [&str; 5] = ["len", "get_scratch_len", "get_inplace_scratch_len", "get_outofplace_scratch_len", "fft_direction"];
pub fn raw(t: &str) -> Stmt { let s = t.to_string(); parse_quote!(__raw!(#s);) }
fn exit() -> Stmt { parse_quote!(__exit!();) }

impl<'a> Cost<'a> {
    pub fn new(costed: &'a BTreeSet<String>, auto: &'a Auto, insert: bool) -> Self { Cost { costed, auto, loops: BTreeMap::new(), errors: vec![], ops: 0, deep: false, insert, unknown: false, whiles: BTreeMap::new() } }
    // own operators of a function without loops and costed calls, or None
    pub fn constant(costed: &'a BTreeSet<String>, auto: &'a Auto, b: &Block) -> Option<u64> {
        let mut c = Cost::new(costed, auto, false);
        let mut b = b.clone();
        c.visit_block_mut(&mut b);
        if c.deep || c.unknown || !c.errors.is_empty() { None } else { Some(c.ops + 1) }
    }
    pub fn function(&mut self, b: &mut Block, ret: Option<&Type>) {
        self.visit_block_mut(b);
        let k0 = self.ops + 1;
        let mut v = vec![raw("let ghost mut cost__: int = 0;"), raw(&format!("proof {{ cost__ = {}; }}", k0))];
        v.extend(std::mem::take(&mut b.stmts));
        let tail = match v.last() { Some(Stmt::Expr(_, None)) => v.pop(), _ => None };
        match (tail, ret) {
            (Some(Stmt::Expr(e, None)), Some(rt)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => {
                v.push(parse_quote!(let cret__: #rt = #e;));
                v.push(exit());
                v.push(Stmt::Expr(parse_quote!(cret__), None));
            }
            (Some(Stmt::Expr(e, None)), _) => {
                let semi = if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Loop(_)) { None } else { Some(Default::default()) };
                v.push(Stmt::Expr(e, semi));
                v.push(exit());
            }
            _ => v.push(exit()),
        }
        b.stmts = v;
    }
    fn call(&mut self, name: &str) {
        match self.auto.get(name) {
            _ if self.costed.contains(name) => self.deep = true,
            _ if SIZES.contains(&name) => self.ops += 1,
            Some(Some(k)) => self.ops += k,
            Some(None) => { self.unknown = true; if self.insert { self.errors.push(format!("no cost known for {}", name)); } }
            None => self.ops += 1,
        }
    }
}
impl<'a> VisitMut for Cost<'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("__charge") { self.deep = true; }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::While(f), _) = &mut s {
                self.visit_expr_mut(&mut f.cond);
                let ops = self.ops;
                self.ops = 0; self.deep = false;
                let n: Option<usize> = match f.body.stmts.first() { Some(Stmt::Macro(m)) if m.mac.path.is_ident("__inv") => m.mac.tokens.to_string().parse().ok(), _ => None };
                let inv = if n.is_some() { Some(f.body.stmts.remove(0)) } else { None };
                self.visit_expr_mut(&mut f.cond);
                self.visit_block_mut(&mut f.body);
                let (k, deep) = (self.ops + 1, self.deep);
                self.ops = ops; self.deep = true;
                if self.insert {
                    match n.and_then(|n| self.whiles.get(&n).cloned().map(|w| (n, w))) {
                        Some((n, w)) if !deep => {
                            self.loops.insert(n, LoopCost { k, lo: w.clone(), flat: true, whilst: true });
                            out.push(raw(&format!("let ghost c0__{} = cost__; let ghost w0__{}: int = ({}) as int;", n, n, w)));
                            let mut v = vec![inv.unwrap(), raw(&format!("proof {{ cost__ = cost__ + {}; }}", k))];
                            v.extend(std::mem::take(&mut f.body.stmts));
                            f.body.stmts = v;
                        }
                        _ => self.errors.push("a while loop without a measure of its rounds".into()),
                    }
                }
                out.push(s);
                continue;
            }
            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                self.visit_expr_mut(&mut f.expr);
                let (ops, _) = (self.ops, self.deep);
                self.ops = 0; self.deep = false;
                let n: Option<usize> = match f.body.stmts.first() { Some(Stmt::Macro(m)) if m.mac.path.is_ident("__inv") => m.mac.tokens.to_string().parse().ok(), _ => None };
                let inv = if n.is_some() { Some(f.body.stmts.remove(0)) } else { None };
                self.visit_block_mut(&mut f.body);
                let (k, deep) = (self.ops + 1, self.deep);
                self.ops = ops; self.deep = true;
                if let (Some(n), true) = (n, self.insert) {
                    let lo = match &*f.expr { Expr::Range(r) => r.start.to_token_stream().to_string(), _ => "0".into() };
                    self.loops.insert(n, LoopCost { k, lo, flat: !deep, whilst: false });
                    out.push(raw(&format!("let ghost c0__{} = cost__;", n)));
                    let mut v = vec![inv.unwrap(), raw(&format!("proof {{ cost__ = cost__ + {}; }}", k))];
                    if deep { v.insert(1, parse_quote!(__step!(#n);)); }
                    v.extend(std::mem::take(&mut f.body.stmts));
                    f.body.stmts = v;
                }
                out.push(s);
                continue;
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => { self.deep = true; self.errors.push("a loop whose number of iterations the cost pass cannot read".into()); return; }
            Expr::Closure(c) => {
                let o = self.ops;
                visit_mut::visit_expr_mut(self, &mut c.body);
                if self.ops != o { self.unknown = true; self.errors.push("a closure whose calls the cost pass cannot count".into()); }
                return;
            }
            Expr::Macro(m) => { self.visit_macro_mut(&mut m.mac); return; }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                if !matches!(b.op, BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Ne(_) | BinOp::Ge(_) | BinOp::Gt(_)) { self.ops += 1; }
            }
            Expr::Unary(u) => { if matches!(u.op, UnOp::Neg(_)) { self.ops += 1; } }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if FFT.contains(&n.as_str()) && !self.auto.contains_key(&n) {
                    self.deep = true;
                    if self.insert {
                        let r: TokenStream = m.receiver.to_token_stream();
                        let t = quote!(#r.fcost());
                        let c = e.clone();
                        *e = parse_quote!({ __charge!(#t); #c });
                    }
                } else { self.call(&n); }
            }
            Expr::Call(c) => { if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let first = p.path.segments[0].ident.to_string();
                // an operation of the element type, not a function of the crate that happens to be named alike
                if p.path.segments.len() == 2 && ["R", "T", "F64", "Cx", "Cx64", "Complex"].contains(&first.as_str()) {
                    match self.auto.get(&format!("DctNum::{}", n)) { Some(Some(k)) => self.ops += k, Some(None) => self.unknown = true, None => self.ops += 1 }
                } else { self.call(&n); }
            } else { self.unknown = true; self.errors.push("a call of a computed function".into()); } }
            Expr::Return(r) if self.insert => {
                let x = r.expr.take();
                *e = match x { Some(x) => parse_quote!({ let ret__ = #x; __exit!(); return ret__; }), None => parse_quote!({ __exit!(); return; }) };
            }
            _ => {}
        }
    }
}
