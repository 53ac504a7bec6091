// Pass D: markers for loop invariants and proof hooks, and the printer that resolves them.
use crate::contracts::FnContract;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use quote::{quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone, Debug, Default)]
pub struct LoopInfo { pub i: String, pub hi: String, pub v: String, pub acc: String, pub cost: String, pub step: String }
pub struct Hooker<'a> {
    pub c: &'a FnContract,
    pub loops: Vec<LoopInfo>,
    pub used: BTreeSet<String>,
    lets: BTreeMap<String, usize>,
    calls: BTreeMap<String, usize>,
}
struct CallNames { names: Vec<String> }
impl<'ast> Visit<'ast> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { visit::visit_expr_method_call(self, m); self.names.push(m.method.to_string()); }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { self.names.push(p.path.segments.last().unwrap().ident.to_string()); }
    }
    fn visit_block(&mut self, _: &'ast Block) {}
}
#[derive(Default)]
struct Grows { pushed: Vec<String>, assigned: Vec<String>, own: Vec<String>, index: bool, used: BTreeSet<String> }
impl<'ast> Visit<'ast> for Grows {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if m.method == "push" { self.add(&m.receiver, true); }
    }
    fn visit_local(&mut self, l: &'ast Local) {
        visit::visit_local(self, l);
        if let Pat::Ident(i) = &l.pat { self.own.push(i.ident.to_string()); }
    }
    fn visit_expr_index(&mut self, i: &'ast ExprIndex) {
        self.visit_expr(&i.expr);
        let was = std::mem::replace(&mut self.index, true);
        self.visit_expr(&i.index);
        self.index = was;
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if let (true, Some(i)) = (self.index, p.path.get_ident()) { self.used.insert(i.to_string()); } }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) { visit::visit_expr_assign(self, a); self.add(&a.left, false); }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        visit::visit_expr_binary(self, b);
        if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) { self.add(&b.left, false); }
    }
}
impl Grows {
    fn add(&mut self, e: &Expr, push: bool) {
        let e = match e { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => &*u.expr, e => e };
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                let n = id.to_string();
                let l = if push { &mut self.pushed } else { &mut self.assigned };
                if !self.own.contains(&n) && !l.contains(&n) { l.push(n); }
            }
        }
    }
}
fn marker(name: &str) -> Stmt { let n = name.to_string(); parse_quote!(__hook!(#n);) }

impl<'a> Hooker<'a> {
    pub fn new(c: &'a FnContract) -> Self { Hooker { c, loops: vec![], used: BTreeSet::new(), lets: BTreeMap::new(), calls: BTreeMap::new() } }
    fn want(&mut self, h: &str, out: &mut Vec<Stmt>) {
        if self.c.hooks.contains_key(h) { self.used.insert(h.to_string()); out.push(marker(h)); }
    }
    pub fn function(&mut self, b: &mut Block, ret: Option<&Type>) {
        self.block(b);
        let mut v = Vec::new();
        self.want("entry", &mut v);
        v.extend(std::mem::take(&mut b.stmts));
        // a final expression with a result hook is named
        if let (true, Some(ty)) = (self.c.hooks.contains_key("result"), ret) {
            if let Some(Stmt::Expr(e, None)) = v.last().cloned() {
                v.pop();
                v.push(parse_quote!(let res__: #ty = #e;));
                self.want("result", &mut v);
                v.push(Stmt::Expr(parse_quote!(res__), None));
            }
        }
        if self.c.hooks.contains_key("exit") {
            let tail = match v.last() { Some(Stmt::Expr(e, None)) if ret.is_some() && !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => v.pop(), _ => None };
            self.want("exit", &mut v);
            if let Some(t) = tail { v.push(t); }
        }
        if std::env::var("EXTRACT_PROBE").is_ok() {
            // vacuity probe: a false assertion where the function ends
            let tail = match v.last() { Some(Stmt::Expr(e, None)) if ret.is_some() && !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => v.pop(), _ => None };
            match tail {
                Some(Stmt::Expr(t, None)) if !matches!(t, Expr::Path(_)) => { let rt = ret.unwrap(); v.push(parse_quote!(let probe__: #rt = #t;)); v.push(marker("__probe")); v.push(Stmt::Expr(parse_quote!(probe__), None)); }
                Some(t) => { v.push(marker("__probe")); v.push(t); }
                None => v.push(marker("__probe")),
            }
        }
        b.stmts = v;
    }
    fn block(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = Vec::new();
        for mut s in stmts {
            // names of the calls made directly by this statement
            let mut cn = CallNames { names: vec![] };
            cn.visit_stmt(&s);
            let mut keys = Vec::new();
            for n in cn.names {
                let k = self.calls.entry(n.clone()).or_insert(0);
                *k += 1;
                keys.push(if *k == 1 { n.clone() } else { format!("{}#{}", n, k) });
            }
            for k in &keys { let h = format!("before-call {}", k); self.want(&h, &mut out); }
            let mut loop_no = None;
            match &mut s {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    let n = self.loops.len();
                    loop_no = Some(n);
                    let hi = match &*f.expr { Expr::Range(r) => r.end.to_token_stream().to_string(), _ => String::new() };
                    let pat = &f.pat;
                    let i = quote!(#pat).to_string();
                    let kk = i.strip_prefix("it__").or(hi.strip_prefix("hi__")).unwrap_or("0").to_string();
                    // the vector a loop pushes to, and the variable it accumulates in: generated names for a desugared
                    // chain, the program's own for a loop written out
                    let mut g = Grows::default();
                    g.visit_block(&f.body);
                    let used = std::mem::take(&mut g.used);
                    g.assigned.retain(|n| !used.contains(n));
                    let own = i.starts_with("it__") || hi.starts_with("hi__");
                    let pick = |gen: String, found: Vec<String>| if own && (found.is_empty() || found.contains(&gen)) { gen } else { found.into_iter().next().unwrap_or(gen) };
                    let v = pick(format!("vec__{}", kk), g.pushed);
                    let acc = pick(format!("acc__{}", kk), g.assigned);
                    self.loops.push(LoopInfo { i, hi, v, acc, ..Default::default() });
                    let h = format!("loop{} before", n); self.want(&h, &mut out);
                    self.loop_body(n, &mut f.body);
                }
                Stmt::Expr(Expr::While(f), _) => {
                    let n = self.loops.len();
                    loop_no = Some(n);
                    self.loops.push(LoopInfo::default());
                    let h = format!("loop{} before", n); self.want(&h, &mut out);
                    self.loop_body(n, &mut f.body);
                }
                Stmt::Expr(Expr::Loop(f), _) => {
                    let n = self.loops.len();
                    loop_no = Some(n);
                    self.loops.push(LoopInfo::default());
                    let h = format!("loop{} before", n); self.want(&h, &mut out);
                    self.loop_body(n, &mut f.body);
                }
                _ => self.inner(&mut s),
            }
            let mut name = None;
            if let Stmt::Local(l) = &s {
                let mut p = &l.pat;
                if let Pat::Type(t) = p { p = &t.pat; }
                match p {
                    Pat::Ident(id) => name = Some(id.ident.to_string()),
                    Pat::Tuple(t) => { if let Some(Pat::Ident(id)) = t.elems.first() { name = Some(id.ident.to_string()); } }
                    _ => {}
                }
            }
            out.push(s);
            if let Some(n) = name {
                let k = self.lets.entry(n.clone()).or_insert(0);
                *k += 1;
                let h = if *k == 1 { format!("after-let {}", n) } else { format!("after-let {}#{}", n, k) };
                self.want(&h, &mut out);
            }
            if let Some(n) = loop_no { let h = format!("loop{} after", n); self.want(&h, &mut out); }
            for k in &keys { let h = format!("after-call {}", k); self.want(&h, &mut out); }
        }
        b.stmts = out;
    }
    fn loop_body(&mut self, n: usize, b: &mut Block) {
        self.block(b);
        let mut v: Vec<Stmt> = Vec::new();
        let l = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
        v.push(parse_quote!(__inv!(#l);));
        let h = format!("loop{} begin", n); self.want(&h, &mut v);
        v.extend(std::mem::take(&mut b.stmts));
        let h = format!("loop{} end", n); self.want(&h, &mut v);
        b.stmts = v;
    }
    fn inner(&mut self, s: &mut Stmt) { Inner { h: self }.visit_stmt_mut(s); }
}
struct Inner<'b, 'a> { h: &'b mut Hooker<'a> }
impl<'b, 'a> syn::visit_mut::VisitMut for Inner<'b, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) { self.h.block(b); }
}

pub struct Printer<'a> { pub c: &'a FnContract, pub loops: &'a [LoopInfo], pub out: String, pub ind: usize, pub exit: String }
impl<'a> Printer<'a> {
    fn fill(&self, t: &str, own: Option<usize>) -> String {
        let mut t = t.to_string();
        for n in (0..self.loops.len()).rev() {
            let l = &self.loops[n];
            t = t.replace(&format!("$hi{}", n), &l.hi).replace(&format!("$i{}", n), &l.i)
                .replace(&format!("$v{}", n), &l.v).replace(&format!("$acc{}", n), &l.acc);
        }
        if let Some(n) = own {
            let l = &self.loops[n];
            t = t.replace("$hi", &l.hi).replace("$i", &l.i).replace("$v", &l.v).replace("$acc", &l.acc);
        }
        t
    }
    fn nl(&mut self) { while self.out.ends_with(' ') { self.out.pop(); } self.out.push('\n'); for _ in 0..self.ind { self.out.push_str("    "); } }
    pub fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut space = false;
        while i < v.len() {
            // markers
            if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
                if p.as_char() == '!' {
                    if id == "__hook" {
                        let s: LitStr = parse2(g.stream()).unwrap();
                        let name = s.value();
                        if name == "__probe" {
                            self.out.push_str("\nproof { assert(false); } // vacuity probe");
                            self.nl();
                            i += 3;
                            if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } }
                            continue;
                        }
                        let own = name.strip_prefix("loop").and_then(|r| r.split(' ').next()).and_then(|d| d.parse::<usize>().ok());
                        let t = self.fill(&self.c.hooks[&name], own);
                        self.out.push_str(&format!("\n// hook {}\n{}", name, t));
                        self.nl();
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } }
                        continue;
                    }
                    let ours = match id.to_string().as_str() {
                        "__raw" => { let s: LitStr = parse2(g.stream()).unwrap(); Some(s.value()) }
                        "__charge" => Some(format!("proof {{ cost__ = cost__ + ({}); }}", g.stream().to_string().replace('\n', " "))),
                        "__exit" => Some(self.exit.clone()),
                        "__step" => { let n: usize = g.stream().to_string().trim_end_matches("usize").parse().unwrap(); Some(self.fill(&self.loops[n].step, Some(n))) }
                        _ => None,
                    };
                    if let Some(t) = ours {
                        self.nl();
                        self.out.push_str(&t);
                        self.nl();
                        space = false;
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } }
                        continue;
                    }
                    if id == "__accept" {
                        self.out.push_str(&format!("proof {{ assert({}); }} //#accept", g.stream().to_string().replace('\n', " ")));
                        self.nl();
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } }
                        continue;
                    }
                    if id == "__ghost" {
                        self.out.push_str(" Ghost(");
                        self.out.push_str(&g.stream().to_string());
                        self.out.push(')');
                        i += 3;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(n))) = (inner.first(), inner.get(2)) {
                            if id == "__inv" {
                                let n: usize = n.stream().to_string().parse().unwrap();
                                inner.drain(0..4);
                                let own = self.c.loops.get(&n).cloned();
                                let cost = self.loops[n].cost.clone();
                                let full = match (own, cost.is_empty()) { (o, true) => o, (Some(o), false) => Some(o.replacen("invariant", &format!("invariant\n        {},", cost), 1).replace("//#cost,", ", //#cost")), (None, false) => Some(format!("    invariant\n        {},\n", cost).replace("//#cost,", ", //#cost")) };
                                if let Some(t) = full {
                                    let t = self.fill(&t, Some(n));
                                    self.out.push_str(&format!("\n// loop {}\n{}", n, t));
                                    self.nl();
                                }
                            }
                        }
                        self.out.push_str(" {");
                        self.ind += 1;
                        self.nl();
                        self.tokens(inner.into_iter().collect());
                        self.ind -= 1;
                        self.nl();
                        self.out.push('}');
                        self.nl();
                        space = false;
                    }
                    Delimiter::None => { self.out.push_str(" ("); self.tokens(g.stream()); self.out.push(')'); }
                    d => {
                        let (a, b) = if d == Delimiter::Parenthesis { ('(', ')') } else { ('[', ']') };
                        self.out.push(a);
                        self.tokens(g.stream());
                        self.out.push(b);
                        space = true;
                    }
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == ';' { self.out.push(';'); self.nl(); space = false; }
                    else if p.spacing() == proc_macro2::Spacing::Joint { if space { self.out.push(' '); } self.out.push(c); space = false; }
                    else {
                        let tight = c == '.' || c == ',' || c == ':' || c == '?';
                        let prev_joint = i > 0 && matches!(&v[i - 1], TokenTree::Punct(q) if q.spacing() == proc_macro2::Spacing::Joint);
                        if space && !tight && !prev_joint { self.out.push(' '); }
                        self.out.push(c);
                        space = !(c == '.' || c == '&' || c == '!' || c == '*' && false);
                        if c == ':' && prev_joint { space = false; }
                    }
                }
                t => {
                    if space || self.out.ends_with(|c: char| c.is_alphanumeric() || c == '_') { self.out.push(' '); }
                    self.out.push_str(&t.to_string());
                    space = true;
                }
            }
            i += 1;
        }
    }
}
