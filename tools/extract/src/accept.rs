// Pass E: a call of a function that may panic (contract section @panics) carries the obligation that this call is
// accepted, unless the caller is itself entitled to panic.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Callee { pub params: Vec<(String, Option<Type>)>, pub cond: TokenStream, pub cost: TokenStream }
pub struct Accept<'a> { pub callees: &'a BTreeMap<String, Callee>, pub owner: String, pub may_panic: bool }

fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), _ => e } }
fn place(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && place(&u.expr),
        Expr::Reference(r) => place(&r.expr),
        Expr::Lit(_) => true,
        _ => false,
    }
}
// how a place is written in ghost code: without the borrow
fn ghost(e: &Expr) -> TokenStream {
    match unparen(e) {
        Expr::Reference(r) => ghost(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => ghost(&u.expr),
        x => x.to_token_stream(),
    }
}
pub fn subst(t: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut field = false;
    for x in t {
        let was = field;
        field = false;
        match x {
            TokenTree::Ident(i) if !was && m.contains_key(&i.to_string()) => out.extend(m[&i.to_string()].clone()),
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), subst(g.stream(), m)); n.set_span(g.span()); out.extend(std::iter::once(TokenTree::Group(n))); }
            TokenTree::Punct(p) => { field = p.as_char() == '.'; out.extend(std::iter::once(TokenTree::Punct(p))); }
            o => out.extend(std::iter::once(o)),
        }
    }
    out
}
impl<'a> Accept<'a> {
    fn wrap(&self, c: &Callee, recv: Option<&mut Expr>, args: &mut punctuated::Punctuated<Expr, Token![,]>) -> Option<(Vec<Stmt>, TokenStream, TokenStream)> {
        let mut lets: Vec<Stmt> = vec![];
        let mut m = BTreeMap::new();
        if let Some(r) = recv {
            if !place(r) { lets.push(parse_quote!(let recv__ = &#r;)); *r = parse_quote!(recv__); }
            m.insert("self".to_string(), ghost(r));
        }
        if args.len() != c.params.len() { return None; }
        for (k, (a, (n, ty))) in args.iter_mut().zip(c.params.iter()).enumerate() {
            if !place(a) {
                let id = format_ident!("arg__{}", k);
                lets.push(match ty { Some(t) => parse_quote!(let #id: #t = #a;), None => parse_quote!(let #id = #a;) });
                *a = parse_quote!(#id);
            }
            let g = ghost(a);
            m.insert(n.clone(), g);
        }
        Some((lets, subst(c.cond.clone(), &m), subst(c.cost.clone(), &m)))
    }
    fn finish(&self, lets: Vec<Stmt>, cond: TokenStream, cost: TokenStream, call: Expr) -> Expr {
        let or: TokenStream = if self.may_panic { quote!(|| pc__) } else { quote!() };
        let acc: Option<Stmt> = if cond.is_empty() { None } else { Some(parse_quote!(__accept!(!(#cond) #or);)) };
        let chg: Option<Stmt> = if cost.is_empty() { None } else { Some(parse_quote!(__charge!(#cost);)) };
        parse_quote!({ #(#lets)* #acc #chg #call })
    }
}
impl<'a> VisitMut for Accept<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let k = format!(".{}", m.method);
                if let Some(c) = self.callees.get(&k) {
                    let mut m2 = m.clone();
                    if let Some((l, cond, cost)) = self.wrap(c, Some(&mut m2.receiver), &mut m2.args) { *e = self.finish(l, cond, cost, Expr::MethodCall(m2)); }
                }
            }
            Expr::Call(m) => {
                if let Expr::Path(p) = &*m.func {
                    let mut s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s[0] == "Self" { s[0] = self.owner.clone(); }
                    if let Some(c) = self.callees.get(&s.join("::")) {
                        let mut m2 = m.clone();
                        if let Some((l, cond, cost)) = self.wrap(c, None, &mut m2.args) { *e = self.finish(l, cond, cost, Expr::Call(m2)); }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}
