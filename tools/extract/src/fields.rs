// A field that is called differently than the contracts call it, at the same place among the others, gets its old name back.
use crate::contracts::Names;
use crate::model::{FnItem, Model};
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Of = BTreeMap<String, BTreeMap<String, String>>;
struct Ren<'a> { of: &'a Of, this: String, anywhere: &'a BTreeMap<String, String> }
impl<'a> Ren<'a> {
    fn name(&self, p: &Path, n: &str) -> Option<String> {
        let t = p.segments.last()?.ident.to_string();
        let t = if t == "Self" { self.this.clone() } else { t };
        self.of.get(&t)?.get(n).cloned()
    }
}
impl<'a> VisitMut for Ren<'a> {
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        visit_mut::visit_expr_field_mut(self, f);
        let Member::Named(n) = &f.member else { return };
        let n = n.to_string();
        let own = matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self"));
        let o = if own { self.of.get(&self.this).and_then(|m| m.get(&n)) } else { None }.or(self.anywhere.get(&n));
        if let Some(o) = o { f.member = Member::Named(format_ident!("{}", o)); }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, s);
        for f in s.fields.iter_mut() {
            if let Member::Named(n) = &f.member {
                if let Some(o) = self.name(&s.path, &n.to_string()) { f.colon_token = Some(Default::default()); f.member = Member::Named(format_ident!("{}", o)); }
            }
        }
    }
    fn visit_pat_struct_mut(&mut self, s: &mut PatStruct) {
        visit_mut::visit_pat_struct_mut(self, s);
        for f in s.fields.iter_mut() {
            if let Member::Named(n) = &f.member {
                if let Some(o) = self.name(&s.path, &n.to_string()) { f.colon_token = Some(Default::default()); f.member = Member::Named(format_ident!("{}", o)); }
            }
        }
    }
    // the tokens of a macro call that was not expanded yet
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut out = proc_macro2::TokenStream::new();
        self.tokens(m.tokens.clone(), &mut out);
        m.tokens = out;
    }
}
impl<'a> Ren<'a> {
    fn tokens(&self, ts: proc_macro2::TokenStream, out: &mut proc_macro2::TokenStream) {
        use proc_macro2::TokenTree::*;
        let v: Vec<_> = ts.into_iter().collect();
        for (k, t) in v.iter().enumerate() {
            match t {
                Group(g) => {
                    let mut o = proc_macro2::TokenStream::new();
                    self.tokens(g.stream(), &mut o);
                    let mut n = proc_macro2::Group::new(g.delimiter(), o);
                    n.set_span(g.span());
                    out.extend([Group(n)]);
                }
                Ident(i) if k >= 2 && matches!(&v[k - 1], Punct(p) if p.as_char() == '.') && !matches!(v.get(k + 1), Some(Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) => {
                    let n = i.to_string();
                    let own = matches!(&v[k - 2], Ident(s) if s == "self") && !(k >= 3 && matches!(&v[k - 3], Punct(p) if p.as_char() == '.'));
                    let o = if own { self.of.get(&self.this).and_then(|m| m.get(&n)) } else { None }.or(self.anywhere.get(&n));
                    match o { Some(o) => out.extend([Ident(proc_macro2::Ident::new(o, i.span()))]), None => out.extend([t.clone()]) }
                }
                _ => out.extend([t.clone()]),
            }
        }
    }
}
fn names(s: &ItemStruct) -> Vec<String> { s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect() }
pub fn all(m: &Model) -> Vec<(String, Names)> { m.structs.iter().map(|(t, (_, s))| (format!("struct {}", t), names(s).into_iter().map(|n| ('s', n)).collect())).collect() }

pub fn run(m: &mut Model, base: &BTreeMap<String, Names>) {
    let mut of: Of = BTreeMap::new();
    for (t, (_, s)) in &m.structs {
        let Some(b) = base.get(&format!("struct {}", t)) else { continue };
        let b: Vec<String> = b.iter().map(|x| x.1.clone()).collect();
        let c = names(s);
        let gone: Vec<&String> = b.iter().filter(|n| !c.contains(n)).collect();
        let new: Vec<&String> = c.iter().filter(|n| !b.contains(n)).collect();
        if b.len() != c.len() || gone.is_empty() { continue; }
        of.insert(t.clone(), new.iter().zip(&gone).map(|(n, o)| ((*n).clone(), (*o).clone())).collect());
    }
    if of.is_empty() { return; }
    // a new name that means the same old one wherever a struct has it
    let mut anywhere: BTreeMap<String, String> = BTreeMap::new();
    let mut bad: BTreeSet<String> = ["re", "im"].iter().map(|s| s.to_string()).collect();
    for r in of.values() { for (n, o) in r { if anywhere.insert(n.clone(), o.clone()).map(|x| x != *o).unwrap_or(false) { bad.insert(n.clone()); } } }
    for (t, (_, s)) in &m.structs { for n in names(s) { if of.get(t).map(|r| !r.contains_key(&n)).unwrap_or(true) { bad.insert(n); } } }
    anywhere.retain(|n, _| !bad.contains(n));
    for (t, r) in &of {
        for f in m.structs.get_mut(t).unwrap().1.fields.iter_mut() {
            if let Some(o) = f.ident.as_ref().and_then(|i| r.get(&i.to_string())) { f.ident = Some(format_ident!("{}", o)); }
        }
    }
    let go = |this: &str, f: &mut FnItem| { if let Some(b) = &mut f.block { Ren { of: &of, this: this.to_string(), anywhere: &anywhere }.visit_block_mut(b); } };
    for (t, v) in m.inherent.iter_mut() { for (_, f) in v.iter_mut() { go(t, f); } }
    for (t, x) in m.trait_impls.iter_mut() { for v in x.values_mut() { for (_, f) in v.iter_mut() { go(t, f); } } }
    for (_, _, f) in m.free.iter_mut() { go("", f); }
    for (_, _, f) in m.blanket_fns.iter_mut() { go("", f); }
}
