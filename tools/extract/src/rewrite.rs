// Pass C: the generic element type becomes the verifier's exact real type, paths are flattened,
// unchecked accesses become checked ones, panics become contract-guarded panics.
use crate::model::Model;
use proc_macro2::{Ident, Span};
use quote::{format_ident, quote};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rewriter<'a> {
    pub model: &'a Model,
    pub guards: BTreeSet<String>,
    pub panics: String,
    pub errors: Vec<String>,
    pub blanket_self: bool,
    pub this: String,
}
const STD_GENERIC: [&str; 8] = ["Box", "Vec", "Arc", "HashMap", "Option", "PhantomData", "Rc", "Result"];

fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), _ => e } }
fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

impl<'a> Rewriter<'a> {
    fn type_path(&mut self, p: &mut Path) {
        // keep only the last segment (of a type), with the mapped name
        if p.segments.len() >= 2 && p.segments[p.segments.len() - 2].ident == "T" { self.errors.push("associated type of T".into()); }
        let mut last = p.segments.last().unwrap().clone();
        let name = last.ident.to_string();
        match name.as_str() {
            "T" => { last.ident = ident("R"); last.arguments = PathArguments::None; }
            "Self" if self.blanket_self => { last.ident = ident("R"); }
            "f64" => { last.ident = ident("F64"); }
            "f32" => { self.errors.push("f32 arithmetic".into()); }
            "Complex" => {
                let f = match &last.arguments { PathArguments::AngleBracketed(a) => quote!(#a).to_string().contains("f64"), _ => false };
                last.ident = ident(if f { "Cx64" } else { "Cx" });
                last.arguments = PathArguments::None;
            }
            "Complex64" => { last.ident = ident("Cx64"); }
            _ => {
                if STD_GENERIC.contains(&name.as_str()) || matches!(last.arguments, PathArguments::Parenthesized(_)) {
                    visit_mut::visit_path_arguments_mut(self, &mut last.arguments);
                } else {
                    last.arguments = PathArguments::None;
                }
            }
        }
        p.leading_colon = None;
        p.segments = std::iter::once(last).collect();
    }
    fn panic_cond(&self) -> proc_macro2::TokenStream { if self.panics.trim().is_empty() { quote!(false) } else { self.panics.parse().expect("@panics does not lex") } }
    fn panic_expr(&self, cond: Option<&Expr>) -> Expr {
        let p = self.panic_cond();
        match cond {
            Some(c) => parse_quote!(if !(#c) { vpanic(__ghost!(#p)); }),
            None => parse_quote!(vpanic_any(__ghost!(#p))),
        }
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args: Option<Vec<Expr>> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect());
        match name.as_str() {
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = args?;
                let x = a.first()?;
                let c: Expr = if name.ends_with("assert") { parse_quote!(#x) } else {
                    let y = a.get(1)?;
                    if name.ends_with("eq") { parse_quote!(#x == #y) } else { parse_quote!(#x != #y) }
                };
                if name.starts_with("debug") {
                    // may be compiled out: it must hold (or the contract allow a panic), and nothing may rely on it
                    let p = self.panic_cond();
                    return Some(parse_quote!(vdebug(#c, __ghost!(#p))));
                }
                Some(self.panic_expr(Some(&c)))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(self.panic_expr(None)),
            "vec" => {
                if let Ok(r) = parse2::<ExprRepeat>({ let t = &m.tokens; quote!([#t]) }) {
                    let (x, n) = (&r.expr, &r.len);
                    return Some(parse_quote!(vec_from_elem(#x, #n)));
                }
                let a = args?;
                if a.is_empty() { return Some(parse_quote!(Vec::new())); }
                let mut st: Vec<Stmt> = vec![parse_quote!(let mut vec__0 = Vec::new();)];
                for x in a { st.push(parse_quote!(vec__0.push(#x);)); }
                Some(parse_quote!({ #(#st)* vec__0 }))
            }
            "println" | "print" | "eprintln" | "eprint" => Some(parse_quote!({})),
            "__ghost" => None,
            _ => { self.errors.push(format!("macro {}! is not handled", name)); None }
        }
    }
    fn float_lit(&mut self, l: &LitFloat) -> Expr { self.dec(l.base10_digits(), l.suffix()) }
    fn dec(&mut self, digits: &str, suffix: &str) -> Expr {
        if suffix == "f32" { self.errors.push("f32 literal".into()); }
        let d = digits.replace('_', "");
        let (mant, exp) = match d.find(|c| c == 'e' || c == 'E') { Some(p) => (d[..p].to_string(), d[p + 1..].parse::<i32>().unwrap_or(0)), None => (d.clone(), 0) };
        let (int, frac) = match mant.find('.') { Some(p) => (mant[..p].to_string(), mant[p + 1..].trim_end_matches('0').to_string()), None => (mant, String::new()) };
        let mut e = exp - frac.len() as i32;
        let mut num = format!("{}{}", int, frac).trim_start_matches('0').to_string();
        if num.is_empty() { num = "0".into(); }
        let mut den = String::from("1");
        while e > 0 { num.push('0'); e -= 1; }
        while e < 0 { den.push('0'); e += 1; }
        match (num.parse::<u64>(), den.parse::<u64>()) {
            (Ok(n), Ok(m)) => {
                let n = LitInt::new(&format!("{}u64", n), Span::call_site());
                let m = LitInt::new(&format!("{}u64", m), Span::call_site());
                parse_quote!(F64::lit(#n, #m))
            }
            _ => { self.errors.push(format!("float literal {} is too long", digits)); parse_quote!(F64::lit(0u64, 1u64)) }
        }
    }
}
fn is_unchecked(e: &Expr) -> Option<(Expr, Expr, bool)> {
    if let Expr::MethodCall(m) = unparen(e) {
        if m.method == "get_unchecked" && m.args.len() == 1 { return Some(((*m.receiver).clone(), m.args[0].clone(), false)); }
        if m.method == "get_unchecked_mut" && m.args.len() == 1 { return Some(((*m.receiver).clone(), m.args[0].clone(), true)); }
    }
    None
}
fn int_lit(e: &Expr) -> Option<u64> { match unparen(e) { Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix().is_empty() || i.suffix() == "usize" || i.suffix() == "u32" => i.base10_parse().ok(), _ => None } }
impl<'a> VisitMut for Rewriter<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Path(p) if p.qself.is_none() => self.type_path(&mut p.path),
            Type::TraitObject(o) => {
                let mut keep: punctuated::Punctuated<TypeParamBound, Token![+]> = Default::default();
                for b in o.bounds.iter() {
                    if let TypeParamBound::Trait(tb) = b {
                        let n = tb.path.segments.last().unwrap().ident.to_string();
                        if n == "Send" || n == "Sync" { continue; }
                        let mut tb = tb.clone();
                        self.type_path(&mut tb.path);
                        keep.push(TypeParamBound::Trait(tb));
                    }
                }
                o.bounds = keep;
            }
            _ => visit_mut::visit_type_mut(self, t),
        }
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) { self.type_path(&mut b.path); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // strip unsafe
        if let Expr::Unsafe(u) = e {
            let b = u.block.clone();
            *e = if b.stmts.len() == 1 && matches!(b.stmts[0], Stmt::Expr(_, None)) {
                match &b.stmts[0] { Stmt::Expr(x, None) if !matches!(x, Expr::Assign(_)) => parse_quote!((#x)), _ => parse_quote!(#b) }
            } else { parse_quote!(#b) };
        }
        // unchecked accesses
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Some((r, i, _)) = is_unchecked(&u.expr) { *e = parse_quote!(#r[#i]); }
            }
        }
        if let Some((r, i, m)) = is_unchecked(e) {
            *e = if m { parse_quote!((&mut #r[#i])) } else { parse_quote!((&#r[#i])) };
        }
        // a map is indexed by a reference
        if let Expr::Index(ix) = e {
            if let Expr::Reference(r) = unparen(&ix.index) {
                if !matches!(unparen(&r.expr), Expr::Range(_)) { let (x, k) = (&ix.expr, &ix.index); *e = parse_quote!((*#x.get(#k).unwrap())); }
            }
        }
        // map and cloned of what a lookup returned
        if let Expr::MethodCall(m) = e {
            let looked = matches!(unparen(&m.receiver), Expr::MethodCall(r) if r.method == "get" || r.method == "get_mut");
            if looked && m.method == "cloned" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse_quote!(match #r { Some(x__o) => Some(x__o.clone()), None => None });
            } else if looked && m.method == "map" && m.args.len() == 1 {
                let r = &m.receiver;
                let x: Option<Expr> = match unparen(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None })) }
                    Expr::Path(p) => Some(parse_quote!(match #r { Some(x__o) => Some(#p(x__o)), None => None })),
                    _ => None,
                };
                if let Some(x) = x { *e = x; }
            }
        }
        // whole-slice borrows
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = unparen(&r.expr) {
                if let Expr::Range(rg) = unparen(&ix.index) {
                    if rg.start.is_none() && rg.end.is_none() {
                        let x = &ix.expr;
                        *e = if r.mutability.is_some() { parse_quote!(&mut *#x) } else { parse_quote!(&*#x) };
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("__ghost") { return; }
            if let Some(x) = self.mac(&m.mac.clone()) { *e = x; }
        }
        // literals
        if let Expr::Lit(l) = e {
            match &l.lit {
                Lit::Float(f) => { let f = f.clone(); *e = self.float_lit(&f); return; }
                Lit::Int(i) if i.suffix() == "f64" || i.suffix() == "f32" => { let (d, s) = (i.base10_digits().to_string(), i.suffix().to_string()); *e = self.dec(&d, &s); return; }
                _ => {}
            }
        }
        if let Expr::Cast(c) = e {
            if let Type::Path(p) = &*c.ty {
                if p.path.is_ident("f64") {
                    let mut x = (*c.expr).clone();
                    self.visit_expr_mut(&mut x);
                    *e = parse_quote!(F64::from_usize(#x));
                    return;
                }
            }
        }
        // bit operations on usize with literals are quotients, remainders and multiples of powers of two
        if let Expr::Binary(b) = e {
            let (x, n) = (&b.left, int_lit(&b.right));
            let f = match (&b.op, n) {
                (BinOp::BitAnd(_), Some(n)) if n != u64::MAX && (n + 1).is_power_of_two() => Some(("usize_low", n + 1)),
                (BinOp::Shr(_), Some(n)) if n < 63 => Some(("usize_shr", 1u64 << n)),
                (BinOp::Shl(_), Some(n)) if n < 63 => Some(("usize_shl", 1u64 << n)),
                _ => None,
            };
            if let Some((f, k)) = f {
                let (f, k) = (ident(f), LitInt::new(&k.to_string(), Span::call_site()));
                *e = parse_quote!(#f(#x, #k));
            } else if let (BinOp::ShrAssign(_) | BinOp::ShlAssign(_), Some(n)) = (&b.op, n) {
                if n < 63 {
                    let (f, k) = (ident(if matches!(b.op, BinOp::ShrAssign(_)) { "usize_shr" } else { "usize_shl" }), LitInt::new(&(1u64 << n).to_string(), Span::call_site()));
                    *e = parse_quote!(#x = #f(#x, #k));
                }
            }
        }
        // usize min / max
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if c.args.len() == 2 && n.len() >= 2 && n[n.len() - 2] == "cmp" && (n[n.len() - 1] == "min" || n[n.len() - 1] == "max") {
                    let f = format_ident!("usize_{}", n[n.len() - 1]);
                    let (a, b) = (&c.args[0], &c.args[1]);
                    *e = parse_quote!(#f(#a, #b));
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.args.len() == 1 && (m.method == "max" || m.method == "min") {
                let f = format_ident!("usize_{}", m.method);
                let (a, b) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(#f(#a, #b));
            }
        }
        if let Expr::Struct(s) = e { self.type_path(&mut s.path); }
        if let Expr::Path(p) = e {
            let n = p.path.segments.len();
            if n >= 2 {
                let o = p.path.segments[n - 2].ident.to_string();
                let o = if o == "Self" { self.this.clone() } else { o };
                if let Some(x) = self.model.assoc.get(&(o.clone(), p.path.segments[n - 1].ident.to_string())) {
                    let (mut x, t) = (x.clone(), std::mem::replace(&mut self.this, o));
                    self.visit_expr_mut(&mut x);
                    self.this = t;
                    *e = parse_quote!((#x));
                    return;
                }
            }
            if p.qself.is_some() { self.errors.push("qualified path".into()); }
            self.expr_path(&mut p.path);
            let n = p.path.segments.len();
            if n == 2 && p.path.segments[0].ident == "consts__" {
                let c = &p.path.segments[1].ident;
                *e = parse_quote!(F64::#c());
            }
            return;
        }
        // guarded indexing
        if let Expr::Index(ix) = e {
            if let Expr::Path(p) = unparen(&ix.expr) {
                if let Some(id) = p.path.get_ident() {
                    if self.guards.contains(&id.to_string()) && !matches!(unparen(&ix.index), Expr::Range(_)) {
                        let mut i = (*ix.index).clone();
                        self.visit_expr_mut(&mut i);
                        let pc: proc_macro2::TokenStream = self.panics.parse().unwrap();
                        let id = id.clone();
                        *e = parse_quote!(#id[guard_idx(#i, #id.len(), __ghost!(#pc))]);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("__ghost") { return; }
            if let Some(x) = self.mac(&m.mac.clone()) { *s = Stmt::Expr(x, Some(Default::default())); }
        }
        if let Stmt::Item(_) = s { self.errors.push("nested item".into()); }
        if let Stmt::Local(l) = s { l.attrs.clear(); }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        match p {
            Pat::Path(x) => self.expr_path(&mut x.path),
            Pat::TupleStruct(x) => self.expr_path(&mut x.path),
            Pat::Struct(x) => self.type_path(&mut x.path),
            _ => {}
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
impl<'a> Rewriter<'a> {
    fn expr_path(&mut self, p: &mut Path) {
        let n = p.segments.len();
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if n >= 2 && names[n - 2] == "consts" {
            let c = p.segments[n - 1].ident.clone();
            *p = parse_quote!(consts__::#c);
            return;
        }
        p.leading_colon = None;
        if n == 1 {
            if let PathArguments::AngleBracketed(_) = p.segments[0].arguments { p.segments[0].arguments = PathArguments::None; }
            return;
        }
        let owner = &names[n - 2];
        let lower = owner.chars().next().unwrap().is_lowercase();
        if lower && owner != "f64" && owner != "usize" {
            // module path to a function or constant
            let mut last = p.segments[n - 1].clone();
            last.arguments = PathArguments::None;
            p.segments = std::iter::once(last).collect();
            return;
        }
        let mut last = p.segments[n - 1].clone();
        last.arguments = PathArguments::None;
        let mut ow = p.segments[n - 2].clone();
        match owner.as_str() {
            "T" => { ow.ident = ident("R"); ow.arguments = PathArguments::None }
            "Self" if self.blanket_self => { ow.ident = ident("R"); }
            "f64" => { ow.ident = ident("F64"); }
            "Complex" => { ow.ident = ident(if last.ident == "from_polar" { "Cx64" } else { "Cx" }); ow.arguments = PathArguments::None }
            "Complex64" => { ow.ident = ident("Cx64"); }
            "Box" | "Vec" | "Arc" | "HashMap" | "Option" => { visit_mut::visit_path_arguments_mut(self, &mut ow.arguments); }
            _ => { ow.arguments = PathArguments::None; }
        }
        p.segments = [ow, last].into_iter().collect();
    }
}

// `let p = x.as_mut_ptr() as *mut Complex<T>; from_raw_parts_mut(p, n)` is a view of the cells of x as n complex numbers;
// any other use of the pointer stays in the text, which the verifier then rejects
fn raw_view(e: &Expr) -> Option<(Expr, bool)> {
    if let Expr::Cast(c) = unparen(e) {
        if let Type::Ptr(p) = &*c.ty {
            let t = { let y = &p.elem; quote!(#y).to_string() };
            if !t.replace(' ', "").starts_with("Complex<") && t != "_" { return None; }
            if let Expr::MethodCall(m) = unparen(&c.expr) {
                let mu = p.mutability.is_some();
                if m.args.is_empty() && m.method == (if mu { "as_mut_ptr" } else { "as_ptr" }) && matches!(unparen(&m.receiver), Expr::Path(_)) { return Some(((*m.receiver).clone(), mu)); }
            }
        }
    }
    None
}
pub struct RawViews { of: std::collections::BTreeMap<String, (Expr, bool)> }
impl RawViews {
    pub fn new() -> Self { RawViews { of: Default::default() } }
}
impl VisitMut for RawViews {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    if let (Some(v), None) = (raw_view(&i.expr), &p.subpat) { self.of.insert(p.ident.to_string(), v); continue; }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if (n == "from_raw_parts_mut" || n == "from_raw_parts") && c.args.len() == 2 {
                    let v = raw_view(&c.args[0]).or_else(|| match unparen(&c.args[0]) { Expr::Path(q) => q.path.get_ident().and_then(|i| self.of.get(&i.to_string()).cloned()), _ => None });
                    if let Some((x, mu)) = v {
                        if mu == (n == "from_raw_parts_mut") {
                            let k = &c.args[1];
                            let f = ident(if mu { "complex_view_mut" } else { "complex_view" });
                            *e = parse_quote!(#f(#x, #k));
                        }
                    }
                }
            }
        }
    }
}

// a vector created empty and returned, or stored in a field, has the type written there
pub struct VecTypes { pub of: std::collections::BTreeMap<String, Type>, pub fields: std::collections::BTreeMap<(String, String), Type>, pub this: String }
struct VecUses<'a> { v: &'a mut VecTypes }
impl<'a, 'ast> syn::visit::Visit<'ast> for VecUses<'a> {
    fn visit_expr_struct(&mut self, s: &'ast ExprStruct) {
        syn::visit::visit_expr_struct(self, s);
        let t = s.path.segments.last().unwrap().ident.to_string();
        let t = if t == "Self" { self.v.this.clone() } else { t };
        for f in &s.fields {
            let x = match unparen(&f.expr) {
                Expr::Path(p) => p.path.get_ident(),
                Expr::MethodCall(m) if m.method == "into_boxed_slice" || m.method == "into" => match unparen(&m.receiver) { Expr::Path(p) => p.path.get_ident(), _ => None },
                _ => None,
            };
            if let (Some(x), Member::Named(n)) = (x, &f.member) {
                if let Some(ty) = self.v.fields.get(&(t.clone(), n.to_string())) {
                    let s = quote!(#ty).to_string().replace(' ', "");
                    let v: Option<Type> = if s.starts_with("Vec<") { Some(ty.clone()) } else if let Some(e) = s.strip_prefix("Box<[").and_then(|r| r.strip_suffix("]>")) { parse_str(&format!("Vec<{}>", e)).ok() } else { None };
                    if let Some(v) = v { self.v.of.entry(x.to_string()).or_insert(v); }
                }
            }
        }
    }
}
impl VecTypes {
    pub fn scan(&mut self, b: &Block) { use syn::visit::Visit; VecUses { v: self }.visit_block(b); }
}
impl VisitMut for VecTypes {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if let Expr::Call(c) = &*i.expr {
                if let Expr::Path(f) = &*c.func {
                    let s = { let q = &f.path; quote!(#q).to_string().replace(' ', "") };
                    if s == "Vec::new" || s == "Vec::with_capacity" {
                        if let (false, Some(t)) = (p.ident.to_string().starts_with("vec__"), self.of.get(&p.ident.to_string())) {
                            l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(l.pat.clone()), colon_token: Default::default(), ty: Box::new(t.clone()) });
                        }
                    }
                }
            }
        }
    }
}
