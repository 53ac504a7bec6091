// Builds the verified text: one module per source module, contracts attached to the extracted functions.
use crate::accept::{Accept, Callee};
use crate::contracts::{Contracts, FnContract};
use crate::desugar::{Desugar, MacroExpander};
use crate::hooks::{Hooker, Printer};
use crate::model::{FnItem, Model};
use crate::rewrite::Rewriter;
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct FnReport { pub key: String, pub module: String, pub start: usize, pub end: usize, pub status: String, pub reason: String, pub calls: Vec<String>, pub loops: usize, pub contracted: bool, pub kind: String }
pub struct Emitter<'a> {
    pub model: &'a Model,
    pub contracts: &'a Contracts,
    pub lost: BTreeSet<String>,
    pub out: String,
    pub report: Vec<FnReport>,
    pub notes: Vec<String>,
    pub callees: BTreeMap<String, Callee>,
    pub cost: bool,
    pub costed: BTreeSet<String>,
    pub auto: crate::cost::Auto,
    pub names: BTreeMap<String, crate::contracts::Names>,
    pub seen: Vec<(String, crate::contracts::Names)>,
    pub specfns: BTreeSet<String>,
}
struct Calls { names: BTreeSet<String> }
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { visit::visit_expr_method_call(self, m); self.names.insert(format!(".{}", m.method)); }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { self.names.insert(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")); }
    }
}
fn drop_generics(g: &Generics) -> Generics {
    // only parameters that are not the element type stay
    let mut o = Generics::default();
    for p in g.params.iter() {
        if let GenericParam::Type(t) = p {
            if t.ident == "T" { continue; }
            let isnum = t.bounds.iter().any(|b| b.to_token_stream().to_string().contains("DctNum"));
            if isnum { continue; }
        }
        o.params.push(p.clone());
    }
    if !o.params.is_empty() { o.lt_token = Some(Default::default()); o.gt_token = Some(Default::default()); }
    if let Some(w) = &g.where_clause {
        let mut n: WhereClause = parse_quote!(where);
        for p in w.predicates.iter() {
            if let WherePredicate::Type(t) = p {
                let s = t.bounded_ty.to_token_stream().to_string();
                if s == "T" || t.bounds.to_token_stream().to_string().contains("DctNum") { continue; }
            }
            n.predicates.push(p.clone());
        }
        if !n.predicates.is_empty() { o.where_clause = Some(n); }
    }
    o
}
impl<'a> Emitter<'a> {
    pub fn line(&self) -> usize { self.out.bytes().filter(|&b| b == b'\n').count() + 1 }
    fn ty(&self, t: &Type) -> String {
        let mut t = t.clone();
        let mut rw = Rewriter { model: self.model, guards: BTreeSet::new(), panics: String::new(), errors: vec![], blanket_self: false, this: String::new() };
        rw.visit_type_mut(&mut t);
        t.to_token_stream().to_string()
    }
    // vis: "pub " or "" (trait items); key of this function; contract used for requires/ensures
    fn function(&mut self, key: &str, f: &FnItem, name: &str, vis: &str, spec: Option<&FnContract>, own: Option<&FnContract>, kind: &str, blanket: bool) {
        let empty = FnContract::default();
        // a trait method may panic when the trait's contract says so
        let with_panics = match (own, spec) { (Some(o), Some(s)) if o.panics.trim().is_empty() && !s.panics.trim().is_empty() => { let mut o = o.clone(); o.panics = self.renamed(name, f, &s.panics); Some(o) } _ => None };
        let mut body_c = with_panics.as_ref().unwrap_or(own.unwrap_or(spec.unwrap_or(&empty)));
        let (renamed_c, renamed_spec, renamed_own);
        let (mut spec, mut own) = (spec, own);
        let mut reasons: Vec<String> = Vec::new();
        let mut sig = f.sig.clone();
        let mut block = f.block.clone();
        let trusted = body_c.trusted;
        sig.unsafety = None;
        sig.constness = None;
        sig.generics = drop_generics(&sig.generics);
        let mut rw = Rewriter { model: self.model, guards: body_c.guards.iter().cloned().collect(), panics: if body_c.panics.trim().is_empty() { String::new() } else { "pc__".into() }, errors: vec![], blanket_self: blanket, this: key.split("::").next().unwrap_or("").to_string() };
        rw.visit_signature_mut(&mut sig);
        let mut nloops = 0;
        let mut text = String::new();
        let mut calls = Calls { names: BTreeSet::new() };
        if let Some(b) = &mut block {
            if !trusted {
                let mut me = MacroExpander { model: self.model, errors: vec![], depth: 0 };
                me.visit_block_mut(b);
                reasons.extend(me.errors);
                let mut d = Desugar::new();
                d.ret = match &sig.output { ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
                crate::rewrite::RawViews::new().visit_block_mut(b);
                d.block(b);
                reasons.extend(d.errors);
                rw.visit_block_mut(b);
                let fields: BTreeMap<(String, String), Type> = self.model.structs.iter().flat_map(|(t, (_, s))| s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| ((t.clone(), i.to_string()), f.ty.clone()))).collect::<Vec<_>>()).collect();
                let mut vt = crate::rewrite::VecTypes { of: BTreeMap::new(), fields, this: key.split("::").next().unwrap_or("").to_string() };
                if let (ReturnType::Type(_, t), Some(Stmt::Expr(Expr::Path(p), None))) = (&sig.output, b.stmts.last()) {
                    if let Some(id) = p.path.get_ident() { vt.of.insert(id.to_string(), (**t).clone()); }
                }
                vt.scan(b);
                for t in vt.of.values_mut() { rw.visit_type_mut(t); }
                vt.visit_block_mut(b);
                reasons.extend(std::mem::take(&mut rw.errors));
                calls.visit_block(b);
                let ret = match &sig.output { ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
                // parameters and locals that have another name than the contract was written with
                let mut nm = bound_names(&sig, b);
                // a local must not hide a function of the annotations
                let base = self.names.get(key);
                let clash: BTreeMap<String, String> = nm.iter().filter(|x| x.0 != 'p' && self.specfns.contains(&x.1) && !base.map(|b| b.iter().any(|y| y.1 == x.1)).unwrap_or(true)).map(|x| (x.1.clone(), format!("{}_v", x.1))).collect();
                if !clash.is_empty() { Locals { m: &clash }.visit_block_mut(b); for x in nm.iter_mut() { if let Some(n) = clash.get(&x.1) { x.1 = n.clone(); } } }
                if let Some(base) = base {
                    let m = crate::contracts::match_names(base, &nm);
                    if !m.is_empty() {
                        let mut c = body_c.clone();
                        c.rename(&m);
                        renamed_c = c;
                        body_c = &renamed_c;
                        if kind != "impl" && kind != "trait" { if let Some(x) = spec { let mut c = x.clone(); c.rename(&m); renamed_spec = c; spec = Some(&renamed_spec); } }
                        if let Some(x) = own { let mut c = x.clone(); c.rename(&m); renamed_own = c; own = Some(&renamed_own); }
                    }
                }
                self.seen.push((key.to_string(), nm));
                let mut h = Hooker::new(body_c);
                h.function(b, ret.as_ref());
                nloops = h.loops.len();
                if body_c.loops.len() != nloops { reasons.push(format!("loop structure changed: {} loops, the contract annotates {}", nloops, body_c.loops.len())); }
                for k in body_c.hooks.keys() { if !h.used.contains(k) { reasons.push(format!("lost anchor: {}", k)); } }
                let mut ac = Accept { callees: &self.callees, owner: key.split(|c| c == ':' || c == '.').next().unwrap_or("").to_string(), may_panic: !body_c.panics.trim().is_empty() };
                ac.visit_block_mut(b);
                let mut exit = String::new();
                let own_cost = own.map(|o| o.cost.trim()).filter(|t| !t.is_empty()).or(spec.map(|o| o.cost.trim())).unwrap_or("").to_string();
                let mut linfo = std::mem::take(&mut h.loops);
                if self.cost && !own_cost.is_empty() {
                    let bound = if kind == "impl" { self.renamed(name, f, &own_cost) } else { own_cost };
                    exit = format!("proof {{ assert(cost__ <= {}); }} //#cost", bound);
                    let mut cp = crate::cost::Cost::new(&self.costed, &self.auto, true);
                    cp.whiles = own.map(|o| o.costwhiles.clone()).unwrap_or_default();
                    cp.function(b, ret.as_ref());
                    for (n, l) in &cp.loops {
                        let i = format!("($i as int - {} as int)", l.lo);
                        if l.whilst { linfo[*n].cost = format!("cost__ <= c0__{} + {} * (({}) as int - w0__{}) //#cost", n, l.k, l.lo, n); }
                        else if l.flat { linfo[*n].cost = format!("cost__ == c0__{} + {} * {} //#cost", n, l.k, i); }
                        else if let Some(e) = own.and_then(|o| o.costloops.get(n)) {
                            linfo[*n].cost = format!("cost__ <= c0__{} + {} * ({}) //#cost", n, i, e);
                            linfo[*n].step = format!("proof {{ let (k__, e__) = ({}, {}); assert((k__ + 1) * e__ == k__ * e__ + e__) by(nonlinear_arith); }} //#cost", i, e);
                        } else { cp.errors.push("a loop with inner loops or calls and no stated bound of one round".into()); }
                    }
                    reasons.extend(std::mem::take(&mut cp.errors));
                }
                let mut p = Printer { c: body_c, loops: &linfo, out: String::new(), ind: 1, exit };
                if nloops >= body_c.loops.len() { p.tokens(quote!(#b)); text = p.out;
                    if !body_c.panics.trim().is_empty() { text = text.replacen('{', &format!("{{\n    let ghost pc__ = {};", body_c.panics.trim()), 1); } }
            }
        }
        let mut status = if trusted { "trusted" } else { "verified" };
        if self.lost.contains(key) { reasons.push("rejected by the verifier's front end".into()); }
        if !trusted && block.is_some() && !reasons.is_empty() { status = "lost"; }
        let start = self.line();
        self.out.push_str(&format!("//@F {}\n", key));
        if let Some(c) = own.or(spec) { if !c.attr.trim().is_empty() && status == "verified" { self.out.push_str(c.attr.trim()); self.out.push('\n'); } }
        if status != "verified" && block.is_some() { self.out.push_str("#[verifier::external_body]\n"); }
        else if block.is_some() && !body_c.attr.contains("loop_isolation") && nloops > 0 { self.out.push_str("#[verifier::loop_isolation(false)]\n"); }
        let g = &sig.generics;
        let (params, wh) = (g.params.to_token_stream(), g.where_clause.clone());
        let gp = if g.params.is_empty() { String::new() } else { format!("<{}>", params) };
        let inputs = sig.inputs.to_token_stream().to_string();
        let out = match &sig.output { ReturnType::Type(_, t) => format!(" -> (r: {})", t.to_token_stream()), _ => String::new() };
        self.out.push_str(&format!("{}fn {}{}({}){}", vis, name, gp, inputs, out));
        if let Some(w) = wh { self.out.push_str(&format!(" {}", w.to_token_stream())); }
        self.out.push('\n');
        let (mut req, mut ens, mut dec) = (String::new(), String::new(), String::new());
        if kind == "impl" {
            // a trait method: contract comes from the trait; its own extra postconditions are allowed
            if let Some(c) = own { ens = c.ensures.clone(); dec = c.decreases.clone(); }
        } else if let Some(c) = spec { req = c.requires.clone(); ens = c.ensures.clone(); dec = c.decreases.clone(); }
        if !req.trim().is_empty() { self.out.push_str(&format!("    requires\n{}\n", req.trim_end())); }
        if !ens.trim().is_empty() { self.out.push_str(&format!("    ensures\n{}\n", ens.trim_end())); }
        if !dec.trim().is_empty() && status == "verified" { self.out.push_str(&format!("    decreases {}\n", dec.trim())); }
        match (&block, status) {
            (None, _) => self.out.push_str(";\n"),
            (_, "verified") => { self.out.push_str(&text); self.out.push('\n'); }
            _ => self.out.push_str("{ unimplemented!() }\n"),
        }
        let end = self.line();
        self.out.push_str("//@E\n");
        let has = spec.map(|c| !c.ensures.trim().is_empty() || !c.requires.trim().is_empty()).unwrap_or(false) || own.is_some();
        self.report.push(FnReport {
            key: key.into(), module: f.module.clone(), start, end, status: status.into(), reason: reasons.join("; "),
            calls: calls.names.into_iter().collect(), loops: nloops, contracted: has, kind: kind.into(),
        });
    }
    fn supers(&self, t: &str, out: &mut Vec<String>) {
        if out.iter().any(|x| x == t) { return; }
        out.push(t.to_string());
        if let Some((_, it)) = self.model.traits.get(t) {
            for b in it.supertraits.iter() {
                if let TypeParamBound::Trait(tb) = b {
                    let n = tb.path.segments.last().unwrap().ident.to_string();
                    if n != "Sync" && n != "Send" { self.supers(&n, out); }
                }
            }
        }
    }
    /// does the source ask every implementor to be usable from several threads?
    fn shared(&self, t: &str) -> bool {
        let mut comps = Vec::new();
        self.supers(t, &mut comps);
        ["Send", "Sync"].iter().all(|w| comps.iter().any(|c| match self.model.traits.get(c) {
            Some((_, it)) => it.supertraits.iter().any(|b| matches!(b, TypeParamBound::Trait(tb) if tb.path.segments.last().unwrap().ident == w)),
            None => false,
        }))
    }
    fn dyn_traits(&self) -> BTreeSet<String> {
        struct D { s: BTreeSet<String> }
        impl<'ast> Visit<'ast> for D {
            fn visit_type_trait_object(&mut self, o: &'ast TypeTraitObject) {
                for b in o.bounds.iter() { if let TypeParamBound::Trait(t) = b { self.s.insert(t.path.segments.last().unwrap().ident.to_string()); } }
            }
        }
        let mut d = D { s: BTreeSet::new() };
        for (_, (_, s)) in &self.model.structs { d.visit_item_struct(s); }
        let visit_fn = |d: &mut D, f: &FnItem| { d.visit_signature(&f.sig); if let Some(b) = &f.block { d.visit_block(b); } };
        for (_, v) in &self.model.inherent { for (_, f) in v { visit_fn(&mut d, f); } }
        d.s.retain(|t| self.model.traits.contains_key(t));
        d.s
    }
    fn spec_of(&self, obj: &str, comp: &str, m: &str) -> Option<FnContract> {
        self.contracts.fns.get(&format!("{}::{}", obj, m)).or_else(|| self.contracts.fns.get(&format!("{}::{}", comp, m))).cloned()
    }
    // operators of the functions without loops, by name
    fn find_auto(&mut self) {
        let mut bodies: Vec<(String, Option<Block>, bool)> = vec![];
        let mut push = |key: String, f: &FnItem, c: &Contracts| {
            let name = key.rsplit("::").next().unwrap().to_string();
            let trusted = c.fns.get(&key).map(|c| c.trusted).unwrap_or(false);
            if let Some(b) = &f.block { bodies.push((name, Some(b.clone()), trusted)); }
        };
        for (t, v) in &self.model.inherent { for (n, f) in v { push(format!("{}::{}", t, n), f, self.contracts); } }
        for (t, m) in &self.model.trait_impls { for (_, v) in m { for (n, f) in v { push(format!("{}::{}", t, n), f, self.contracts); } } }
        for (_, n, f) in &self.model.blanket_fns { push(format!("DctNum::{}", n), f, self.contracts); }
        let own: BTreeSet<String> = self.model.blanket_fns.iter().map(|b| b.1.clone()).collect();
        for (m, n, f) in &self.model.free { push(format!("{}::{}", m, n), f, self.contracts); }
        for (_, b, _) in bodies.iter_mut() {
            let x = b.as_mut().unwrap();
            let mut me = MacroExpander { model: self.model, errors: vec![], depth: 0 };
            me.visit_block_mut(x);
            let mut d = Desugar::new();
            d.block(x);
            if !me.errors.is_empty() || !d.errors.is_empty() { *b = None; }
        }
        let mut auto: crate::cost::Auto = bodies.iter().map(|b| (b.0.clone(), None)).collect();
        for _ in 0..12 {
            let mut next: crate::cost::Auto = BTreeMap::new();
            for (n, b, trusted) in &bodies {
                let k = if *trusted { Some(1) } else { b.as_ref().and_then(|b| crate::cost::Cost::constant(&self.costed, &auto, b)) };
                let e = next.entry(n.clone()).or_insert(k);
                *e = match (*e, k) { (Some(a), Some(b)) => Some(a.max(b)), _ => None };
            }
            if next == auto { break; }
            auto = next;
        }
        for n in own { if let Some(k) = auto.get(&n).cloned() { auto.insert(format!("DctNum::{}", n), k); } }
        self.auto = auto;
    }
    // a panic condition of the trait in terms of the implementation's parameter names
    fn renamed(&self, name: &str, f: &FnItem, cond: &str) -> String {
        let c = match self.callees.get(&format!(".{}", name)) { Some(c) => c, None => return cond.to_string() };
        let own: Vec<String> = f.sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { Some(t.pat.to_token_stream().to_string().replace("mut ", "")) } else { None }).collect();
        if own.len() != c.params.len() || own.iter().zip(c.params.iter()).all(|(a, b)| *a == b.0) { return cond.to_string(); }
        let m: BTreeMap<String, proc_macro2::TokenStream> = c.params.iter().zip(own.iter()).filter_map(|((n, _), o)| o.parse().ok().map(|o| (n.clone(), o))).collect();
        crate::accept::subst(cond.parse().unwrap(), &m).to_string()
    }
    // functions whose contract lists a panic condition, with their parameters
    fn find_callees(&mut self) {
        let mut out: BTreeMap<String, Callee> = BTreeMap::new();
        for (k, c) in &self.contracts.fns {
            let costs = self.cost && !c.cost.trim().is_empty();
            if c.panics.trim().is_empty() && !costs { continue; }
            let (a, b) = match k.split_once("::") { Some(x) => x, None => continue };
            let mut sig: Option<Signature> = None;
            if let Some((_, it)) = self.model.traits.get(a) { for i in it.items.iter() { if let TraitItem::Fn(f) = i { if f.sig.ident == b { sig = Some(f.sig.clone()); } } } }
            if let Some(v) = self.model.inherent.get(a) { for (n, f) in v { if n == b { sig = Some(f.sig.clone()); } } }
            let mut free = false;
            for (m, n, f) in &self.model.free { if m == a && n == b { sig = Some(f.sig.clone()); free = true; } }
            let mut sig = match sig { Some(s) => s, None => continue };
            let gen: Vec<String> = drop_generics(&sig.generics).params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
            let mut rw = Rewriter { model: self.model, guards: BTreeSet::new(), panics: String::new(), errors: vec![], blanket_self: false, this: String::new() };
            rw.visit_signature_mut(&mut sig);
            let mut method = false;
            let mut params = vec![];
            for i in sig.inputs.iter() {
                match i {
                    FnArg::Receiver(_) => method = true,
                    FnArg::Typed(t) => {
                        let ts = t.ty.to_token_stream().to_string();
                        let ty = if gen.iter().any(|g| *g == ts) || ts.contains("impl ") { None } else { Some((*t.ty).clone()) };
                        params.push((t.pat.to_token_stream().to_string().replace("mut ", ""), ty));
                    }
                }
            }
            let key = if method { format!(".{}", b) } else if free { b.to_string() } else { k.clone() };
            let cond: proc_macro2::TokenStream = c.panics.parse().expect("@panics does not lex");
            if let Some(o) = out.get(&key) { if o.cond.to_string() != cond.to_string() { self.notes.push(format!("two panic conditions for {}", key)); } }
            let cost: proc_macro2::TokenStream = if costs { c.cost.parse().expect("@cost does not lex") } else { Default::default() };
            if costs { self.costed.insert(b.to_string()); }
            out.insert(key, Callee { params, cond, cost });
        }
        self.callees = out;
    }
    pub fn emit(&mut self, prelude: &[(String, String)]) {
        self.out.push_str("#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, dead_code, non_snake_case, unreachable_code, unused_unsafe, path_statements)]\n");
        self.out.push_str("use vstd::prelude::*;\n");
        self.out.push_str("verus! {\nglobal size_of usize == 8;\n");
        let mods: Vec<String> = { let mut v: Vec<String> = vec![]; for m in &self.model.modules { if !v.contains(m) { v.push(m.clone()); } } v };
        let all: Vec<String> = prelude.iter().map(|p| p.0.clone()).chain(mods.iter().map(|m| format!("m_{}", m))).collect();
        for m in &all { self.out.push_str(&format!("pub use {}::*;\n", m)); }
        for (n, t) in prelude {
            self.out.push_str(&format!("pub mod {} {{\nuse super::*; use vstd::prelude::*; use std::sync::Arc; use std::collections::HashMap; use std::marker::PhantomData;\n//@F {}\n{}\n//@E\n}}\n", n, n, t));
        }
        self.find_callees();
        if self.cost { self.find_auto(); }
        let dyns = self.dyn_traits();
        for m in &mods {
            self.out.push_str(&format!("pub mod m_{} {{\nuse super::*; use vstd::prelude::*; use std::sync::Arc; use std::collections::HashMap; use std::marker::PhantomData;\nbroadcast use vstd::std_specs::hash::group_hash_axioms;\n", m));
            if let Some(t) = self.contracts.items.get(m) {
                let s = format!("//@F items {}\n{}\n//@E\n", m, t);
                self.out.push_str(&s);
            }
            for (mm, c) in &self.model.consts {
                if mm != m { continue; }
                let mut c = c.clone();
                c.attrs.clear();
                let mut rw = Rewriter { model: self.model, guards: BTreeSet::new(), panics: String::new(), errors: vec![], blanket_self: false, this: String::new() };
                rw.visit_type_mut(&mut c.ty);
                rw.visit_expr_mut(&mut c.expr);
                let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                self.out.push_str(&format!("//@F const {}\npub const {}: {} = {};\n//@E\n", id, id, ty.to_token_stream(), ex.to_token_stream()));
            }
            // structs
            let structs: Vec<(String, ItemStruct)> = self.model.structs.iter().filter(|(_, (mm, _))| mm == m).map(|(n, (_, s))| (n.clone(), s.clone())).collect();
            for (n, s) in &structs {
                let g = drop_generics(&s.generics);
                let gs = if g.params.is_empty() { String::new() } else { format!("<{}>", g.params.to_token_stream()) };
                let mut fs = String::new();
                let mut tuple = false;
                for f in s.fields.iter() {
                    match &f.ident { Some(id) => fs.push_str(&format!("    pub {}: {},\n", id, self.ty(&f.ty))), None => { tuple = true; fs.push_str(&format!("pub {}, ", self.ty(&f.ty))) } }
                }
                let b = if tuple { format!("({});", fs) } else { format!("{{\n{}}}", fs) };
                self.out.push_str(&format!("//@F struct {}\npub struct {}{} {}\n//@E\n", n, n, gs, b));
                let fns = self.model.inherent.get(n).cloned().unwrap_or_default();
                if !fns.is_empty() {
                    self.out.push_str(&format!("impl{} {}{} {{\n", gs, n, gs));
                    for (name, f) in &fns {
                        let key = format!("{}::{}", n, name);
                        let c = self.contracts.fns.get(&key).cloned();
                        self.function(&key, f, name, "pub ", c.as_ref(), c.as_ref(), "fn", false);
                    }
                    self.out.push_str("}\n");
                }
            }
            // object traits
            for t in dyns.iter() {
                if self.model.traits[t].0 != *m { continue; }
                let mut comps = Vec::new();
                self.supers(t, &mut comps);
                self.out.push_str(&format!("//@F trait {}\npub trait {}{} {{\n{}\n//@E\n", t, t, if self.shared(t) { ": Send + Sync" } else { "" }, self.contracts.traits.get(t).cloned().unwrap_or_default()));
                let mut done = BTreeSet::new();
                for c in comps.iter().rev() {
                    let items: Vec<TraitItemFn> = if c == "Length" { vec![parse_quote!(fn len(&self) -> usize;)] }
                        else if let Some((_, it)) = self.model.traits.get(c) { it.items.iter().filter_map(|i| if let TraitItem::Fn(f) = i { Some(f.clone()) } else { None }).collect() } else { vec![] };
                    for f in items {
                        let name = f.sig.ident.to_string();
                        if !done.insert(name.clone()) { continue; }
                        let spec = self.spec_of(t, c, &name);
                        let fi = FnItem { sig: f.sig.clone(), block: f.default.clone(), module: m.clone(), impl_generics: Generics::default() };
                        self.function(&format!("{}.{}", t, name), &fi, &name, "", spec.as_ref(), spec.as_ref(), "trait", false);
                    }
                }
                self.out.push_str("}\n");
            }
            // trait implementations
            for (n, _) in &structs {
                let tis = match self.model.trait_impls.get(n) { Some(t) => t.clone(), None => continue };
                let gs = String::new();
                for t in dyns.iter() {
                    if !tis.contains_key(t) { continue; }
                    let mut comps = Vec::new();
                    self.supers(t, &mut comps);
                    let lost = self.lost.contains(&format!("type {}", n));
                    let text = self.contracts.types.get(n).cloned().unwrap_or_else(|| blank_trait(&self.contracts.traits.get(t).cloned().unwrap_or_default()));
                    let text = if lost { blank_specs(&text) } else { text };
                    self.out.push_str(&format!("impl{} {} for {} {{\n//@F type {}\n{}\n//@E\n", gs, t, n, n, text));
                    for c in comps.iter() {
                        for (name, f) in tis.get(c).cloned().unwrap_or_default() {
                            let key = format!("{}::{}", n, name);
                            let spec = self.spec_of(t, c, &name);
                            let own = self.contracts.fns.get(&key).cloned();
                            self.function(&key, &f, &name, "", spec.as_ref(), own.as_ref().or(Some(&FnContract::default())), "impl", false);
                        }
                    }
                    self.out.push_str("}\n");
                }
            }
            // blanket implementations of element-type helpers
            for (mm, name, f) in &self.model.blanket_fns {
                if mm != m { continue; }
                let key = format!("DctNum::{}", name);
                let c = self.contracts.fns.get(&key).cloned();
                self.out.push_str("impl R {\n");
                self.function(&key, f, name, "pub ", c.as_ref(), c.as_ref(), "fn", true);
                self.out.push_str("}\n");
            }
            for (mm, name, f) in &self.model.free {
                if mm != m { continue; }
                let key = format!("{}::{}", m, name);
                let c = self.contracts.fns.get(&key).cloned();
                self.function(&key, f, name, "pub ", c.as_ref(), c.as_ref(), "fn", false);
            }
            self.out.push_str("}\n");
        }
        self.out.push_str("} // verus!\nfn main() {}\n");
        // contracts that matched nothing
        let keys: BTreeSet<String> = self.report.iter().map(|r| r.key.clone()).collect();
        let mut used: BTreeMap<String, ()> = BTreeMap::new();
        for k in &keys { used.insert(k.clone(), ()); }
        for k in self.contracts.fns.keys() {
            let is_trait = self.model.traits.contains_key(k.split("::").next().unwrap()) || k.starts_with("Length::");
            if !keys.contains(k) && !is_trait { self.notes.push(format!("contract without function: {}", k)); }
        }
    }
}
// spec functions of a type whose fields changed: bodies become unspecified
pub fn blank_specs(t: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut depth = 0;
    for c in b {
        if c == '{' { if depth == 0 { out.push_str("{ arbitrary() }"); } depth += 1; continue; }
        if c == '}' { depth -= 1; continue; }
        if depth == 0 { out.push(c); }
    }
    out.lines().map(|l| if l.contains("proof fn") { "" } else { l }).collect::<Vec<_>>().join("\n")
}

// a type without a contract: its spec functions are unspecified
fn blank_trait(t: &str) -> String { t.lines().filter(|l| l.contains("spec fn")).map(|l| l.trim_end().trim_end_matches(';').replace("spec fn", "open spec fn") + " { arbitrary() }\n").collect() }

struct Locals<'a> { m: &'a BTreeMap<String, String> }
impl<'a> VisitMut for Locals<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.m.get(&p.ident.to_string()) { p.ident = format_ident!("{}", n); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(n) = p.path.get_ident().and_then(|i| self.m.get(&i.to_string())) { p.path = format_ident!("{}", n).into(); }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr_mut(&mut c.func); }
        for a in c.args.iter_mut() { self.visit_expr_mut(a); }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
}
// names bound by a function, in order: parameters, lets, loop variables; generated names are left out
pub fn bound_names(sig: &Signature, b: &Block) -> crate::contracts::Names {
    struct V { out: crate::contracts::Names }
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) {
            self.visit_expr(&f.expr);
            let n = self.out.len();
            self.visit_pat(&f.pat);
            for x in self.out[n..].iter_mut() { x.0 = 'f'; }
            self.visit_block(&f.body);
        }
        fn visit_local(&mut self, l: &'ast Local) { if let Some(i) = &l.init { self.visit_expr(&i.expr); } self.visit_pat(&l.pat); }
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) { let n = p.ident.to_string(); if !n.contains("__") || n.contains("__h") && !n.starts_with("hi__") { self.out.push(('l', n)); } visit::visit_pat_ident(self, p); }
    }
    let mut v = V { out: vec![] };
    for i in sig.inputs.iter() { if let FnArg::Typed(t) = i { v.visit_pat(&t.pat); } }
    for x in v.out.iter_mut() { x.0 = 'p'; }
    v.visit_block(b);
    v.out
}
