// Reads the crate: modules, macros, structs, traits, impls, functions.
use proc_macro2::{Group, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::*;

#[derive(Clone)]
pub struct MacroDef { pub params: Vec<String>, pub body: TokenStream }

#[derive(Clone)]
pub struct FnItem { pub sig: Signature, pub block: Option<Block>, pub module: String, pub impl_generics: Generics }

#[derive(Default)]
pub struct Model {
    pub modules: Vec<String>,
    pub files: Vec<String>,
    pub macros: BTreeMap<String, MacroDef>,
    pub structs: BTreeMap<String, (String, ItemStruct)>,
    pub traits: BTreeMap<String, (String, ItemTrait)>,
    pub inherent: BTreeMap<String, Vec<(String, FnItem)>>,
    pub trait_impls: BTreeMap<String, BTreeMap<String, Vec<(String, FnItem)>>>,
    pub free: Vec<(String, String, FnItem)>,
    pub consts: Vec<(String, ItemConst)>,
    pub assoc: BTreeMap<(String, String), Expr>,
    pub notes: Vec<String>,
    pub blanket: BTreeSet<String>,
    pub blanket_fns: Vec<(String, String, FnItem)>,
}

#[derive(PartialEq)]
enum Cfg { Keep, Drop, Unknown }
fn cfg_of(attrs: &[Attribute]) -> Cfg {
    for a in attrs {
        if a.path().is_ident("test") { return Cfg::Drop; }
        if a.path().is_ident("cfg") {
            let s = match &a.meta { Meta::List(l) => l.tokens.to_string().replace(' ', ""), _ => String::new() };
            if s == "test" { return Cfg::Drop; }
            if s == "not(test)" { continue; }
            return Cfg::Unknown;
        }
    }
    Cfg::Keep
}

impl Model {
    pub fn read(&mut self, dir: &Path) {
        self.read_file(&dir.join("lib.rs"), dir, "lib");
    }
    fn read_file(&mut self, file: &Path, dir: &Path, module: &str) {
        let text = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("cannot read {}: {}", file.display(), e); std::process::exit(3) });
        let f = match parse_file(&text) { Ok(f) => f, Err(e) => { eprintln!("cannot parse {}: {}", file.display(), e); std::process::exit(3) } };
        self.files.push(file.display().to_string());
        self.modules.push(module.to_string());
        self.items(f.items, dir, module);
    }
    fn items(&mut self, items: Vec<Item>, dir: &Path, module: &str) {
        for it in items {
            let attrs: &[Attribute] = match &it {
                Item::Mod(x) => &x.attrs, Item::Struct(x) => &x.attrs, Item::Trait(x) => &x.attrs, Item::Impl(x) => &x.attrs,
                Item::Fn(x) => &x.attrs, Item::Const(x) => &x.attrs, Item::Use(x) => &x.attrs, Item::Macro(x) => &x.attrs,
                Item::Enum(x) => &x.attrs, Item::Static(x) => &x.attrs, Item::Type(x) => &x.attrs, _ => &[],
            };
            match cfg_of(attrs) {
                Cfg::Drop => continue,
                Cfg::Unknown => { self.notes.push(format!("item under an unrecognised cfg in {}: taken as enabled", module)); }
                Cfg::Keep => {}
            }
            match it {
                Item::Mod(m) => {
                    let name = m.ident.to_string();
                    if let Some((_, its)) = m.content {
                        self.modules.push(name.clone());
                        self.items(its, &dir.join(&name), &name);
                    } else {
                        let a = dir.join(format!("{}.rs", name));
                        let b = dir.join(&name).join("mod.rs");
                        let p: PathBuf = if a.exists() { a } else { b };
                        self.read_file(&p, &dir.join(&name), &name);
                    }
                }
                Item::Macro(m) => {
                    if m.mac.path.is_ident("macro_rules") {
                        if let Some(id) = &m.ident {
                            match parse_macro(m.mac.tokens.clone()) {
                                Some(d) => { self.macros.insert(id.to_string(), d); }
                                None => self.notes.push(format!("macro {} has a form this extractor does not expand", id)),
                            }
                        }
                    } else if let Some(ts) = self.expand(&m.mac) {
                        match parse2::<File>(ts) {
                            Ok(f) => self.items(f.items, dir, module),
                            Err(e) => self.notes.push(format!("expansion of an item macro does not parse: {}", e)),
                        }
                    } else {
                        self.notes.push(format!("item macro not expanded: {}", quote::quote!(#m)));
                    }
                }
                Item::Struct(s) => { self.structs.insert(s.ident.to_string(), (module.to_string(), s)); }
                Item::Trait(t) => { self.traits.insert(t.ident.to_string(), (module.to_string(), t)); }
                Item::Const(c) => self.consts.push((module.to_string(), c)),
                Item::Fn(f) => {
                    let name = f.sig.ident.to_string();
                    let fi = FnItem { sig: f.sig, block: Some(*f.block), module: module.to_string(), impl_generics: Generics::default() };
                    self.free.push((module.to_string(), name, fi));
                }
                Item::Impl(im) => {
                    let ty = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => { self.notes.push("impl for a non-path type".into()); continue } };
                    let is_param = im.generics.type_params().any(|p| p.ident == ty);
                    let mut fns = Vec::new();
                    for i in im.items {
                        if let ImplItem::Fn(m) = i {
                            if cfg_of(&m.attrs) == Cfg::Drop { continue; }
                            fns.push((m.sig.ident.to_string(), FnItem { sig: m.sig, block: Some(m.block), module: module.to_string(), impl_generics: im.generics.clone() }));
                        } else if let ImplItem::Const(c) = i {
                            self.assoc.insert((ty.clone(), c.ident.to_string()), c.expr);
                        } else {
                            self.notes.push(format!("associated item in an impl of {} not extracted", ty));
                        }
                    }
                    match im.trait_ {
                        Some((_, p, _)) => {
                            let tr = p.segments.last().unwrap().ident.to_string();
                            if is_param { self.blanket.insert(tr); for (n, f) in fns { self.blanket_fns.push((module.to_string(), n, f)); } continue; }
                            let e = self.trait_impls.entry(ty).or_default().entry(tr).or_default();
                            e.extend(fns);
                        }
                        None => { self.inherent.entry(ty).or_default().extend(fns); }
                    }
                }
                Item::Use(_) | Item::ExternCrate(_) => {}
                other => self.notes.push(format!("item not extracted in {}: {}", module, { let s = quote::quote!(#other).to_string(); s.chars().take(60).collect::<String>() })),
            }
        }
    }
    // substitution for single-arm macros whose parameters are plain fragments
    pub fn expand(&self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last()?.ident.to_string();
        let d = self.macros.get(&name)?;
        let args = split_commas(m.tokens.clone());
        if args.len() != d.params.len() { return None; }
        let map: BTreeMap<String, TokenStream> = d.params.iter().cloned().zip(args).collect();
        Some(subst(d.body.clone(), &map))
    }
}
fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = Vec::new();
    let mut cur = TokenStream::new();
    let mut any = false;
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' { out.push(std::mem::take(&mut cur)); any = false; continue; }
        }
        any = true;
        cur.extend([t]);
    }
    if any { out.push(cur); }
    out
}
fn subst(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(ref p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = it.peek() {
                    if let Some(v) = map.get(&id.to_string()) {
                        it.next();
                        // keep an expression argument together
                        if v.clone().into_iter().count() > 1 {
                            out.extend([TokenTree::Group(Group::new(proc_macro2::Delimiter::None, v.clone()))]);
                        } else { out.extend(v.clone()); }
                        continue;
                    }
                }
                out.extend([t]);
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), map));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t]),
        }
    }
    out
}
fn parse_macro(ts: TokenStream) -> Option<MacroDef> {
    // ( $a : expr , $b : ident ) => { body } ;?
    let v: Vec<TokenTree> = ts.into_iter().collect();
    if v.len() < 4 { return None; }
    let pat = match &v[0] { TokenTree::Group(g) => g.stream(), _ => return None };
    let body = match &v[3] { TokenTree::Group(g) => g.stream(), _ => return None };
    if v.len() > 5 { return None; } // more than one arm
    let mut params = Vec::new();
    for part in split_commas(pat) {
        let p: Vec<TokenTree> = part.into_iter().collect();
        if p.len() != 4 { return None; }
        match (&p[0], &p[1]) {
            (TokenTree::Punct(d), TokenTree::Ident(i)) if d.as_char() == '$' => params.push(i.to_string()),
            _ => return None,
        }
    }
    Some(MacroDef { params, body })
}
