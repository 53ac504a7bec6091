mod accept;
mod contracts;
mod cost;
mod desugar;
mod emit;
mod fields;
mod hooks;
mod inline;
mod model;
mod rewrite;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

// extract SRC_DIR CONTRACTS_DIR OUT.rs REPORT.json [lost-key ...]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: extract SRC CONTRACTS OUT.rs REPORT.json [lost...]"); std::process::exit(2); }
    let mut m = model::Model::default();
    m.read(Path::new(&a[1]));
    let mut c = contracts::Contracts::default();
    let mut defs = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(&a[2]).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false)).collect();
    files.sort();
    // EXTRACT_COST: ghost step counters, with the contracts of the cost directory on top
    let cost = std::env::var("EXTRACT_COST").is_ok();
    let mut more: Vec<_> = if cost { std::fs::read_dir(Path::new(&a[2]).join("cost")).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false)).collect() } else { vec![] };
    more.sort();
    files.extend(more);
    for f in &files { c.load(&std::fs::read_to_string(f).unwrap(), &mut defs); }
    // the names the contracts were written with; parameters that are called differently now keep their place
    let mut names: BTreeMap<String, contracts::Names> = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(Path::new(&a[2]).join("names.txt")) {
        for l in t.lines() { if let Some((k, r)) = l.split_once(": ") { names.insert(k.to_string(), r.split_whitespace().map(|w| (w.chars().next().unwrap(), w[2..].to_string())).collect()); } }
    }
    let fieldnames = fields::all(&m);
    fields::run(&mut m, &names);
    let mut sigs: Vec<(String, &model::FnItem)> = vec![];
    for (t, v) in &m.inherent { for (n, f) in v { sigs.push((format!("{}::{}", t, n), f)); } }
    for (t, x) in &m.trait_impls { for (_, v) in x { for (n, f) in v { sigs.push((format!("{}::{}", t, n), f)); } } }
    for (o, n, f) in &m.free { sigs.push((format!("{}::{}", o, n), f)); }
    for (k, f) in sigs {
        let (Some(b), Some(x)) = (names.get(&k), c.fns.get_mut(&k)) else { continue };
        let b: Vec<&String> = b.iter().filter(|x| x.0 == 'p').map(|x| &x.1).collect();
        let p: Vec<String> = f.sig.inputs.iter().filter_map(|i| match i { syn::FnArg::Typed(t) => Some(match &*t.pat { syn::Pat::Ident(p) => p.ident.to_string(), _ => "_".into() }), _ => None }).collect();
        if b.len() != p.len() { continue; }
        let r: BTreeMap<String, String> = b.iter().zip(&p).filter(|(b, p)| **b != *p && *p != "_").map(|(b, p)| ((*b).clone(), p.clone())).collect();
        x.rename(&r);
    }
    inline::run(&mut m, &c);
    let mut pre = Vec::new();
    for n in ["prelude", "math", "specs"] {
        let p = Path::new(&a[2]).join(format!("{}.rs", n));
        pre.push((n.to_string(), std::fs::read_to_string(&p).unwrap()));
    }
    let mut lemmas: Vec<_> = std::fs::read_dir(&a[2]).unwrap().map(|e| e.unwrap().path()).filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("l_")).collect();
    lemmas.sort();
    // the client programs know nothing of costs
    if cost { lemmas.retain(|p| !p.ends_with("l_client.rs") && !p.ends_with("l_threads.rs")); }
    for p in lemmas { if !a[5..].contains(&format!("lib {}", p.file_stem().unwrap().to_string_lossy())) { pre.push((p.file_stem().unwrap().to_string_lossy().to_string(), std::fs::read_to_string(&p).unwrap())); } }
    if cost { let p = Path::new(&a[2]).join("cost").join("lib_cost.rs"); pre.push(("l_cost".into(), std::fs::read_to_string(&p).unwrap())); }
    let lost: BTreeSet<String> = a[5..].iter().cloned().collect();
    let mut e = emit::Emitter { model: &m, contracts: &c, lost, out: String::new(), report: vec![], notes: m.notes.clone(), callees: BTreeMap::new(), cost, costed: BTreeSet::new(), auto: BTreeMap::new(), names, seen: vec![], specfns: BTreeSet::new() };
    for (_, t) in &pre { for p in t.split("fn ").skip(1) { let n: String = p.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); if !n.is_empty() { e.specfns.insert(n); } } }
    e.emit(&pre);
    if let Ok(p) = std::env::var("EXTRACT_NAMES") {
        let mut v: Vec<String> = e.seen.iter().chain(fieldnames.iter()).filter(|(_, n)| !n.is_empty()).map(|(k, n)| format!("{}: {}", k, n.iter().map(|x| format!("{}-{}", x.0, x.1)).collect::<Vec<_>>().join(" "))).collect();
        v.sort();
        std::fs::write(p, v.join("\n") + "\n").unwrap();
    }
    std::fs::write(&a[3], &e.out).unwrap();
    let fns: Vec<String> = e.report.iter().map(|r| format!(
        "{{\"key\":{},\"module\":{},\"start\":{},\"end\":{},\"status\":{},\"reason\":{},\"loops\":{},\"contracted\":{},\"kind\":{},\"calls\":{}}}",
        js(&r.key), js(&r.module), r.start, r.end, js(&r.status), js(&r.reason), r.loops, r.contracted, js(&r.kind), list(&r.calls))).collect();
    std::fs::write(&a[4], format!("{{\"functions\":[\n{}\n],\n\"notes\":{},\n\"files\":{}}}\n", fns.join(",\n"), list(&e.notes), list(&m.files))).unwrap();
}
