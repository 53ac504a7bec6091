// Parser of the contract files.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub key: String,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub panics: String,
    pub cost: String,
    pub costloops: BTreeMap<usize, String>,
    pub costwhiles: BTreeMap<usize, String>,
    pub attr: String,
    pub guards: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub hooks: BTreeMap<String, String>,
    pub trusted: bool,
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub types: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub items: BTreeMap<String, String>,
}

fn expand_defs(text: &str, defs: &mut BTreeMap<String, (Vec<String>, String)>) -> Vec<String> {
    // "@def NAME(a, b)" ... "@enddef" defines text; "@use NAME(x, y)" inserts it with $a, $b replaced
    let mut out: Vec<String> = Vec::new();
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("@def ") {
            let p = r.find('(').expect("@def needs (");
            let name = r[..p].trim().to_string();
            let params: Vec<String> = r[p + 1..r.rfind(')').unwrap()].split(|c| c == ',' || c == ';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
            let mut body = String::new();
            for b in lines.by_ref() {
                if b.trim() == "@enddef" { break; }
                body.push_str(b);
                body.push('\n');
            }
            defs.insert(name, (params, body));
        } else if let Some(r) = t.strip_prefix("@use ") {
            let p = r.find('(').expect("@use needs (");
            let name = r[..p].trim();
            let (params, body) = defs.get(name).unwrap_or_else(|| panic!("no def {}", name)).clone();
            let args: Vec<String> = split_args(&r[p + 1..r.rfind(')').unwrap()]);
            assert!(args.len() == params.len(), "@use {}: {} args, {} params", name, args.len(), params.len());
            let mut b = body;
            let mut order: Vec<usize> = (0..params.len()).collect();
            order.sort_by_key(|&i| std::cmp::Reverse(params[i].len()));
            for i in order { b = put(&b, &params[i], &args[i]); }
            for x in expand_defs(&b, defs) { out.push(x); }
        } else {
            out.push(l.to_string());
        }
    }
    out
}
// $name; $acc is a placeholder of the loops
fn put(t: &str, name: &str, arg: &str) -> String {
    let key = format!("${}", name);
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find(&key) {
        let after = &rest[p + key.len()..];
        out.push_str(&rest[..p]);
        if name == "a" && after.starts_with("cc") { out.push_str(&key); } else { out.push_str(arg); }
        rest = after;
    }
    out.push_str(rest);
    out
}
fn split_args(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut depth = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => { depth += 1; cur.push(c) }
            ')' | ']' | '}' => { depth -= 1; cur.push(c) }
            ';' if depth == 0 => { v.push(cur.trim().to_string()); cur.clear() }
            _ => cur.push(c),
        }
    }
    if !cur.trim().is_empty() || !v.is_empty() { v.push(cur.trim().to_string()); }
    v
}

impl Contracts {
    pub fn load(&mut self, text: &str, defs: &mut BTreeMap<String, (Vec<String>, String)>) {
        let mut head: Option<(String, String)> = None;
        let mut sect = String::from("body");
        let mut cur = FnContract::default();
        let lines = expand_defs(text, defs);
        let mut body = String::new();
        let mut all: Vec<(Option<(String, String)>, FnContract, String)> = Vec::new();
        for l in &lines {
            let l = l.as_str();
            if let Some(r) = l.strip_prefix("@@ ") {
                if head.is_some() { all.push((head.take(), std::mem::take(&mut cur), std::mem::take(&mut body))); }
                let (k, n) = r.trim().split_once(' ').expect("@@ kind name");
                head = Some((k.to_string(), n.trim().to_string()));
                cur.key = n.trim().to_string();
                sect = "body".into();
                body = String::new();
                continue;
            }
            if l.starts_with("//#") && head.is_none() { continue; }
            if let Some(r) = l.strip_prefix('@') {
                let r = r.trim_end();
                let (k, rest) = match r.split_once(' ') { Some((a, b)) => (a, b.trim()), None => (r, "") };
                match k {
                    "requires" | "ensures" | "decreases" | "panics" | "attr" | "cost" => { sect = k.to_string(); add(&mut cur, &sect, rest, &mut body); }
                    "trusted" => cur.trusted = true,
                    "costloop" => { let (n, e) = rest.split_once(' ').expect("@costloop N EXPR"); cur.costloops.insert(n.parse().unwrap(), e.to_string()); }
                    "costwhile" => { let (n, e) = rest.split_once(' ').expect("@costwhile N EXPR"); cur.costwhiles.insert(n.parse().unwrap(), e.to_string()); }
                    "guard" => cur.guards.push(rest.to_string()),
                    "loop" => { sect = format!("loop {}", rest); cur.loops.entry(rest.parse().unwrap()).or_default(); }
                    "at" => { sect = format!("at {}", rest); cur.hooks.entry(rest.to_string()).or_default(); }
                    _ => panic!("unknown directive @{} in {:?}", k, head),
                }
                continue;
            }
            add(&mut cur, &sect, l, &mut body);
        }
        if head.is_some() { all.push((head, cur, body)); }
        for (h, c, b) in all {
            let (k, n) = h.unwrap();
            match k.as_str() {
                "fn" => { if self.fns.insert(n.clone(), c).is_some() { panic!("duplicate contract {}", n) } }
                // further clauses for a function that may have a contract already
                "more" => {
                    let f = self.fns.entry(n.clone()).or_default();
                    f.key = n.clone();
                    f.requires.push_str(&c.requires); f.ensures.push_str(&c.ensures); f.cost.push_str(&c.cost);
                    f.costloops.extend(c.costloops); f.costwhiles.extend(c.costwhiles);
                    for (k, v) in c.hooks { f.hooks.entry(k).or_default().push_str(&v); }
                    for (k, v) in c.loops { f.loops.entry(k).or_default().push_str(&v); }
                }
                "type" => { self.types.entry(n).or_default().push_str(&b); }
                "trait" => { self.traits.entry(n).or_default().push_str(&b); }
                "items" => { self.items.entry(n).or_default().push_str(&b); }
                _ => panic!("unknown @@ {}", k),
            }
        }
    }
}
fn add(c: &mut FnContract, sect: &str, l: &str, body: &mut String) {
    if sect == "cost" && l.trim_start().starts_with("//") { return; }
    let t = match sect {
        "body" => body,
        "requires" => &mut c.requires,
        "ensures" => &mut c.ensures,
        "decreases" => &mut c.decreases,
        "panics" => &mut c.panics,
        "cost" => &mut c.cost,
        "attr" => &mut c.attr,
        s if s.starts_with("loop ") => c.loops.get_mut(&s[5..].parse().unwrap()).unwrap(),
        s => c.hooks.get_mut(&s[3..]).unwrap(),
    };
    t.push_str(l);
    t.push('\n');
}

// a renamed parameter or local keeps its place in the annotations
impl FnContract {
    pub fn rename(&mut self, m: &BTreeMap<String, String>) {
        if m.is_empty() { return; }
        for t in [&mut self.requires, &mut self.ensures, &mut self.decreases, &mut self.panics, &mut self.cost] { *t = reword(t, m); }
        for t in self.costloops.values_mut().chain(self.costwhiles.values_mut()).chain(self.loops.values_mut()) { *t = reword(t, m); }
        for g in self.guards.iter_mut() { if let Some(n) = m.get(g) { *g = n.clone(); } }
        let h = std::mem::take(&mut self.hooks);
        for (k, t) in h {
            let k = match k.strip_prefix("after-let ") {
                Some(r) => { let (n, rest) = match r.split_once('#') { Some((n, x)) => (n, format!("#{}", x)), None => (r, String::new()) }; format!("after-let {}{}", m.get(n).map(|s| s.as_str()).unwrap_or(n), rest) }
                None => k,
            };
            self.hooks.insert(k, reword(&t, m));
        }
    }
}
pub fn reword(t: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[s..i].iter().collect();
            // a field, a placeholder, a call, a path or a field label is not a name of the program
            let field = s > 0 && (b[s - 1] == '.' && !(s > 1 && b[s - 2] == '.') || b[s - 1] == '$' || b[s - 1] == ':' && s > 1 && b[s - 2] == ':');
            let call = i < b.len() && b[i] == '(' || i + 1 < b.len() && b[i] == ':' && b[i + 1] == ':';
            match m.get(&w) { Some(n) if !field && !call => out.push_str(n), _ => out.push_str(&w) }
        } else if b[i].is_numeric() {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { out.push(b[i]); i += 1; }
        } else { out.push(b[i]); i += 1; }
    }
    out
}
// names bound in a function, in order, with their kind
pub type Names = Vec<(char, String)>;
pub fn match_names(base: &Names, cur: &Names) -> BTreeMap<String, String> {
    use std::collections::BTreeSet;
    let bs: BTreeSet<&str> = base.iter().map(|x| x.1.as_str()).collect();
    let cs: BTreeSet<&str> = cur.iter().map(|x| x.1.as_str()).collect();
    let mut out = BTreeMap::new();
    if bs.iter().all(|n| cs.contains(n)) { return out; }
    // longest common subsequence, then what is missing between two anchors against what is new there
    let (n, m) = (base.len(), cur.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { l[i][j] = if base[i] == cur[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) }; } }
    let (mut i, mut j) = (0, 0);
    let (mut gone, mut new): (Vec<(char, String)>, Vec<(char, String)>) = (vec![], vec![]);
    let mut flush = |gone: &mut Vec<(char, String)>, new: &mut Vec<(char, String)>| {
        for k in ['p', 'l', 'f'] {
            let mut g: Vec<String> = gone.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect(); g.dedup();
            let mut w: Vec<String> = new.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect(); w.dedup();
            if g.len() == w.len() { for (a, b) in g.into_iter().zip(w) { out.entry(a).or_insert(b); } }
        }
        gone.clear(); new.clear();
    };
    loop {
        if i < n && j < m && base[i] == cur[j] { flush(&mut gone, &mut new); i += 1; j += 1; }
        else if i < n && (j == m || l[i + 1][j] >= l[i][j + 1]) { if !cs.contains(base[i].1.as_str()) { gone.push(base[i].clone()); } i += 1; }
        else if j < m { if !bs.contains(cur[j].1.as_str()) { new.push(cur[j].clone()); } j += 1; }
        else { flush(&mut gone, &mut new); break; }
    }
    out
}
