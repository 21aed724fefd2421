//! Flattening: every node of a document gathered under its identifier.
use crate::gen::{canon_in, Gen};
use crate::run::Run;
use crate::unordered::doc;
use json_ld_core::flattening::Flatten;
use json_ld_syntax::IntoJsonWithContext;
use rdf_types::generator;
use serde_json::{json, Map, Value as S};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Graph = BTreeMap<String, Map<String, S>>;
/// node map generation and flattening, written after the algorithms of the specification
struct Ref { graphs: BTreeMap<String, Graph>, issued: HashMap<String, String>, n: usize, conflict: bool }
impl Ref {
    fn fresh(&mut self) -> String { self.n += 1; format!("_:n{}", self.n) }
    fn issue(&mut self, s: &str) -> String {
        if !s.starts_with("_:") { return s.into() }
        if let Some(x) = self.issued.get(s) { return x.clone() }
        let x = self.fresh();
        self.issued.insert(s.into(), x.clone());
        x
    }
    /// the value of a property in flat form; nodes are recorded
    fn object(&mut self, v: &S, graph: &str) -> S {
        let o = v.as_object().unwrap();
        if o.contains_key("@value") { return v.clone() }
        if let Some(l) = o.get("@list") {
            let mut r = o.clone();
            r.insert("@list".into(), S::Array(l.as_array().unwrap().iter().map(|v| self.object(v, graph)).collect()));
            return S::Object(r);
        }
        json!({"@id": self.node(o, graph)})
    }
    fn entry(&mut self, graph: &str, id: &str) -> &mut Map<String, S> {
        self.graphs.get_mut(graph).unwrap().entry(id.into()).or_insert_with(|| { let mut m = Map::new(); m.insert("@id".into(), json!(id)); m })
    }
    fn add(&mut self, graph: &str, id: &str, key: &str, v: S) {
        let a = self.entry(graph, id).entry(key.to_string()).or_insert(json!([])).as_array_mut().unwrap();
        let list = v.get("@list").is_some();
        let c = canon_in(&v, "");
        if list || !a.iter().any(|x| canon_in(x, "") == c) { a.push(v) }
    }
    fn node(&mut self, o: &Map<String, S>, graph: &str) -> String {
        let id = match o.get("@id") { Some(i) => self.issue(i.as_str().unwrap()), None => self.fresh() };
        self.entry(graph, &id);
        for t in o.get("@type").and_then(|t| t.as_array()).into_iter().flatten() { let t = self.issue(t.as_str().unwrap()); self.add(graph, &id, "@type", json!(t)) }
        if let Some(i) = o.get("@index") {
            let e = self.entry(graph, &id);
            if e.get("@index").map_or(false, |j| i != j) { self.conflict = true } else { e.insert("@index".into(), i.clone()); }
        }
        for (p, ns) in o.get("@reverse").and_then(|r| r.as_object()).into_iter().flatten() {
            for n in ns.as_array().unwrap() {
                let s = self.node(n.as_object().unwrap(), graph);
                let p = self.issue(p);
                self.add(graph, &s, &p, json!({"@id": id}));
            }
        }
        if let Some(g) = o.get("@graph") {
            self.graphs.entry(id.clone()).or_default();
            for n in g.as_array().unwrap() { self.node(n.as_object().unwrap(), &id); }
        }
        for n in o.get("@included").and_then(|r| r.as_array()).into_iter().flatten() { self.node(n.as_object().unwrap(), graph); }
        for (p, vs) in o {
            if p.starts_with('@') { continue }
            let p = self.issue(p);
            self.entry(graph, &id).entry(p.clone()).or_insert(json!([]));
            for v in vs.as_array().unwrap() { let x = self.object(v, graph); self.add(graph, &id, &p, x) }
        }
        id
    }
}
/// the flattened document, or `None` for conflicting indexes
pub fn reference(v: &S) -> Option<S> {
    let mut r = Ref { graphs: Default::default(), issued: Default::default(), n: 0, conflict: false };
    r.graphs.insert("@default".into(), Default::default());
    for n in v.as_array().unwrap() { r.node(n.as_object().unwrap(), "@default"); }
    if r.conflict { return None }
    let names: Vec<String> = r.graphs.keys().filter(|k| *k != "@default").cloned().collect();
    for g in names {
        let nodes: Vec<S> = r.graphs[&g].values().filter(|n| n.len() > 1).cloned().map(S::Object).collect();
        r.entry("@default", &g).insert("@graph".into(), S::Array(nodes));
    }
    Some(S::Array(r.graphs["@default"].values().filter(|n| n.len() > 1).cloned().map(S::Object).collect()))
}
fn blanks(v: &S, out: &mut BTreeSet<String>) {
    match v {
        S::Object(o) => { if o.contains_key("@value") { return } for (k, v) in o { if k.starts_with("_:") { out.insert(k.clone()); } if k != "@index" { blanks(v, out) } } }
        S::Array(a) => a.iter().for_each(|v| blanks(v, out)),
        S::String(s) if s.starts_with("_:") => { out.insert(s.clone()); }
        _ => (),
    }
}
/// the text of a document with its blank nodes named `f`, everything unordered sorted
fn named(v: &S, f: &dyn Fn(&str) -> String) -> String { named_in(v, "@graph", f) }
fn named_in(v: &S, key: &str, f: &dyn Fn(&str) -> String) -> String {
    match v {
        S::Object(o) if o.contains_key("@value") => canon_in(v, key),
        S::Object(o) => {
            let mut e: Vec<String> = o.iter().map(|(k, v)| format!("{:?}:{}", if k.starts_with("_:") { f(k) } else { k.clone() }, if k == "@index" { v.to_string() } else { named_in(v, k, f) })).collect();
            e.sort();
            format!("{{{}}}", e.join(","))
        }
        S::Array(a) => {
            let mut e: Vec<String> = a.iter().map(|v| named_in(v, "", f)).collect();
            if key != "@list" { e.sort() }
            format!("[{}]", e.join(","))
        }
        S::String(s) if s.starts_with("_:") => format!("{:?}", f(s)),
        v => v.to_string(),
    }
}
/// equal up to the names of blank nodes and the order of unordered things; `None` when there are too many candidates
pub fn same(a: &S, b: &S) -> Option<bool> {
    let classes = |v: &S| {
        let mut s = BTreeSet::new();
        blanks(v, &mut s);
        let mut col: BTreeMap<String, String> = s.iter().map(|x| (x.clone(), "_:x".to_string())).collect();
        for _ in 0..2 {
            let next: Vec<(String, String)> = s.iter().map(|me| (me.clone(), named(v, &|x| if x == me { "_:me".into() } else { col[x].clone() }))).collect();
            col = next.iter().map(|(n, t)| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); (n.clone(), format!("_:{:x}", h.finish())) }).collect();
        }
        let mut by: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (n, c) in col { by.entry(c).or_default().push(n) }
        by
    };
    let (ca, cb) = (classes(a), classes(b));
    if ca.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>() != cb.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>() { return Some(false) }
    let ta = { let mut m = HashMap::new(); for (i, x) in ca.values().flatten().enumerate() { m.insert(x.clone(), format!("_:{i}")); } named(a, &|x| m[x].clone()) };
    if ca.values().map(|c| (1..=c.len()).product::<usize>()).product::<usize>() > 5000 { return None }
    // all bijections that respect the classes
    fn go(classes: &[Vec<String>], used: usize, m: &mut HashMap<String, String>, test: &dyn Fn(&HashMap<String, String>) -> bool) -> bool {
        let Some((c, rest)) = classes.split_first() else { return test(m) };
        fn perm(c: &mut Vec<String>, k: usize, f: &mut dyn FnMut(&Vec<String>) -> bool) -> bool {
            if k == c.len() { return f(c) }
            for i in k..c.len() { c.swap(k, i); if perm(c, k + 1, f) { return true } c.swap(k, i); }
            false
        }
        let mut c2 = c.clone();
        perm(&mut c2, 0, &mut |p| {
            for (i, x) in p.iter().enumerate() { m.insert(x.clone(), format!("_:{}", used + i)); }
            go(rest, used + c.len(), m, test)
        })
    }
    let cl: Vec<Vec<String>> = cb.values().cloned().collect();
    Some(go(&cl, 0, &mut HashMap::new(), &|m| named(b, &|x| m[x].clone()) == ta))
}
pub fn sv(v: &json_syntax::Value) -> S { serde_json::from_str(&crate::util::show(v)).unwrap() }
fn flat(d: &S, ordered: bool) -> Option<S> {
    doc(d).flatten(generator::Blank::new_with_prefix("g".into()), ordered).ok().map(|n| S::Array(n.into_iter().map(|n| sv(&n.into_json_with(&()))).collect()))
}
/// the shape expansion gives: graphs hold nodes only
pub fn tidy(v: &S) -> S {
    match v {
        S::Object(o) if o.contains_key("@value") => v.clone(),
        S::Object(o) => S::Object(o.iter().map(|(k, v)| {
            let mut x = tidy(v);
            if k == "@graph" { x.as_array_mut().unwrap().retain(|n| n.get("@value").is_none() && n.get("@list").is_none()) }
            (k.clone(), x)
        }).filter(|(k, v)| k != "@type" || *v != json!([])).collect()),
        S::Array(a) => S::Array(a.iter().map(tidy).collect()),
        v => v.clone(),
    }
}
fn sorted(a: &[S]) -> bool { a.windows(2).all(|w| w[0]["@id"].as_str() <= w[1]["@id"].as_str()) }
fn show(v: &Option<S>) -> String { v.as_ref().map_or("conflicting indexes".into(), |v| canon_in(v, "@graph")) }
fn agree(got: Option<S>, want: &Option<S>) -> Result<(), (String, String)> {
    let ok = match (&got, want) { (Some(a), Some(b)) => same(a, b).unwrap_or(true), (None, None) => true, _ => false };
    if ok { Ok(()) } else { Err((show(want), show(&got))) }
}
fn check(d: &S) -> Result<(), (String, String)> {
    let want = reference(d);
    agree(flat(d, false), &want)?;
    let o = flat(d, true);
    if let Some(o) = &o {
        let a = o.as_array().unwrap();
        if !sorted(a) || !a.iter().filter_map(|n| n.get("@graph")).all(|g| sorted(g.as_array().unwrap())) { return Err(("nodes sorted by identifier".into(), canon_in(o, "@graph"))) }
    }
    agree(o, &want)?;
    agree(doc(d).flatten_unordered(generator::Blank::new_with_prefix("g".into())).ok().map(|n| S::Array(n.into_iter().map(|n| sv(&n.into_json_with(&()))).collect())), &want)?;
    Ok(())
}
pub fn run(r: &mut Run) {
    let mut left = 8;
    for k in 0..r.n(1300, 30000) {
        let g = Gen { blanks: 1 + k % 3, anonymous: k % 2 == 0, index: k % 3 == 0, ..Gen::default() };
        let depth = 1 + r.rng.below(3);
        let d = tidy(&g.doc(&mut r.rng, depth));
        let mut small = None;
        if left > 0 && std::panic::catch_unwind(|| check(&d).is_err()).unwrap_or(true) { left -= 1; small = Some(crate::util::shrink(&d, &|v| v.as_array().map_or(false, |a| a.iter().all(|n| n.is_object())) && std::panic::catch_unwind(|| { doc(v); }).is_ok() && std::panic::catch_unwind(|| check(&tidy(v)).is_err()).unwrap_or(true))); }
        let d = small.unwrap_or(d);
        r.case("flattening gathers every node, in every graph", &d.to_string(), || check(&d));
    }
    for _ in 0..r.n(150, 2000) {
        let g = Gen { blanks: 2, anonymous: false, ..Gen::default() };
        let d = tidy(&g.doc(&mut r.rng, 2));
        // documents in expanded form are JSON-LD documents
        let t = d.to_string();
        r.case("the processor flattens what it expands", &t, || {
            use json_ld::JsonLdProcessor;
            let e = crate::util::expand_doc(&t, &json_ld::NoLoader, None, Default::default()).unwrap();
            let e = S::Array(e.into_objects().into_iter().map(|o| sv(&o.into_json_with(&()))).collect());
            let want = reference(&tidy(&e));
            let d = json_ld::RemoteDocument::new(None, None, crate::util::j(&t));
            let mut gen = generator::Blank::new_with_prefix("g".into());
            match crate::util::block(d.flatten(&mut gen, &json_ld::NoLoader)) {
                Ok(v) => agree(Some(sv(&v)), &want),
                Err(e) if e.code().to_string() == "conflicting indexes" => agree(None, &want),
                Err(e) => Err(("no other error".into(), format!("{:?}", e.code()))),
            }
        });
        r.case("merged graphs hold every node of every graph", &t, || {
            let Ok(m) = doc(&d).generate_node_map_with(&mut (), generator::Blank::new_with_prefix("g".into())) else { return Ok(()) };
            let mut want: BTreeMap<String, BTreeSet<String>> = Default::default();
            let facts = |n: &json_ld_core::IndexedNode| -> (String, Vec<String>) {
                let v = sv(&n.inner().clone().into_json_with(&()));
                let o = v.as_object().unwrap();
                let mut f = vec![];
                for (k, x) in o { if k == "@id" || k == "@graph" || k == "@included" { continue } for y in x.as_array().into_iter().flatten() { f.push(format!("{k} {}", canon_in(y, ""))) } }
                (o["@id"].to_string(), f)
            };
            for (_, g) in m.iter() { for n in g.nodes() { let (i, f) = facts(n); want.entry(i).or_default().extend(f) } }
            let got: BTreeMap<String, BTreeSet<String>> = m.merge().nodes().map(|n| { let (i, f) = facts(n); (i, f.into_iter().collect()) }).collect();
            if got == want { Ok(()) } else { Err((format!("{want:?}"), format!("{got:?}"))) }
        });
    }
}
