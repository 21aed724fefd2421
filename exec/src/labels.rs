//! Blank nodes: relabelling, identification, canonical literals, the identifiers of a document.
use crate::flat::{same, sv, tidy};
use crate::gen::{canon_in, Gen};
use crate::run::{Rng, Run};
use crate::unordered::doc;
use json_ld::ExpandedDocument;
use json_ld_core::id::{IdentifyAll, Relabel};
use json_ld_syntax::IntoJsonWithContext;
use rdf_types::generator;
use serde_json::{json, Map, Value as S};
use std::collections::{BTreeSet, HashMap};

fn json_of(d: &ExpandedDocument) -> S { S::Array(d.objects().iter().map(|o| sv(&o.clone().into_json_with(&()))).collect()) }
fn nodes_of(d: &S) -> json_ld_core::FlattenedDocument<iref::IriBuf, rdf_types::BlankIdBuf> {
    doc(d).into_objects().into_iter().filter_map(|o| { let (o, i) = o.into_parts(); match o { json_ld_core::Object::Node(n) => Some(json_ld_core::Indexed::new(*n, i)), _ => None } }).collect()
}
fn gen() -> generator::Blank { generator::Blank::new_with_prefix("g".into()) }
/// the document with every identifier written by `f`, and every node without identifier given one by `anon`
fn mapped(v: &S, f: &dyn Fn(&str) -> String, anon: &mut dyn FnMut() -> Option<String>) -> S {
    match v {
        S::Object(o) if o.contains_key("@value") => { let mut o = o.clone(); if let Some(S::String(t)) = o.get("@type").cloned() { if t != "@json" { o.insert("@type".into(), json!(f(&t))); } } S::Object(o) }
        S::Object(o) => {
            let mut r = Map::new();
            let list = o.contains_key("@list");
            for (k, x) in o {
                let y = match k.as_str() {
                    "@index" => x.clone(),
                    "@reverse" => S::Object(x.as_object().unwrap().iter().map(|(k, x)| (f(k), mapped(x, f, anon))).collect()),
                    _ => mapped(x, f, anon),
                };
                r.insert(if k.starts_with('@') { k.clone() } else { f(k) }, y);
            }
            if !list && !o.contains_key("@id") { if let Some(i) = anon() { r.insert("@id".into(), json!(i)); } }
            S::Object(r)
        }
        S::Array(a) => S::Array(a.iter().map(|x| mapped(x, f, anon)).collect()),
        S::String(s) => json!(f(s)),
        v => v.clone(),
    }
}
/// numbers written in their canonical form
fn canonical(v: &S) -> S {
    match v {
        S::Object(o) => { let mut e: Vec<(&String, &S)> = o.iter().collect(); e.sort_by_key(|e| e.0.encode_utf16().collect::<Vec<_>>()); S::Object(e.into_iter().map(|(k, v)| (k.clone(), canonical(v))).collect()) }
        S::Array(a) => S::Array(a.iter().map(canonical).collect()),
        S::Number(n) => { let f = n.as_f64().unwrap(); if f.fract() == 0.0 && f.abs() < 9e15 { json!(f as i64) } else { json!(f) } }
        v => v.clone(),
    }
}
fn blanks(v: &S, out: &mut BTreeSet<String>) {
    mapped(v, &|_| String::new(), &mut || None);
    let c = std::cell::RefCell::new(BTreeSet::new());
    mapped(v, &|s| { if s.starts_with("_:") { c.borrow_mut().insert(s.to_string()); } s.into() }, &mut || None);
    out.extend(c.into_inner());
}
fn text(v: &S) -> String { canon_in(v, "@graph") }
fn equal(want: &S, got: &S) -> Result<(), (String, String)> { if text(want) == text(got) { Ok(()) } else { Err((text(want), text(got))) } }
fn alike(want: &S, got: &S) -> Result<(), (String, String)> { if same(want, got).unwrap_or(true) { Ok(()) } else { Err((text(want), text(got))) } }
/// blank nodes of the document itself made IRIs, so that only generated labels are left to match
fn frozen(v: &S) -> S { mapped(v, &|s| if s.starts_with("_:") && !s.starts_with("_:g") { format!("urn:blank:{}", &s[2..]) } else { s.into() }, &mut || None) }
fn anonymous() -> impl FnMut() -> Option<String> { let mut n = 0; move || { n += 1; Some(format!("_:ganon{n}")) } }

fn identified(d: &S) -> Result<(), (String, String)> {
    let want = mapped(d, &|s| s.into(), &mut anonymous());
    let mut e = doc(d);
    e.identify_all(&mut gen());
    alike(&frozen(&want), &frozen(&json_of(&e)))?;
    // one object at a time, and as a list of nodes
    let mut g = gen();
    let objects: Vec<S> = doc(d).into_objects().into_iter().map(|mut o| { o.identify_all(&mut g); sv(&o.into_json_with(&())) }).collect();
    alike(&frozen(&want), &frozen(&S::Array(objects)))?;
    let mut g = gen();
    let mut nodes = nodes_of(d);
    nodes.identify_all(&mut g);
    let nodes = S::Array(nodes.into_iter().map(|n| sv(&n.into_json_with(&()))).collect());
    alike(&frozen(&want), &frozen(&nodes))
}
fn relabelled(d: &S) -> Result<(), (String, String)> {
    let want = mapped(d, &|s| s.into(), &mut anonymous());
    let fresh = |v: &S| -> Result<(), (String, String)> { let mut b = BTreeSet::new(); blanks(v, &mut b); if b.iter().all(|x| x.starts_with("_:g")) { Ok(()) } else { Err(("generated labels".into(), text(v))) } };
    let mut e = doc(d);
    e.relabel(&mut gen());
    let got = json_of(&e);
    alike(&want, &got)?;
    fresh(&got)?;
    let mut e = doc(d);
    e.relabel_and_canonicalize(&mut gen());
    let got = json_of(&e);
    alike(&canonical(&want), &got)?;
    fresh(&got)?;
    // object by object, with the labels given shown by the map
    let mut m = hashbrown::HashMap::new();
    let mut g = gen();
    let objects: Vec<S> = doc(d).into_objects().into_iter().map(|o| { let mut o = o; Relabel::relabel(&mut *o, &mut g, &mut m); sv(&o.into_json_with(&())) }).collect();
    let names: HashMap<String, String> = m.iter().map(|(b, s): (&rdf_types::BlankIdBuf, &rdf_types::Id)| (b.to_string(), s.to_string())).collect();
    let mut all = BTreeSet::new();
    blanks(d, &mut all);
    let known: BTreeSet<String> = names.keys().cloned().collect();
    if known != all { return Err((format!("the map holds {all:?}"), format!("{known:?}"))) }
    if names.values().collect::<BTreeSet<_>>().len() != names.len() { return Err(("different labels for different blank nodes".into(), format!("{names:?}"))) }
    // labels of the map made IRIs: what is left to match are the nodes without identifier
    let back: HashMap<&String, &String> = names.iter().map(|(a, b)| (b, a)).collect();
    let got = mapped(&S::Array(objects), &|s| back.get(&s.to_string()).map_or(s.to_string(), |b| format!("urn:blank:{}", &b[2..])), &mut || None);
    alike(&frozen(&want), &got)?;
    let mut m = hashbrown::HashMap::new();
    let mut g = gen();
    let mut nodes = nodes_of(d);
    nodes.relabel(&mut g, &mut m);
    alike(&want, &S::Array(nodes.into_iter().map(|n| sv(&n.into_json_with(&()))).collect()))
}
fn canonicalized(d: &S) -> Result<(), (String, String)> {
    let mut e = doc(d);
    e.canonicalize();
    equal(&canonical(d), &json_of(&e))
}
fn names(d: &S) -> Result<(), (String, String)> {
    let mut want = BTreeSet::new();
    blanks(d, &mut want);
    let e = doc(d);
    let got: BTreeSet<String> = e.blank_ids().into_iter().map(|b| b.to_string()).collect();
    if got == want { Ok(()) } else { Err((format!("{want:?}"), format!("{got:?}"))) }
}
/// identifiers and type IRIs renamed by functions
fn renamed(d: &S) -> Result<(), (String, String)> {
    let f = |s: &str| if s.starts_with("_:") { format!("_:r{}", &s[2..]) } else if s.contains(':') { format!("{s}#r") } else { s.to_string() };
    let want = mapped(d, &f, &mut || None);
    let got: ExpandedDocument = doc(d).map_ids(|i: iref::IriBuf| iref::IriBuf::new(f(i.as_str())).unwrap(), |i: json_ld_core::Id| match i { json_ld_core::Id::Invalid(s) => json_ld_core::Id::Invalid(s), i => json_ld_core::Id::from_string(f(i.as_str())) });
    equal(&want, &json_of(&got))
}
fn numbers(r: &mut Rng, v: &mut S) {
    match v {
        S::Object(o) if o.contains_key("@value") => { if o["@value"].is_number() { let t = *r.pick(&["1.0", "10e2", "0.5", "-3.20", "1E-7", "12", "100000000000", "0.1e1"]); o.insert("@value".into(), serde_json::from_str(t).unwrap()); } }
        S::Object(o) => o.values_mut().for_each(|v| numbers(r, v)),
        S::Array(a) => a.iter_mut().for_each(|v| numbers(r, v)),
        _ => (),
    }
}
pub fn run(r: &mut Run) {
    let clauses: [(&str, fn(&S) -> Result<(), (String, String)>); 5] = [("every node without identifier gets a fresh one, nothing else changes", identified), ("blank nodes are renamed consistently, nothing else changes", relabelled), ("literals are canonical, nothing else changes", canonicalized), ("the blank identifiers of a document", names), ("renamed by functions", renamed)];
    let mut left = 8;
    for k in 0..r.n(500, 20000) {
        let g = Gen { blanks: 1 + k % 3, anonymous: k % 2 == 0, index: k % 3 == 0, ..Gen::default() };
        let depth = 1 + r.rng.below(3);
        let mut d = g.doc(&mut r.rng, depth);
        if k % 5 != 0 { d = tidy(&d) }
        numbers(&mut r.rng, &mut d);
        // as it is read: equal members of sets are one
        let d = json_of(&doc(&d));
        for (t, f) in clauses {
            let mut small = None;
            if left > 0 && std::panic::catch_unwind(|| f(&d).is_err()).unwrap_or(true) { left -= 1; small = Some(crate::util::shrink(&d, &|v| v.as_array().map_or(false, |a| a.iter().all(|n| n.is_object())) && std::panic::catch_unwind(|| { doc(v); }).is_ok() && std::panic::catch_unwind(|| f(&json_of(&doc(v))).is_err()).unwrap_or(true))); }
            let d = json_of(&doc(&small.unwrap_or(d.clone())));
            r.case(t, &d.to_string(), || f(&d));
        }
    }
}
