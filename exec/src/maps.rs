//! Property maps, nodes, objects, lists and multisets hold what is put into them.
use crate::flat::sv;
use crate::gen::{canon_in, Gen};
use crate::run::{Rng, Run};
use crate::unordered::obj;
use iref::IriBuf;
use json_ld_core::object::node::{Entries, EntryRef, Multiset, Properties, ReverseProperties};
use json_ld_core::object::List;
use json_ld_core::{Id, Indexed, IndexedNode, IndexedObject, Node, Object, Term};
use json_ld_syntax::{IntoJsonWithContext, Keyword};
use rdf_types::BlankIdBuf;
use serde_json::{json, Value as S};
use std::collections::BTreeMap;

type Obj = IndexedObject<IriBuf, BlankIdBuf>;
type Nod = IndexedNode<IriBuf, BlankIdBuf>;
type Ref = BTreeMap<String, Vec<String>>;
fn text(o: &Obj) -> String { canon_in(&sv(&o.clone().into_json_with(&())), "") }
fn ntext(n: &Nod) -> String { canon_in(&sv(&n.clone().into_json_with(&())), "") }
fn bare(n: &Node) -> String { ntext(&Indexed::none(n.clone())) }
fn id(s: &str) -> Id { Id::from_string(s.to_string()) }
const KEYS: [&str; 4] = ["http://p/p", "http://p/q", "_:b0", "http://p/none"];

/// whether the second of two objects says nothing new
fn redundant(a: &S, b: &S) -> bool {
    if a.get("@index") != b.get("@index") || canon_in(a, "") != canon_in(b, "") { return false }
    if a.get("@value").is_some() { return true }
    a.get("@list").is_none() && a.get("@id").is_some()
}
#[derive(Debug, Clone)]
enum Op { Insert(usize, S), Unique(usize, S), All(usize, Vec<S>), AllUnique(usize, Vec<S>), Set(usize, Vec<S>), Remove(usize), Clear, Extend(Vec<(usize, Vec<S>)>), ExtendUnique(Vec<(usize, Vec<S>)>), Collect(Vec<(usize, Vec<S>)>) }
fn ops(r: &mut Rng, pool: &[S]) -> Vec<Op> {
    let n = 1 + r.below(6);
    let vs = |r: &mut Rng| -> Vec<S> { let n = r.below(4); (0..n).map(|_| r.pick(pool).clone()).collect() };
    let es = |r: &mut Rng| -> Vec<(usize, Vec<S>)> { let n = r.below(4); (0..n).map(|_| { let m = 1 + r.below(3); (r.below(3), (0..m).map(|_| r.pick(pool).clone()).collect()) }).collect() };
    (0..n).map(|_| {
        let k = r.below(3);
        match r.below(13) {
            0 | 1 => Op::Insert(k, r.pick(pool).clone()),
            2 | 3 => Op::Unique(k, r.pick(pool).clone()),
            4 | 5 => Op::All(k, vs(r)),
            6 | 7 => Op::AllUnique(k, vs(r)),
            8 => Op::Set(k, vs(r)),
            9 => Op::Remove(k),
            10 => if r.chance(1, 3) { Op::Clear } else { Op::Collect(es(r)) },
            11 => Op::Extend(es(r)),
            _ => Op::ExtendUnique(es(r)),
        }
    }).collect()
}
fn unique(v: &mut Vec<S>, x: &S) { if !v.iter().any(|y| redundant(y, x)) { v.push(x.clone()) } }
/// what the map holds after the operations, and what each removal gives back
fn expected(ops: &[Op]) -> (Ref, Vec<Option<Vec<String>>>) {
    let mut m: BTreeMap<usize, Vec<S>> = BTreeMap::new();
    let mut out = vec![];
    let show = |v: Vec<S>| -> Vec<String> { v.iter().map(|x| canon_in(x, "")).collect() };
    for o in ops {
        match o {
            Op::Insert(k, x) => m.entry(*k).or_default().push(x.clone()),
            Op::Unique(k, x) => unique(m.entry(*k).or_default(), x),
            Op::All(k, v) => m.entry(*k).or_default().extend(v.iter().cloned()),
            Op::AllUnique(k, v) => { let e = m.entry(*k).or_default(); v.iter().for_each(|x| unique(e, x)) }
            Op::Set(k, v) => { m.insert(*k, v.clone()); }
            Op::Remove(k) => out.push(m.remove(k).map(show)),
            Op::Clear => m.clear(),
            Op::Extend(e) => e.iter().for_each(|(k, v)| m.entry(*k).or_default().extend(v.iter().cloned())),
            Op::ExtendUnique(e) => e.iter().for_each(|(k, v)| { let e = m.entry(*k).or_default(); v.iter().for_each(|x| unique(e, x)) }),
            Op::Collect(e) => { m.clear(); e.iter().for_each(|(k, v)| m.entry(*k).or_default().extend(v.iter().cloned())) }
        }
    }
    (m.into_iter().map(|(k, v)| (KEYS[k].to_string(), show(v))).collect(), out)
}
macro_rules! map_checks {
    ($name:ident, $map:ty, $x:ty, $read:expr, $text:expr) => {
        fn $name(ops: &[Op]) -> Result<(), (String, String)> {
            let rd = |s: &S| -> $x { $read(s) };
            let rds = |v: &[S]| -> Vec<$x> { v.iter().map(|s| $read(s)).collect() };
            let txt = |x: &$x| -> String { $text(x) };
            let pairs = |e: &[(usize, Vec<S>)]| -> Vec<(Id, Vec<$x>)> { e.iter().map(|(k, v)| (id(KEYS[*k]), rds(v))).collect() };
            let mut p: $map = Default::default();
            let mut removed = vec![];
            let before = <$map>::new();
            if !before.is_empty() || before.len() != 0 { return Err(("a new map is empty".into(), format!("{} properties", before.len()))) }
            for o in ops {
                match o {
                    Op::Insert(k, x) => p.insert(id(KEYS[*k]), rd(x)),
                    Op::Unique(k, x) => p.insert_unique(id(KEYS[*k]), rd(x)),
                    Op::All(k, v) => p.insert_all(id(KEYS[*k]), rds(v)),
                    Op::AllUnique(k, v) => p.insert_all_unique(id(KEYS[*k]), rds(v)),
                    Op::Set(k, v) => p.set(id(KEYS[*k]), rds(v).into_iter().collect()),
                    Op::Remove(k) => removed.push(p.remove(&id(KEYS[*k])).map(|m| m.iter().map(|x| txt(x)).collect::<Vec<_>>())),
                    Op::Clear => p.clear(),
                    Op::Extend(e) => p.extend(pairs(e)),
                    Op::ExtendUnique(e) => p.extend_unique(pairs(e)),
                    Op::Collect(e) => p = pairs(e).into_iter().collect(),
                }
            }
            let want = expected(ops);
            let list = |v: Vec<(String, Vec<String>)>| -> Result<Ref, (String, String)> { let n = v.len(); let m: Ref = v.into_iter().collect(); if m.len() == n { Ok(m) } else { Err(("each property once".into(), format!("{n} properties given, {} different", m.len()))) } };
            let say = |what: &str, a: String, b: String| -> Result<(), (String, String)> { if a == b { Ok(()) } else { Err((format!("{what}: {a}"), format!("{what}: {b}"))) } };
            let w = format!("{:?}", want.0);
            say("iter", w.clone(), format!("{:?}", list(p.iter().map(|(k, v)| (k.to_string(), v.iter().map(|x| txt(x)).collect())).collect())?))?;
            say("removed", format!("{:?}", want.1), format!("{removed:?}"))?;
            say("&", w.clone(), format!("{:?}", list((&p).into_iter().map(|(k, v)| (k.to_string(), v.iter().map(|x| txt(x)).collect())).collect())?))?;
            say("iter_mut", w.clone(), format!("{:?}", list(p.clone().iter_mut().map(|(k, v)| (k.to_string(), v.iter().map(|x| txt(x)).collect())).collect())?))?;
            say("&mut", w.clone(), format!("{:?}", list((&mut p.clone()).into_iter().map(|(k, v)| (k.to_string(), v.iter().map(|x| txt(x)).collect())).collect())?))?;
            say("into_iter", w.clone(), format!("{:?}", list(p.clone().into_iter().map(|(k, v)| (k.to_string(), v.into_iter().map(|x| txt(&x)).collect())).collect())?))?;
            say("len, is_empty, size_hint", format!("{:?}", (want.0.len(), want.0.is_empty(), (want.0.len(), Some(want.0.len())))), format!("{:?}", (p.len(), p.is_empty(), p.iter().size_hint())))?;
            for k in KEYS {
                let v = want.0.get(k).cloned();
                let i = id(k);
                say(k, format!("{v:?}"), format!("{:?}", p.contains(&i).then(|| p.get(&i).map(|x| txt(x)).collect::<Vec<_>>())))?;
                if !p.contains(&i) { say(k, "0 objects".into(), format!("{} objects", p.get(&i).count()))?; }
                let any = p.get_any(&i).map(|x| txt(x));
                let ok = match (&any, &v) { (None, None) => true, (None, Some(v)) => v.is_empty(), (Some(x), Some(v)) => v.contains(x), (Some(_), None) => false };
                if !ok { return Err((format!("one of {v:?}"), format!("{any:?}"))) }
            }
            Ok(())
        }
    };
}
map_checks!(forward, Properties<IriBuf, BlankIdBuf>, Obj, obj, text);
map_checks!(reverse, ReverseProperties<IriBuf, BlankIdBuf>, Nod, |s: &S| obj(s).into_indexed_node().unwrap(), ntext);

/// a node as built by the setters from a node read
fn rebuilt(n: &Node) -> Node {
    let mut r = match &n.id { Some(i) => Node::with_id(i.clone()), None => Node::new() };
    if let Some(t) = &n.types { r.types_mut_or_default().extend(t.iter().cloned()) }
    r.set_graph_entry(n.graph_entry().cloned());
    r.set_included(n.included_entry().cloned());
    r.set_reverse_properties(n.reverse_properties_entry().cloned());
    for (k, v) in n.properties().iter() { if v.len() == 1 { r.insert(k.clone(), v[0].clone()) } else { r.insert_all(k.clone(), v.iter().cloned()) } }
    r
}
fn node(o: &S) -> Result<(), (String, String)> {
    let say = |what: &str, a: String, b: String| -> Result<(), (String, String)> { if a == b { Ok(()) } else { Err((format!("{what}: {a}"), format!("{what}: {b}"))) } };
    let x = obj(o);
    let m = o.as_object().unwrap();
    let (isv, isl) = (m.contains_key("@value"), m.contains_key("@list"));
    let isn = !isv && !isl;
    say("is_value, is_list, is_node", format!("{:?}", (isv, isl, isn)), format!("{:?}", (x.is_value(), x.is_list(), x.is_node())))?;
    say("as_*", format!("{:?}", (isv, isl, isn)), format!("{:?}", (x.as_value().is_some(), x.as_list().is_some(), x.as_node().is_some())))?;
    let mut y = x.clone();
    say("as_*_mut", format!("{:?}", (isv, isl, isn)), format!("{:?}", (y.as_value_mut().is_some(), y.as_list_mut().is_some(), y.as_node_mut().is_some())))?;
    say("into_*", format!("{:?}", (isv, isl, isn)), format!("{:?}", (x.inner().clone().into_value().is_some(), x.inner().clone().into_list().is_some(), x.inner().clone().into_node().is_some())))?;
    let whole = text(&x);
    let again: Vec<String> = [x.clone().into_indexed_value().map(|v| text(&v.map_inner(Object::Value))), x.clone().into_indexed_list().map(|v| text(&v.map_inner(Object::List))), x.clone().into_indexed_node().map(|v| text(&v.cast()))].into_iter().flatten().collect();
    say("into_indexed_*", format!("{:?}", [&whole]), format!("{again:?}"))?;
    say("index", format!("{:?}", m.get("@index").map(|i| i.as_str().unwrap())), format!("{:?}", x.index()))?;
    let mut y = x.clone();
    y.set_index(Some("other".into()));
    let mut t = o.clone();
    t["@index"] = json!("other");
    say("set_index", canon_in(&t, ""), text(&y))?;
    let (inner, index) = x.clone().into_parts();
    say("into_parts", whole.clone(), text(&Indexed::new(inner, index)))?;
    say("into_inner", { let mut t = o.clone(); t.as_object_mut().unwrap().remove("@index"); canon_in(&t, "") }, text(&Indexed::none(x.clone().into_inner())))?;
    let nid = if isn { m.get("@id").map(|i| i.as_str().unwrap().to_string()) } else { None };
    say("id", format!("{nid:?}"), format!("{:?}", x.id().map(|i| i.to_string())))?;
    let iri = nid.clone().filter(|i| !i.starts_with("_:"));
    say("as_iri", format!("{iri:?}"), format!("{:?}", x.as_iri().map(|i| i.to_string())))?;
    let extra = m.keys().any(|k| !["@id", "@graph", "@index"].contains(&k.as_str()));
    let graph = isn && m.contains_key("@graph") && !extra;
    say("is_graph", graph.to_string(), x.is_graph().to_string())?;
    if let Some(l) = x.as_list() {
        let want: Vec<String> = m["@list"].as_array().unwrap().iter().map(|x| canon_in(x, "")).collect();
        let see = |l: &List<IriBuf, BlankIdBuf>| -> Vec<String> { l.iter().map(text).collect() };
        say("list", format!("{:?}", (&want, want.len(), want.is_empty())), format!("{:?}", (see(l), l.len(), l.is_empty())))?;
        say("list entry", format!("{:?}", (&want, &want, &want)), format!("{:?}", (l.entry().iter().map(text).collect::<Vec<_>>(), l.as_slice().iter().map(text).collect::<Vec<_>>(), l.clone().into_entry().iter().map(text).collect::<Vec<_>>())))?;
        let mut k = l.clone();
        k.push(obj(&json!({"@value": "pushed"})));
        let mut w = want.clone();
        w.push(canon_in(&json!({"@value": "pushed"}), ""));
        say("list push", format!("{w:?}"), format!("{:?}", see(&k)))?;
        let last = k.pop().map(|o| text(&o));
        say("list pop", format!("{:?}", (w.last(), &want)), format!("{:?}", (last.as_ref(), see(&k))))?;
    }
    let simple = graph && !m.contains_key("@id");
    match x.clone().into_unnamed_graph() {
        Ok(g) => say("into_unnamed_graph", format!("{:?}", simple.then(|| m["@graph"].as_array().unwrap().len())), format!("{:?}", Some(g.len())))?,
        Err(o) => say("into_unnamed_graph", if simple { "its graph".into() } else { whole.clone() }, text(&o))?,
    }
    if let Some(n) = x.as_node() {
        let keys = ["@id", "@type", "@graph", "@included", "@reverse"];
        let terms = [Keyword::Id, Keyword::Type, Keyword::Graph, Keyword::Included, Keyword::Reverse];
        for (k, t) in keys.iter().zip(terms) { say("has_key", format!("{k} {}", m.contains_key(*k)), format!("{k} {}", n.has_key(&Term::Keyword(t))))?; }
        say("has_key", "@value false".into(), format!("@value {}", n.has_key(&Term::Keyword(Keyword::Value))))?;
        for k in KEYS { say("has_key", format!("{k} {}", m.contains_key(k)), format!("{k} {}", n.has_key(&Term::Id(id(k)))))?; }
        for k in KEYS {
            let w: Vec<String> = m.get(k).map_or(vec![], |v| v.as_array().unwrap().iter().map(|x| canon_in(x, "")).collect());
            say("get", format!("{w:?}"), format!("{:?}", n.get(&id(k)).map(text).collect::<Vec<_>>()))?;
            let any = n.get_any(&id(k)).map(text);
            if any.is_some() == w.is_empty() || any.as_ref().map_or(false, |a| !w.contains(a)) { return Err((format!("one of {w:?}"), format!("{any:?}"))) }
        }
        let types: Vec<String> = m.get("@type").map_or(vec![], |t| t.as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect());
        say("types", format!("{types:?}"), format!("{:?}", n.types().iter().map(|t| t.to_string()).collect::<Vec<_>>()))?;
        for t in ["http://a/1", "http://a/2", "urn:z", "_:b1"] { say("has_type", format!("{t} {}", types.iter().any(|x| x == t)), format!("{t} {}", n.has_type(&id(t))))?; }
        let empty = m.keys().all(|k| k == "@id" || k == "@index");
        say("is_empty, is_graph, is_simple_graph, is_unnamed_graph", format!("{:?}", (empty, graph, simple, simple)), format!("{:?}", (n.is_empty(), n.is_graph(), n.is_simple_graph(), n.is_unnamed_graph())))?;
        let there = |k: &str| m.contains_key(k);
        let mut y = n.clone();
        say("entries there", format!("{:?}", [there("@graph"), there("@graph"), there("@graph"), there("@graph"), there("@included"), there("@included"), there("@included"), there("@included"), there("@reverse"), there("@reverse"), there("@reverse")]),
            format!("{:?}", [n.graph().is_some(), n.graph_entry().is_some(), y.graph_mut().is_some(), y.graph_entry_mut().is_some(), n.included().is_some(), n.included_entry().is_some(), y.included_mut().is_some(), y.included_entry_mut().is_some(), n.reverse_properties().is_some(), n.reverse_properties_entry().is_some(), y.reverse_properties_mut().is_some()]))?;
        say("rebuilt", bare(n), bare(&rebuilt(n)))?;
        // entries that are missing are made, empty
        let mut y = n.clone();
        say("or_default", format!("{:?}", (m.get("@included").map_or(0, |i| i.as_array().unwrap().len()), m.get("@reverse").map_or(0, |i| i.as_object().unwrap().len()), types.len())), format!("{:?}", (n.clone().included_mut_or_default().len(), y.reverse_properties_mut_or_default().len(), n.clone().types_mut_or_default().len())))?;
        say("or_insert", format!("{}", m.get("@reverse").map_or(0, |i| i.as_object().unwrap().len())), format!("{}", n.clone().reverse_properties_or_default().len()))?;
        let (mut y, mut z) = (n.clone(), n.clone());
        let new = vec![id("urn:new")];
        let w = if there("@type") { types.clone() } else { vec!["urn:new".to_string()] };
        say("types or_insert", format!("{w:?} {w:?}"), format!("{:?} {:?}", y.types_mut_or_insert(new.clone()).iter().map(|t| t.to_string()).collect::<Vec<_>>(), z.types_mut_or_insert_with(|| new).iter().map(|t| t.to_string()).collect::<Vec<_>>()))?;
        // the entries, each once
        let mut e: Entries<IriBuf, BlankIdBuf> = n.entries();
        let mut names = vec![];
        let mut left = vec![e.size_hint().0];
        while let Some(x) = e.next() {
            names.push(match x { EntryRef::Id(_) => "@id".to_string(), EntryRef::Type(_) => "@type".into(), EntryRef::Graph(_) => "@graph".into(), EntryRef::Included(_) => "@included".into(), EntryRef::Reverse(_) => "@reverse".into(), EntryRef::Property(k, v) => format!("{k} {:?}", v.iter().map(text).collect::<Vec<_>>()) });
            left.push(e.size_hint().0);
        }
        let mut want: Vec<String> = m.iter().filter(|(k, _)| *k != "@index").map(|(k, v)| if k.starts_with('@') { k.clone() } else { format!("{k} {:?}", v.as_array().unwrap().iter().map(|x| canon_in(x, "")).collect::<Vec<_>>()) }).collect();
        want.sort();
        names.sort();
        say("entries", format!("{want:?}"), format!("{names:?}"))?;
        say("entries to come", format!("{:?}", (0..=want.len()).rev().collect::<Vec<_>>()), format!("{left:?}"))?;
        if let Some(g) = n.graph() {
            let y: Node = Node::new_graph(id("urn:g"), g.clone());
            say("new_graph", "true Some(\"urn:g\") true".into(), format!("{} {:?} {}", y.is_graph(), y.id.as_ref().map(|i| i.to_string()), y.graph() == Some(g)))?;
        }
    }
    Ok(())
}
fn sets(v: &[u8]) -> Result<(), (String, String)> {
    let mut m: Multiset<u8> = Multiset::new();
    let mut want: Vec<u8> = vec![];
    for (i, x) in v.iter().enumerate() {
        if i % 2 == 0 { m.insert(*x); want.push(*x) } else {
            let new = !want.contains(x);
            if new { want.push(*x) }
            if m.insert_unique(*x) != new { return Err((format!("{new}"), format!("{}", !new))) }
        }
        if (0..8).any(|y| m.contains(&y) != want.contains(&y)) { return Err((format!("{want:?}"), "other members".into())) }
    }
    m.extend(v.iter().copied());
    want.extend(v);
    let got = (m.as_slice().to_vec(), m.iter().copied().collect::<Vec<_>>(), m.len(), m.is_empty(), m.into_iter().collect::<Vec<_>>());
    let want = (want.clone(), want.clone(), want.len(), want.is_empty(), want);
    if got == want { Ok(()) } else { Err((format!("{want:?}"), format!("{got:?}"))) }
}
pub fn run(r: &mut Run) {
    let g = Gen::default();
    for _ in 0..r.n(1500, 30000) {
        // as they are read: equal members of sets are one
        let d = r.rng.below(2);
        let mut pool: Vec<S> = (0..4).map(|_| sv(&obj(&g.object(&mut r.rng, d)).into_json_with(&()))).collect();
        let mut twin = pool[0].clone();
        if r.rng.chance(1, 2) { twin["@index"] = json!("twin") }
        pool.push(twin);
        let o = ops(&mut r.rng, &pool);
        r.case("a property map holds what is put into it", &format!("{o:?}"), || forward(&o));
        let pool: Vec<S> = (0..4).map(|_| { let mut n = g.node(&mut r.rng, d); n.as_object_mut().unwrap().remove("@index"); sv(&obj(&n).into_json_with(&())) }).collect();
        let o = ops(&mut r.rng, &pool);
        r.case("a reverse property map holds what is put into it", &format!("{o:?}"), || reverse(&o));
        let d = r.rng.below(3);
        let x = sv(&obj(&g.object(&mut r.rng, d)).into_json_with(&()));
        r.case("objects give and take what they hold", &x.to_string(), || node(&x));
        let k = r.rng.below(9);
        let v: Vec<u8> = (0..k).map(|_| r.rng.below(6) as u8).collect();
        r.case("a multiset holds what is put into it", &format!("{v:?}"), || sets(&v));
    }
    for x in [json!({"@graph": []}), json!({"@graph": [], "@id": "urn:g"}), json!({"@graph": [], "@index": "i"}), json!({"@graph": [], "http://p/p": []}), json!({"@graph": [], "@type": ["urn:t"]}), json!({"@graph": [], "@included": []}), json!({"@graph": [], "@reverse": {}}), json!({"@id": "urn:g"}), json!({}), json!({"@list": []})] {
        r.case("objects give and take what they hold", &x.to_string(), || node(&x));
    }
}
