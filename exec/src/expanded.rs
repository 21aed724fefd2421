//! The expanded form and its JSON text.
use crate::gen::{canon, canon_in, jv, rearrange, Gen};
use crate::run::Run;
use crate::unordered::{doc, obj};
use json_ld_core::{ExpandedDocument, IndexedObject, TryFromJson};
use json_ld_syntax::IntoJsonWithContext;
use iref::IriBuf;
use rdf_types::BlankIdBuf;
use serde_json::{json, Value as S};

fn sv(v: &json_syntax::Value) -> S {
    serde_json::from_str(&crate::util::show(v)).unwrap()
}
fn read(v: &json_syntax::Value) -> bool {
    IndexedObject::<IriBuf, BlankIdBuf>::try_from_json_in(&mut (), v.clone()).is_ok()
}
/// everything `canon` ignores about language tags is kept here
fn langs(v: &S, out: &mut Vec<String>) {
    match v {
        S::Object(o) => o.iter().for_each(|(k, v)| if k == "@language" { out.push(v.to_string()) } else { langs(v, out) }),
        S::Array(a) => a.iter().for_each(|v| langs(v, out)),
        _ => (),
    }
}
/// positions of the objects of a document: paths of keys and indices
fn paths(v: &S, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        S::Object(o) => {
            out.push(at.clone());
            if o.contains_key("@value") { return }
            for (k, v) in o { let mut p = at.clone(); p.push(k.clone()); paths(v, p, out) }
        }
        S::Array(a) => for (i, v) in a.iter().enumerate() { let mut p = at.clone(); p.push(i.to_string()); paths(v, p, out) },
        _ => (),
    }
}
fn at<'a>(v: &'a mut S, p: &[String]) -> &'a mut S {
    match p.split_first() {
        None => v,
        Some((h, t)) => match v {
            S::Object(o) => at(o.get_mut(h).unwrap(), t),
            S::Array(a) => at(&mut a[h.parse::<usize>().unwrap()], t),
            _ => unreachable!(),
        },
    }
}

pub fn run(r: &mut Run) {
    let g = Gen::default();
    for _ in 0..r.n(700, 9000) {
        let d = r.rng.below(4);
        let a = g.object(&mut r.rng, d);
        let t = a.to_string();
        r.eq("writing what was read gives the same JSON", &t, canon_in(&a, ""), || canon_in(&sv(&obj(&a).into_json_with(&())), ""));
        r.eq("language tags keep their text", &t, { let mut l = vec![]; langs(&a, &mut l); l.sort(); l.dedup(); l }, || { let mut l = vec![]; langs(&sv(&obj(&a).into_json_with(&())), &mut l); l.sort(); l.dedup(); l });
        r.eq("reading what was written gives the same object", &t, true, || obj(&a) == obj(&sv(&obj(&a).into_json_with(&()))));
        r.eq("identifiers held in a vocabulary read back", &t, canon_in(&a, ""), || {
            let mut voc: rdf_types::vocabulary::IndexVocabulary = Default::default();
            let o = IndexedObject::<rdf_types::vocabulary::IriIndex, rdf_types::vocabulary::BlankIdIndex>::try_from_json_in(&mut voc, jv(&a)).unwrap_or_else(|e| panic!("refused: {e:?}"));
            canon_in(&sv(&o.into_json_with(&voc)), "")
        });
        let b = rearrange(&mut r.rng, &a, "");
        r.eq("the order of entries does not matter to reading", &format!("{a} / {b}"), true, || obj(&a) == obj(&b));
        // one fault in one place
        let mut ps = vec![];
        paths(&a, vec![], &mut ps);
        ps.retain(|p| p.last().map_or(true, |k| k != "@reverse"));
        let p = r.rng.pick(&ps).clone();
        let mut c = a.clone();
        let o = at(&mut c, &p).as_object_mut().unwrap();
        let value = o.contains_key("@value");
        let list = o.contains_key("@list");
        let mut dup = None;
        match r.rng.below(9) {
            0 => { o.insert("@context".into(), json!({})); }
            1 => { o.insert("@index".into(), r.rng.pick(&[json!(1), json!(["i"]), json!(null)]).clone()); }
            2 if value => { o.insert((*r.rng.pick(&["@id", "@list", "http://p/p", "@graph", "x"])).into(), json!([])); }
            2 if list => { o.insert((*r.rng.pick(&["@id", "@type", "http://p/p", "@graph", "@language"])).into(), json!("a")); }
            3 if value => { o.insert("@language".into(), json!("en")); o.insert("@type".into(), json!("http://a/1")); }
            3 if list => { o.insert("@list".into(), json!({"@value": "a"})); }
            4 if value => { o.insert("@direction".into(), json!("up")); }
            5 if value && o.get("@type") != Some(&json!("@json")) => { o.remove("@language"); o.remove("@direction"); o.insert("@value".into(), json!({"a": []})); }
            2 | 3 => { o.insert("@id".into(), json!(["http://a/1"])); }
            4 => { o.insert("@graph".into(), json!({})); o.insert("@list".into(), json!([])); }
            5 => { o.insert("http://p/p".into(), json!("a")); }
            6 if !value && !list => { o.insert("@type".into(), json!("http://a/1")); }
            7 if !value && !list => { o.insert("@reverse".into(), json!({"http://p/p": [{"@value": "a", "@id": "http://a/1"}]})); }
            _ => dup = Some(()),
        }
        if dup.is_none() {
            r.eq("what is not in expanded form is refused", &c.to_string(), false, || read(&jv(&c)));
        } else {
            // a key given twice
            let keys: Vec<String> = o.keys().filter(|k| k.starts_with('@')).cloned().collect();
            if keys.is_empty() { continue }
            let k = r.rng.pick(&keys).clone();
            let v = o[&k].clone();
            o.insert("@@twin".into(), v);
            let t = c.to_string().replace("\"@@twin\"", &format!("{k:?}"));
            let v = crate::util::j(&t);
            r.eq("a keyword given twice is refused", &t, false, || read(&v));
        }
    }
    for _ in 0..r.n(150, 2000) {
        let a = g.doc(&mut r.rng, 3);
        r.eq("documents are written and read back", &a.to_string(), (canon(&a), true), || {
            let w = S::Array(doc(&a).into_objects().into_iter().map(|o| sv(&o.into_json_with(&()))).collect());
            (canon(&w), doc(&w) == doc(&a))
        });
    }
    for s in [json!({}), json!(1), json!(null), json!("a"), json!([[]]), json!([1]), json!([{"@value": "a"}, null])] {
        r.eq("a document is an array of objects", &s.to_string(), false, || ExpandedDocument::<IriBuf, BlankIdBuf>::try_from_json_in(&mut (), jv(&s)).is_ok());
    }
}
