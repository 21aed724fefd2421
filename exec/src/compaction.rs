//! Executable contracts of compaction: the real result against the independent reading in `refcomp`.
use crate::expansion::Doc;
use crate::refcomp::{compact, Flags};
use crate::refctx::{picture, Remote};
use crate::run::{Rng, Run};
use crate::util;
use serde_json::{json, Map, Value as V};

fn sorted(v: &V) -> V {
    match v {
        V::Object(o) => { let mut e: Vec<(String, V)> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect(); e.sort_by(|a, b| a.0.cmp(&b.0)); V::Object(e.into_iter().collect()) }
        V::Array(a) => V::Array(a.iter().map(sorted).collect()),
        v => v.clone(),
    }
}
pub fn parse(expanded: &V) -> Result<json_ld::ExpandedDocument, String> {
    use json_ld_core::TryFromJson;
    json_ld::ExpandedDocument::try_from_json_in(&mut (), util::j(&expanded.to_string())).map_err(|e| format!("{e:?}"))
}
pub fn print(d: &json_ld::ExpandedDocument) -> V {
    use json_ld_syntax::IntoJsonWithContext;
    serde_json::from_str(&util::show(&json_syntax::Value::Array(d.clone().into_objects().into_iter().map(|x| x.into_json_with(&())).collect()))).unwrap()
}
pub struct Case { pub expanded: V, pub context: V, pub base: Option<&'static str>, pub v10: bool, pub arrays: bool, pub ordered: bool }
impl Case {
    pub fn text(&self) -> String {
        format!("{} with {}{}{}{}{}", self.expanded, self.context, self.base.map(|b| format!(" base {b}")).unwrap_or_default(), if self.v10 { " (1.0)" } else { "" }, if self.arrays { "" } else { " (arrays kept)" }, if self.ordered { " (ordered)" } else { "" })
    }
    fn context_options(&self) -> json_ld_context_processing::Options {
        let mut o = json_ld_context_processing::Options::default();
        if self.v10 { o.processing_mode = json_ld::ProcessingMode::JsonLd1_0 }
        o
    }
    pub fn active(&self, docs: &util::Docs) -> Option<json_ld_core::Context> {
        util::process_on(&json_ld_core::Context::new(self.base.map(util::iri)), &self.context.to_string(), docs, self.base, self.context_options()).ok()
    }
    pub fn real(&self, docs: &util::Docs, doc: &json_ld::ExpandedDocument) -> Option<Result<V, String>> {
        use json_ld_compaction::Compact;
        use json_ld_context_processing::Process;
        let l = util::context(&self.context.to_string()).ok()?;
        let start = json_ld_core::Context::new(self.base.map(util::iri));
        let p = util::block(l.process_full(&mut (), &start, docs, self.base.map(util::iri), self.context_options(), ())).ok()?;
        let mut o = json_ld_compaction::Options::default();
        if self.v10 { o.processing_mode = json_ld::ProcessingMode::JsonLd1_0 }
        o.compact_arrays = self.arrays;
        o.ordered = self.ordered;
        Some(util::block(doc.compact_full(&mut (), p.as_ref(), docs, o)).map(|j| serde_json::from_str(&util::show(&j)).unwrap()).map_err(|e| e.code().to_string()))
    }
    fn verdict(&self) -> Result<(), (String, String)> {
        let docs = util::docs(&[]);
        if !clean(&self.expanded) { return Ok(()) }
        let Ok(d) = parse(&self.expanded) else { return Ok(()) };
        let Some(c) = self.active(&docs) else { return Ok(()) };
        let want = compact(&print(&d), &picture(&c), &Remote::new(), Flags { v10: self.v10, arrays: self.arrays });
        let Some(got) = self.real(&docs, &d) else { return Ok(()) };
        match (want, got) {
            (Ok(w), Ok(mut g)) => {
                if let Some(o) = g.as_object_mut() {
                    let e = o.remove("@context");
                    let nothing = |v: &V| *v == json!({}) || *v == json!([]) || v.is_null();
                    let given: V = crate::refctx::normal(&self.context);
                    let want = if w == json!({}) || nothing(&given) { None } else { Some(given.clone()) };
                    if e != want { return Err((format!("@context {want:?}"), format!("@context {e:?}"))) }
                }
                let (w, g) = (sorted(&w).to_string(), sorted(&g).to_string());
                if w != g { return Err((w, g)) }
            }
            (Err(w), _) if w == crate::refcomp::UNSPECIFIED => (),
            (Err(w), Err(g)) => if w != g { return Err((w, g)) },
            (w, g) => return Err((format!("{:?}", w.map(|w| w.to_string())), format!("{:?}", g.map(|w| w.to_string())))),
        }
        Ok(())
    }
}
pub fn check(r: &mut Run, clause: &str, c: Case) {
    let n = r.failures.len();
    r.case(clause, &c.text(), || c.verdict());
    if r.failures.len() > n && n < 30 {
        let quiet = |c: &Case| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.verdict().is_err())).unwrap_or(true);
        let with = |e: &V, x: &V| Case { expanded: e.clone(), context: x.clone(), ..c };
        let e = util::shrink(&c.expanded, &|e| e.is_array() && quiet(&with(e, &c.context)));
        let x = util::shrink(&c.context, &|x| quiet(&with(&e, x)));
        let e = util::shrink(&e, &|e| e.is_array() && quiet(&with(e, &x)));
        let c = with(&e, &x);
        r.failures.pop();
        r.case(clause, &c.text(), || c.verdict());
    }
}
const PROPS: &[&str] = &["http://p/p", "http://p/q", "http://p/r"];
const IRIS: &[&str] = &["http://a/1", "http://a/2", "http://b/x", "urn:z", "http://p/p", "http://p/sub/x", "http://b/", "http://b/@type", "http://b/@foo", "http://b/c:d", "http://b/c/d/e", "http://b/c/", "http://b/c/d?q#f", "http://b?x", "urn:a:b", "t1:x", "s:y", "http://a/1#me", "_:b0", "_:b1", "relative", "http://p/t", "http://p/t0"];
/// a context in which many terms stand for few identifiers
fn crowded(r: &mut Rng, v10: bool) -> V {
    let mut m = Map::new();
    let n = 2 + r.below(8);
    for _ in 0..n {
        let t = *r.pick(&["t", "t0", "t1", "s", "aa", "b", "longer", "urn", "http", "t:0", "t:sub/x", "aa:2", "é"]);
        if t.contains(':') { if r.chance(1, 4) { m.insert(t.into(), json!({"@id": t, "@type": "@id"})); } continue }
        let id = if r.chance(1, 8) { *r.pick(&["@id", "@type", "@graph", "@list", "@index", "@none", "@value", "@included", "@language", "@reverse", "@json", "@set"]) }
            else if r.chance(1, 4) { *r.pick(&["http://p/", "http://a/", "http://a/1#", "urn:", "http://b/c/", "http://p/t", "urn:a:", "http://p/p#"]) } else { *r.pick(PROPS) };
        if id.starts_with('@') { m.insert(t.into(), json!(id)); continue }
        let mut d = Map::new();
        let rev = r.chance(1, 10);
        d.insert(if rev { "@reverse" } else { "@id" }.into(), json!(id));
        if r.chance(1, 3) { d.insert("@type".into(), json!(*r.pick(if v10 { &["@id", "@vocab", "http://a/1", "urn:z"] } else { &["@id", "@vocab", "@json", "@none", "http://a/1", "urn:z"] }))); }
        else {
            if r.chance(1, 4) { d.insert("@language".into(), r.pick(&[json!("en"), json!("EN"), json!("fr"), json!(null)]).clone()); }
            if !v10 && r.chance(1, 5) { d.insert("@direction".into(), r.pick(&[json!("ltr"), json!("rtl"), json!(null)]).clone()); }
        }
        if r.chance(1, 2) {
            let c: V = if rev { json!(*r.pick(&["@set", "@index"])) } else if v10 { json!(*r.pick(&["@set", "@index", "@list", "@language"])) } else {
                r.pick(&[json!("@set"), json!("@index"), json!("@list"), json!("@language"), json!("@id"), json!("@type"), json!("@graph"), json!(["@set", "@index"]), json!(["@language", "@set"]), json!(["@id", "@set"]), json!(["@type", "@set"]), json!(["@graph", "@set"]), json!(["@graph", "@id"]), json!(["@graph", "@index"]), json!(["@graph", "@id", "@set"]), json!(["@graph", "@index", "@set"])]).clone() };
            let typed = c == json!("@type") || c.get(0) == Some(&json!("@type"));
            if typed && !matches!(d.get("@type").and_then(|t| t.as_str()), None | Some("@id" | "@vocab")) { d.remove("@type"); }
            let indexed = !rev && !v10 && c.to_string().contains("@index");
            d.insert("@container".into(), c);
            if indexed && r.chance(1, 2) { d.insert("@index".into(), json!(*r.pick(&["http://p/q", "http://p/r", "http://p/q", "t", "urn:z"]))); }
        }
        if !v10 && !rev && r.chance(1, 12) { d.insert("@nest".into(), json!("@nest")); }
        if !v10 && r.chance(1, 4) { d.insert("@prefix".into(), json!(r.chance(1, 2))); }
        if !v10 && r.chance(1, 12) { d.insert("@context".into(), r.pick(&[json!({"t": "http://p/q"}), json!({"@vocab": "http://p/"}), json!({"@language": "fr"}), json!({"@propagate": false, "s": "http://p/r"}), json!(null)]).clone()); }
        m.insert(t.into(), V::Object(d));
    }
    if r.chance(1, 3) { m.insert("@vocab".into(), json!(*r.pick(&["http://p/", "http://a/", "http://p/p#", "urn:"]))); }
    if r.chance(1, 4) { m.insert("@base".into(), json!(*r.pick(&["http://b/", "http://b/c/d", "http://a/1", "http://b/c/d?q"]))); }
    if r.chance(1, 3) { m.insert("@language".into(), json!(*r.pick(&["en", "Fr"]))); }
    if r.chance(1, 5) && !v10 { m.insert("@direction".into(), json!(*r.pick(&["ltr", "rtl"]))); }
    if r.chance(1, 10) && !v10 { m.insert("@type".into(), json!({"@container": "@set"})); }
    V::Object(m)
}
fn reid(r: &mut Rng, v: &mut V) {
    match v {
        V::Object(o) => {
            if let (Some(i), true) = (o.get_mut("@id"), r.chance(1, 2)) { *i = json!(*r.pick(IRIS)) }
            if !o.contains_key("@value") { if let (Some(t), true) = (o.get_mut("@type").and_then(|t| t.get_mut(0)), r.chance(1, 2)) { *t = json!(*r.pick(IRIS)) } for (_, v) in o.iter_mut() { reid(r, v) } }
        }
        V::Array(a) => for x in a { reid(r, x) },
        _ => (),
    }
}
pub fn run(r: &mut Run) {
    let algorithm = "documents compact as the algorithm says";
    for i in 0..r.n(5000, 40000) {
        let v10 = i % 16 == 15;
        let base = *r.rng.pick(&[Some("http://base/d/doc"), Some("http://e/"), None]);
        let (doc, context) = { let mut d = Doc { r: &mut r.rng, v10, wild: 0 }; let x = d.doc(); let c = if i % 2 == 0 { x.get("@context").or(x.get(0).and_then(|x| x.get("@context"))).cloned().unwrap_or(json!({})) } else { d.context(0) }; (x, c) };
        let Ok(expanded) = crate::expansion::real(&doc, &Remote::new(), base, Default::default()) else { continue };
        let expanded = crate::expansion::plain(&expanded);
        check(r, algorithm, Case { expanded, context, base, v10, arrays: i % 5 != 0, ordered: i % 3 == 0 });
    }
    let g = crate::gen::Gen::default();
    for i in 0..r.n(6000, 40000) {
        let v10 = i % 16 == 15;
        let base = *r.rng.pick(&[Some("http://b/c/d"), Some("http://b/"), None]);
        let mut expanded = if i % 4 == 0 { json!([{PROPS[0]: [g.object(&mut r.rng, 1)]}]) } else { g.doc(&mut r.rng, 2) };
        reid(&mut r.rng, &mut expanded);
        let context = crowded(&mut r.rng, v10);
        check(r, algorithm, Case { expanded, context, base, v10, arrays: i % 5 != 0, ordered: i % 3 == 0 });
    }
    // nodes in a property-valued index, with several values of the index property (whether an absolute IRI given as
    // index is compacted with a prefix depends on the edition of the algorithm, and is left out)
    for i in 0..r.n(1500, 10000) {
        let n = 1 + r.rng.below(2);
        let nodes: Vec<V> = (0..n).map(|_| {
            let mut m = Map::new();
            if r.rng.chance(1, 2) { m.insert("@id".into(), json!(*r.rng.pick(&["http://a/1", "http://a/2"]))); }
            for k in ["http://k/a", "http://k/b"] {
                let j = r.rng.below(4);
                if j > 0 { m.insert(k.into(), V::Array((0..j).map(|_| r.rng.pick(&[json!({"@value": "x"}), json!({"@value": "y"}), json!({"@value": "z"}), json!({"@value": 1}), json!({"@value": "x", "@language": "en"}), json!({"@id": "http://a/x"})]).clone()).collect())); }
            }
            if r.rng.chance(1, 4) { m.insert("@index".into(), json!("i")); }
            if r.rng.chance(1, 6) { json!({"@graph": [V::Object(m)]}) } else { V::Object(m) }
        }).collect();
        let mut context = json!({"p": {"@id": "http://p/p", "@container": r.rng.pick(&[json!("@index"), json!(["@index", "@set"]), json!("@index"), json!(["@graph", "@index"])]).clone(), "@index": *r.rng.pick(&["http://k/a", "ka", "k:a"])}});
        let c = context.as_object_mut().unwrap();
        for (t, d) in [("ka", json!({"@id": "http://k/a"})), ("ka", json!({"@id": "http://k/a", "@container": "@set"})), ("ka", json!({"@id": "http://k/a", "@type": "@id"})), ("k", json!("http://k/")), ("@language", json!("en")), ("kb", json!("http://k/b"))] { if r.rng.chance(1, 2) && !(t == "k" && c["p"]["@index"] == "http://k/a") { c.insert(t.into(), d); } }
        check(r, algorithm, Case { expanded: json!([{"@id": "http://a/s", "http://p/p": nodes}]), context, base: None, v10: false, arrays: i % 5 != 0, ordered: true });
    }
}
/// P19: one property with one value, so that the term chosen is all there is to see
pub fn terms(r: &mut Run) {
    set_later(r);
    let clause = "the term, compact IRI or relative form chosen is the one IRI compaction calls for";
    let g = crate::gen::Gen::default();
    for i in 0..r.n(12000, 90000) {
        let v10 = i % 16 == 15;
        let base = *r.rng.pick(&[Some("http://b/c/d"), Some("http://b/"), None]);
        let o = match i % 4 {
            0 => g.object(&mut r.rng, 1),
            1 => json!({"@id": *r.rng.pick(IRIS)}),
            2 => { let n = r.rng.below(4); json!({"@list": (0..n).map(|_| list_item(&mut r.rng)).collect::<Vec<_>>()}) }
            _ => list_item(&mut r.rng),
        };
        let mut o = o;
        if i % 3 == 0 && r.rng.chance(1, 3) { if let Some(m) = o.as_object_mut() { m.insert("@index".into(), json!("i")); } }
        let id = *r.rng.pick(IRIS);
        let p = if r.rng.chance(1, 3) { "http://p/sub/x" } else { *r.rng.pick(PROPS) };
        let mut expanded = if r.rng.chance(1, 8) && o.get("@value").is_none() && o.get("@list").is_none() { json!([{"@id": id, "@reverse": {p: [o]}}]) } else { json!([{"@id": id, p: [o]}]) };
        if i % 4 == 1 { reid(&mut r.rng, &mut expanded) }
        let context = crowded(&mut r.rng, v10);
        check(r, clause, Case { expanded, context, base, v10, arrays: i % 5 != 0, ordered: true });
    }
}
/// what is set on a context after its inverse was asked for counts (a copy has no inverse yet and makes its own)
fn set_later(r: &mut Run) {
    use json_ld_core::context::inverse::{LangSelection, Selection, TypeSelection};
    use json_ld_core::{Container, Context, Direction, LenientLangTagBuf, Nullable, Term, Type};
    let clause = "the term chosen is the one of the context as it is now";
    for _ in 0..r.n(300, 4000) {
        let (c1, c2) = (crowded(&mut r.rng, false), crowded(&mut r.rng, false));
        let docs = util::docs(&[]);
        let make = |c: &V| util::process_on(&Context::new(None), &c.to_string(), &docs, None, Default::default()).ok();
        let (Some(mut a), Some(b)) = (make(&c1), make(&c2)) else { continue };
        a.inverse();
        let mut did = String::new();
        for _ in 0..1 + r.rng.below(2) {
            match r.rng.below(8) {
                0 | 1 => { let l = *r.rng.pick(&[None, Some("en"), Some("fr"), Some("de")]); did += &format!(" language={l:?}"); a.set_default_language(l.map(|l| LenientLangTagBuf::new(l.to_string()).0)) }
                2 | 3 => { let d = *r.rng.pick(&[None, Some(Direction::Ltr), Some(Direction::Rtl)]); did += &format!(" direction={d:?}"); a.set_default_base_direction(d) }
                4 => { a.set_base_iri(Some(util::iri("http://b/x"))); did += " base" }
                5 => { a.set_vocabulary(b.vocabulary().cloned()); did += " vocab" }
                6 => { a.set_previous_context(b.clone()); did += " previous" }
                _ => {
                    let keys: Vec<_> = b.definitions().iter().filter_map(|x| match x { json_ld_core::context::BindingRef::Normal(k, d) => Some((k.clone(), d.clone())), _ => None }).collect();
                    if keys.is_empty() { continue }
                    let (k, d) = keys[r.rng.below(keys.len())].clone();
                    did += &format!(" term {k}");
                    a.set_normal(k, if r.rng.chance(1, 4) { None } else { Some(d) });
                }
            }
        }
        let fresh = a.clone();
        let text = format!("{c1} then{did} of {c2}");
        r.case(clause, &text, || {
            let en = LenientLangTagBuf::new("en".to_string()).0; let fr = LenientLangTagBuf::new("fr".to_string()).0;
            let mut sels = vec![("any", Selection::Any)];
            for t in [TypeSelection::Any, TypeSelection::Reverse, TypeSelection::Type(Type::Id), TypeSelection::Type(Type::Vocab), TypeSelection::Type(Type::None), TypeSelection::Type(Type::Json), TypeSelection::Type(Type::Iri(util::iri("http://a/1")))] { sels.push(("type", Selection::Type(vec![t]))) }
            sels.push(("lang", Selection::Lang(vec![LangSelection::Any]))); sels.push(("null", Selection::Lang(vec![LangSelection::Lang(Nullable::Null)])));
            for l in [None, Some(en.as_lenient_lang_tag_ref()), Some(fr.as_lenient_lang_tag_ref())] { for d in [None, Some(Direction::Ltr), Some(Direction::Rtl)] { sels.push(("lang", Selection::Lang(vec![LangSelection::Lang(Nullable::Some((l, d)))]))) } }
            for p in PROPS.iter().chain(&["http://p/q", "http://p/", "http://a/"]) {
                let var = Term::Id(json_ld_core::Id::from(util::iri(p)));
                for c in [Container::None, Container::Set, Container::List, Container::Language, Container::Index, Container::Id, Container::Type, Container::Graph, Container::IndexSet, Container::LanguageSet] {
                    for (n, s) in &sels {
                        let (x, y) = (a.inverse().select(&var, &[c], s), fresh.inverse().select(&var, &[c], s));
                        if x != y { return Err((format!("{y:?} for {p} in {c:?} by {n} ({s:?})"), format!("{x:?}"))) }
                    }
                }
            }
            Ok(())
        });
    }
}
fn list_item(r: &mut Rng) -> V {
    match r.below(9) {
        0 => json!({"@value": "a"}), 1 => json!({"@value": "a", "@language": *r.pick(&["en", "EN", "fr"])}), 2 => json!({"@value": "a", "@language": "en", "@direction": "ltr"}),
        3 => json!({"@value": "a", "@direction": *r.pick(&["ltr", "rtl"])}), 4 => json!({"@value": "a", "@type": *r.pick(&["http://a/1", "urn:z"])}), 5 => json!({"@value": {"x": 1}, "@type": "@json"}),
        6 => json!({"@id": *r.pick(IRIS)}), 7 => json!({"@value": true}), _ => json!({"@value": 5}),
    }
}
/// no empty `@type`
fn clean(v: &V) -> bool {
    match v { V::Object(o) => o.iter().all(|(k, v)| !(k == "@type" && *v == json!([])) && clean(v)), V::Array(a) => a.iter().all(clean), _ => true }
}
