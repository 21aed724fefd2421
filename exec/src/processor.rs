//! The processor: what its functions are made of, composed again here from the algorithms.
use crate::compaction::print;
use crate::expansion::Doc;
use crate::flat::{same, sv};
use crate::gen::{canon_in, rearrange, Gen};
use crate::run::{Rng, Run};
use crate::util::{self, block, iri, Docs};
use json_ld::{JsonLdProcessor, Options, RemoteContextReference, RemoteDocument, RemoteDocumentReference};
use json_ld_core::{Context, ExpandedDocument};
use rdf_types::generator;
use serde_json::{json, Value as V};

type R<T> = Result<T, String>;
/// a context given to the processor: nothing, its address, or its text with an address
#[derive(Clone, Debug)]
enum Given { Address(String), Text(V, Option<&'static str>) }
impl Given {
    fn reference(&self) -> Option<RemoteContextReference> {
        Some(match self {
            Given::Address(a) => RemoteDocumentReference::Iri(iri(a)),
            Given::Text(t, u) => RemoteDocumentReference::Loaded(RemoteDocument::new(u.map(iri), None, util::context(&t.to_string()).ok()?)),
        })
    }
    /// the local context, or the code of the failure to get it
    fn local(&self, w: &World) -> R<json_ld_syntax::Context> {
        match self {
            Given::Text(t, _) => util::context(&t.to_string()),
            Given::Address(a) => {
                let d = w.texts.iter().find(|(u, ..)| u == a).ok_or("loading remote context failed")?;
                let c = d.1.get("@context").ok_or("invalid remote context")?;
                util::context(&c.to_string()).map_err(|_| "invalid remote context".into())
            }
        }
    }
}
struct World { texts: Vec<(String, V)>, docs: Docs }
struct Input { doc: V, url: Option<&'static str>, context_url: Option<String> }
impl Input {
    fn document(&self) -> RemoteDocument {
        RemoteDocument::new_full(self.url.map(iri), Some("application/json".parse().unwrap()), self.context_url.as_deref().map(iri), Default::default(), util::j(&self.doc.to_string()))
    }
}
/// the options as this driver drew them
struct Opts { base: Option<&'static str>, arrays: bool, relative: bool, expand: Option<Given>, ordered: bool, v10: bool, policy: json_ld::expansion::Policy, dir: Option<json_ld::rdf::RdfDirection>, general: bool }
impl Opts {
    fn mode(&self) -> json_ld::ProcessingMode { if self.v10 { json_ld::ProcessingMode::JsonLd1_0 } else { json_ld::ProcessingMode::JsonLd1_1 } }
    fn real(&self) -> Options {
        Options {
            base: self.base.map(iri), compact_arrays: self.arrays, compact_to_relative: self.relative, expand_context: self.expand.as_ref().and_then(|g| g.reference()), ordered: self.ordered,
            processing_mode: self.mode(), rdf_direction: self.dir, produce_generalized_rdf: self.general, expansion_policy: self.policy,
        }
    }
    fn context(&self) -> json_ld_context_processing::Options { let mut o = json_ld_context_processing::Options::default(); o.processing_mode = self.mode(); o }
    fn text(&self) -> String {
        format!("base {:?} arrays {} relative {} expandContext {:?} ordered {} 1.0 {} policy {:?} direction {} general {}", self.base, self.arrays, self.relative, self.expand, self.ordered, self.v10, self.policy, match self.dir { None => "none", Some(json_ld::rdf::RdfDirection::I18nDatatype) => "i18n", _ => "compound" }, self.general)
    }
}
fn enter(w: &World, active: &Context, local: &json_ld_syntax::Context, base: Option<&str>, o: &Opts) -> R<Context> {
    use json_ld_context_processing::Process;
    block(local.process_full(&mut (), active, &w.docs, base.map(iri), o.context(), ())).map_err(|e| e.code().to_string()).map(|p| p.into_processed())
}
fn expansion(w: &World, i: &Input, o: &Opts, ordered: bool) -> R<ExpandedDocument> {
    use json_ld::Expand;
    let base = o.base.or(i.url);
    let mut active = Context::new(base.map(iri));
    if let Some(g) = &o.expand { active = enter(w, &active, &g.local(w)?, base, o)? }
    if let Some(u) = &i.context_url { active = enter(w, &active, &Given::Address(u.clone()).local(w)?, Some(u), o)? }
    let mut e = json_ld::expansion::Options::default();
    e.processing_mode = o.mode();
    e.ordered = ordered;
    e.policy = o.policy;
    let url = i.url.or(o.base).map(iri);
    block(util::j(&i.doc.to_string()).expand_full(&mut (), active, url.as_ref(), &w.docs, e, ())).map_err(|e| e.code().to_string())
}
fn compaction<T: json_ld::Compact<iref::IriBuf, rdf_types::BlankIdBuf>>(w: &World, t: &T, i: &Input, c: &Given, o: &Opts) -> R<V> {
    use json_ld_context_processing::Process;
    let local = c.local(w)?;
    let mut p = block(local.process_full(&mut (), &Context::new(None), &w.docs, i.url.or(o.base).map(iri), o.context(), ())).map_err(|e| e.code().to_string())?;
    if let Some(b) = o.base { p.set_base_iri(Some(iri(b))) } else if o.relative && p.base_iri().is_none() { p.set_base_iri(i.url.map(iri)) }
    let mut k = json_ld_compaction::Options::default();
    k.processing_mode = o.mode();
    k.compact_to_relative = o.relative;
    k.compact_arrays = o.arrays;
    k.ordered = o.ordered;
    block(t.compact_full(&mut (), p.as_ref(), &w.docs, k)).map(|v| sv(&v)).map_err(|e| e.code().to_string())
}
fn sorted(v: &V) -> V {
    match v {
        V::Object(o) => { let mut e: Vec<(String, V)> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect(); e.sort_by(|a, b| a.0.cmp(&b.0)); V::Object(e.into_iter().collect()) }
        V::Array(a) => { let mut a: Vec<V> = a.iter().map(sorted).collect(); a.sort_by_key(|v| v.to_string()); V::Array(a) }
        v => v.clone(),
    }
}
fn etext(d: &R<ExpandedDocument>) -> String { match d { Ok(d) => canon_in(&print(d), "@graph"), Err(e) => format!("error: {e}") } }
fn jtext(d: &R<V>) -> String { match d { Ok(d) => sorted(d).to_string(), Err(e) => format!("error: {e}") } }
fn agree(want: String, got: String) -> Result<(), (String, String)> { if want == got { Ok(()) } else { Err((want, got)) } }
fn code<T, E>(r: Result<T, E>, f: impl Fn(E) -> String) -> R<T> { r.map_err(f) }

const URLS: &[Option<&str>] = &[None, Some("http://doc/d/e"), Some("http://doc/d/"), Some("http://b/c/d")];
fn small_context(r: &mut Rng) -> V {
    r.pick(&[json!({"a": "http://e/a"}), json!({"@vocab": "http://v/"}), json!({"@base": "http://b/c/"}), json!({"@base": "rel/"}), json!({"a": {"@id": "http://e/a", "@type": "@id"}}), json!({"@language": "en"}), json!([{"b": "http://e/b"}, {"@vocab": "http://e/"}]), json!({"q": {"@id": "http://e/q", "@container": "@set"}}), json!({}), json!(null), json!({"a": 5}), json!({"@version": 1.1, "b": {"@id": "http://e/b", "@type": "@id"}}), json!("c2"), json!("http://ctx/c1"), json!({"@base": null})]).clone()
}
fn world(r: &mut Rng) -> World {
    let mut texts = vec![];
    for u in ["http://ctx/c1", "http://ctx/c2", "http://doc/d/c2", "http://b/c/c2"] { if !r.chance(1, 6) {
        let mut c = small_context(r);
        if c == json!("c2") || c == json!("http://ctx/c1") { c = json!({"a": "http://e/other"}) }
        // a reference relative to the context's own address
        if u == "http://ctx/c1" && r.chance(1, 3) { c = if r.chance(1, 2) { json!("c2") } else { json!(["c2", {"q": "http://e/q"}]) } }
        texts.push((u.to_string(), if r.chance(1, 12) { json!({"nothing": 1}) } else { json!({"@context": c}) }))
    } }
    let docs = texts.iter().map(|(u, t)| (iri(u), RemoteDocument::new(Some(iri(u)), None, util::j(&t.to_string())))).collect();
    World { texts, docs }
}
fn given(r: &mut Rng) -> Given {
    if r.chance(1, 3) { Given::Address(r.pick(&["http://ctx/c1", "http://ctx/c2", "http://ctx/none"]).to_string()) }
    else { loop { let c = small_context(r); if util::context(&c.to_string()).is_ok() { return Given::Text(c, *r.pick(&[None, Some("http://ctx/of")])) } } }
}
fn input(r: &mut Rng, v10: bool, blank: bool) -> Input {
    let doc = match r.below(4) {
        0 | 1 if blank => Doc { r, v10, wild: 0 }.doc(),
        2 => { let mut g = Gen::default(); if !blank { g.blanks = 0; g.anonymous = false } g.doc(r, 2) }
        _ => {
            let ids = ["x", "http://e/1", "http://doc/d/y", "#f", "../z", "http://b/c/w", "a"];
            let mut n = json!({"@id": *r.pick(&ids), "a": *r.pick(&["v", "x", "http://doc/d/k"]), "b": [{"@id": *r.pick(&ids)}, {"@id": *r.pick(&ids), "c": "k", "@type": "T"}], "http://e/p": [{"@value": "x", "@language": "fr"}, {"@id": *r.pick(&ids)}], "_:bp": "general"});
            if r.chance(1, 3) { n["@context"] = small_context(r) }
            if r.chance(1, 4) && blank { n["b"][0] = json!({"c": "no id"}) }
            if r.chance(1, 10) { n["http://e/p"][0] = json!({"@value": {}}) }
            if r.chance(1, 4) && !v10 { n["http://e/dir"] = json!({"@value": "x", "@direction": "rtl", "@language": "ar"}) }
            n
        }
    };
    let context_url = if r.chance(1, 3) { Some(r.pick(&["http://ctx/c1", "http://ctx/c2", "http://ctx/none"]).to_string()) } else { None };
    Input { doc, url: *r.pick(URLS), context_url }
}
fn opts(r: &mut Rng) -> Opts {
    use json_ld::expansion::{Action, Policy};
    let a = |r: &mut Rng| *r.pick(&[Action::Keep, Action::Keep, Action::Drop, Action::Reject]);
    let policy = if r.chance(3, 4) { Policy::default() } else { Policy { invalid: a(r), vocab: a(r), allow_undefined: r.chance(1, 2) } };
    Opts { base: *r.pick(&[None, None, Some("http://opt/o"), Some("http://doc/d/")]), arrays: r.chance(1, 2), relative: r.chance(2, 3), expand: if r.chance(1, 2) { Some(given(r)) } else { None }, ordered: r.chance(1, 2), v10: r.chance(1, 10), policy, dir: *r.pick(&[None, Some(json_ld::rdf::RdfDirection::I18nDatatype), Some(json_ld::rdf::RdfDirection::CompoundLiteral)]), general: r.chance(1, 2) }
}
fn standard() -> Opts { Opts { base: None, arrays: true, relative: true, expand: None, ordered: false, v10: false, policy: Default::default(), dir: None, general: false } }
/// the two ways to hand a document over: loaded, or by its address
fn reference(w: &World, i: &Input, loaded: bool) -> (RemoteDocumentReference, Docs) {
    let mut docs = w.docs.clone();
    if loaded { return (RemoteDocumentReference::Loaded(i.document()), docs) }
    let a = iri("http://load/me");
    docs.insert(a.clone(), i.document());
    (RemoteDocumentReference::Iri(a), docs)
}
fn flattened(w: &World, i: &Input, c: Option<&Given>, o: &Opts) -> R<V> {
    use json_ld_core::flattening::Flatten;
    use json_ld_syntax::IntoJsonWithContext;
    let e = expansion(w, i, o, false)?;
    let mut g = generator::Blank::new_with_prefix("g".into());
    let f = Flatten::flatten_with(e, &mut (), &mut g, o.ordered).map_err(|_| "conflicting indexes".to_string())?;
    match c { None => Ok(sv(&json_syntax::Value::Array(f.into_iter().map(|n| n.into_json_with(&())).collect()))), Some(c) => compaction(w, &f, i, c, o) }
}
fn flat_agree(want: R<V>, got: R<V>, compacted: bool, blank: bool) -> Result<(), (String, String)> {
    match (&want, &got) {
        (Ok(a), Ok(b)) if !compacted => if same(a, b).unwrap_or(true) { Ok(()) } else { Err((a.to_string(), b.to_string())) },
        (Ok(_), Ok(_)) if blank => Ok(()),
        _ => agree(jtext(&want), jtext(&got)),
    }
}
/// quads as printed lines
fn lines(e: &mut ExpandedDocument, o: &Opts) -> V {
    use json_ld::RdfQuads;
    let mut g = generator::Blank::new_with_prefix("r".into());
    e.relabel_and_canonicalize_with(&mut (), &mut g);
    crate::rdf::got(e.rdf_quads_full(rdf_types::vocabulary::no_vocabulary_mut(), &mut g, o.dir, o.general))
}
pub fn run(r: &mut Run) {
    for k in 0..r.n(6000, 60000) {
        let plain = k % 5 == 0;
        let o = if plain { standard() } else { opts(&mut r.rng) };
        let w = world(&mut r.rng);
        let blank = k % 2 == 0;
        let i = input(&mut r.rng, o.v10, blank);
        let c = given(&mut r.rng);
        let loaded = r.rng.chance(1, 2);
        let (rf, docs) = reference(&w, &i, loaded);
        let text = format!("{} at {:?} contextUrl {:?} with {:?}; {} among {}", i.doc, i.url, i.context_url, c, o.text(), json!(w.texts));
        let w = World { texts: w.texts, docs };
        let ec = |e: json_ld::ExpandError| e.code().to_string();
        match k % 6 {
            0 => r.case("expansion sets the context up as the options and the document say", &text, || {
                let want = etext(&expansion(&w, &i, &o, o.ordered));
                let d = i.document();
                agree(want.clone(), etext(&code(block(d.expand_using(&w.docs, o.real())), ec)))?;
                agree(want.clone(), etext(&code(block(rf.expand_using(&w.docs, o.real())), ec)))?;
                agree(want.clone(), etext(&code(block(rf.expand_with_using(&mut (), &w.docs, o.real())), ec)))?;
                if plain {
                    agree(want.clone(), etext(&code(block(d.expand(&w.docs)), ec)))?;
                    agree(want, etext(&code(block(rf.expand_with(&mut (), &w.docs)), ec)))?;
                }
                Ok(())
            }),
            1 => r.case("compaction expands, enters the context and compacts", &text, || {
                let want = jtext(&expansion(&w, &i, &o, false).and_then(|e| compaction(&w, &e, &i, &c, &o)));
                let d = i.document();
                let cc = |e: json_ld::CompactError| e.code().to_string();
                let f = |x: Result<json_syntax::Value, json_ld::CompactError>| jtext(&code(x.map(|v| sv(&v)), cc));
                agree(want.clone(), f(block(d.compact_using(c.reference().unwrap(), &w.docs, o.real()))))?;
                agree(want.clone(), f(block(rf.compact_using(c.reference().unwrap(), &w.docs, o.real()))))?;
                agree(want.clone(), f(block(rf.compact_with_using(&mut (), c.reference().unwrap(), &w.docs, o.real()))))?;
                if plain {
                    agree(want.clone(), f(block(rf.compact(c.reference().unwrap(), &w.docs))))?;
                    agree(want, f(block(d.compact_with(&mut (), c.reference().unwrap(), &w.docs))))?;
                }
                Ok(())
            }),
            2 => r.case("flattening expands, flattens and compacts when a context is given", &text, || {
                let with = k % 12 == 2;
                let g = || generator::Blank::new_with_prefix("g".into());
                let want = || flattened(&w, &i, with.then_some(&c), &o);
                let cx = || with.then(|| c.reference().unwrap());
                let d = i.document();
                let f = |x: json_ld::FlattenResult<iref::IriBuf, rdf_types::BlankIdBuf>| code(x.map(|v| sv(&v)), |e| e.code().to_string());
                let blank = blank || text.contains("_:");
                flat_agree(want(), f(block(d.flatten_full(&mut (), &mut g(), cx(), &w.docs, o.real(), ()))), with, blank)?;
                flat_agree(want(), f(block(rf.flatten_full(&mut (), &mut g(), cx(), &w.docs, o.real(), ()))), with, blank)?;
                if !with {
                    let got = f(block(d.flatten_using(&mut g(), &w.docs, o.real())));
                    if let (true, Ok(V::Array(a))) = (o.ordered, &got) { if !a.windows(2).all(|w| w[0]["@id"].as_str() <= w[1]["@id"].as_str()) { return Err(("nodes sorted by identifier".into(), json!(a).to_string())) } }
                    flat_agree(want(), got, false, blank)?;
                    flat_agree(want(), f(block(rf.flatten_with_using(&mut (), &mut g(), &w.docs, o.real()))), false, blank)?;
                    if plain {
                        flat_agree(want(), f(block(rf.flatten(&mut g(), &w.docs))), false, blank)?;
                        flat_agree(want(), f(block(d.flatten_with(&mut (), &mut g(), &w.docs))), false, blank)?;
                    }
                }
                Ok(())
            }),
            3 => r.case("a document is kept beside its expansion", &text, || {
                let want = etext(&expansion(&w, &i, &o, o.ordered));
                let shape = |x: Result<json_ld::Document, json_ld::ExpandError>| match x {
                    Ok(d) => { let kept = d.as_remote().url().map(|u| u.to_string()) == i.url.map(|u| u.to_string()) && d.as_remote().context_url().map(|u| u.to_string()) == i.context_url && sv(d.as_remote().document()) == serde_json::from_str::<V>(&i.doc.to_string()).unwrap() && d.as_remote().content_type().is_some(); (kept, etext(&Ok(d.into_expanded()))) }
                    Err(e) => (true, format!("error: {}", e.code())),
                };
                for (kept, got) in [shape(block(i.document().into_document_full(&mut (), &w.docs, o.real(), ()))), shape(block(rf.clone().into_document_with_using(&mut (), &w.docs, o.real())))] {
                    if !kept { return Err(("the document as it was".into(), "another".into())) }
                    agree(want.clone(), got)?;
                }
                if plain { agree(want.clone(), shape(block(rf.clone().into_document_with(&mut (), &w.docs))).1)?; agree(want, shape(block(JsonLdProcessor::into_document(i.document(), &w.docs))).1)? }
                Ok(())
            }),
            4 => {
                let mut other = Input { doc: i.doc.clone(), url: if r.rng.chance(3, 4) { i.url } else { *r.rng.pick(URLS) }, context_url: if r.rng.chance(3, 4) { i.context_url.clone() } else { None } };
                if r.rng.chance(1, 2) { other.doc = rearrange(&mut r.rng, &i.doc, "@list") }
                if r.rng.chance(1, 4) { if let Some(m) = other.doc.as_object_mut() { m.insert("http://e/more".into(), json!(1)); } }
                let text = format!("{text} against {} at {:?} contextUrl {:?}", other.doc, other.url, other.context_url);
                r.case("comparison compares the documents and their expansions", &text, || {
                    let want: R<bool> = if sorted(&i.doc) != sorted(&other.doc) { Ok(false) } else {
                        expansion(&w, &i, &o, o.ordered).and_then(|a| Ok(a == expansion(&w, &other, &o, o.ordered)?))
                    };
                    let want = format!("{want:?}");
                    let f = |x| format!("{:?}", code(x, ec));
                    let (a, b) = (i.document(), other.document());
                    agree(want.clone(), f(block(a.compare_using(&b, &w.docs, o.real()))))?;
                    agree(want.clone(), f(block(rf.compare_full(&RemoteDocumentReference::Loaded(other.document()), &mut (), &w.docs, o.real(), ()))))?;
                    agree(want.clone(), f(block(a.compare_with_using(&b, &mut (), &w.docs, o.real()))))?;
                    if plain { agree(want.clone(), f(block(a.compare(&b, &w.docs))))?; agree(want, f(block(a.compare_with(&b, &mut (), &w.docs))))? }
                    Ok(())
                })
            }
            _ => r.case("the dataset is the one of the unordered expansion under the options", &text, || {
                let want = expansion(&w, &i, &o, false).map(|mut e| lines(&mut e, &o));
                let d = i.document();
                let g = || generator::Blank::new_with_prefix("r".into());
                let f = |x: Result<json_ld::ToRdf<(), generator::Blank>, json_ld::ToRdfError>| code(x.map(|mut t| crate::rdf::got(t.quads())), |e| e.code().to_string());
                let ok = |got: R<V>| match (&want, &got) { (Ok(a), Ok(b)) => if same(a, b).unwrap_or(true) { Ok(()) } else { Err((a.to_string(), b.to_string())) }, (a, b) => agree(jtext(a), jtext(b)) };
                ok(f(block(d.to_rdf_full((), g(), &w.docs, o.real(), ()))))?;
                ok(f(block(rf.to_rdf_using(g(), &w.docs, o.real()))))?;
                ok(f(block(d.to_rdf_with_using((), g(), &w.docs, o.real()))))?;
                if plain { ok(f(block(d.to_rdf(g(), &w.docs))))?; ok(f(block(rf.to_rdf_with((), g(), &w.docs))))? }
                Ok(())
            }),
        }
    }
    r.eq("the defaults are the ones the standard names", "Options::default()", "None true true None false 1.1 None false".to_string(), || {
        let o: Options = Options::default();
        format!("{:?} {} {} {} {} {} {} {}", o.base, o.compact_arrays, o.compact_to_relative, o.expand_context.map_or("None", |_| "Some"), o.ordered, if o.processing_mode == json_ld::ProcessingMode::JsonLd1_1 { "1.1" } else { "1.0" }, o.rdf_direction.map_or("None", |_| "Some"), o.produce_generalized_rdf)
    });
}
