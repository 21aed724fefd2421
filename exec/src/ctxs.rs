//! Executable contracts of context processing: the real result against the independent reading in
//! `refctx`, on generated contexts, each generator aimed at one property.
use crate::refctx::*;
use crate::run::{Rng, Run};
use crate::util;
use iref::{Iri, IriBuf};
use json_ld_core::{Context, LoadError, Loader, RemoteDocument};
use serde_json::{json, Map, Value as V};
use std::cell::RefCell;

/// serves `docs` and records what was asked for; gives up when asked too often
pub struct Recording<'a> { pub docs: &'a Remote, pub log: RefCell<Vec<String>>, pub limit: usize }
#[derive(Debug)]
pub struct Stop;
impl std::fmt::Display for Stop { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "no") } }
impl std::error::Error for Stop {}
impl<'a> Loader for Recording<'a> {
    async fn load(&self, url: &Iri) -> Result<RemoteDocument<IriBuf>, LoadError> {
        self.log.borrow_mut().push(url.to_string());
        if self.log.borrow().len() > self.limit { panic!("more than {} documents were loaded", self.limit) }
        match self.docs.get(url.as_str()) {
            Some(d) => Ok(RemoteDocument::new(Some(url.to_owned()), None, util::j(&d.to_string()))),
            None => Err(LoadError::new(url.to_owned(), Stop)),
        }
    }
}
pub struct Real { pub out: Result<Context, String>, pub loads: Vec<String> }
pub fn real(active: &Context, ctx: &V, docs: &Remote, base: Option<&str>, o: json_ld_context_processing::Options) -> Real {
    let l = Recording { docs, log: RefCell::new(vec![]), limit: 2000 };
    let out = util::process_on(active, &ctx.to_string(), &l, base, o);
    let loads = l.log.borrow().clone();
    Real { out, loads }
}
fn options(o: Opt) -> json_ld_context_processing::Options {
    json_ld_context_processing::Options {
        processing_mode: if o.v10 { json_ld_core::ProcessingMode::JsonLd1_0 } else { json_ld_core::ProcessingMode::JsonLd1_1 },
        override_protected: o.over,
        propagate: o.propagate,
        ..Default::default()
    }
}
fn input(ctx: &V, docs: &Remote, base: Option<&str>) -> String {
    let mut s = ctx.to_string();
    if let Some(b) = base { s = format!("{s} with base {b}") }
    for (u, d) in docs { s = format!("{s}; {u} = {d}") }
    s
}
type Out = Result<Ctx, String>;
fn diff(a: &Ctx, b: &Ctx) -> (String, String) {
    let mut w = vec![]; let mut g = vec![];
    for k in a.terms.keys().chain(b.terms.keys()).collect::<std::collections::BTreeSet<_>>() {
        if a.terms.get(k) != b.terms.get(k) { w.push(format!("{k}: {:?}", a.terms.get(k))); g.push(format!("{k}: {:?}", b.terms.get(k))); }
    }
    let f = |c: &Ctx| format!("base {:?} vocab {:?} lang {:?} dir {:?} previous {}", c.base, c.vocab, c.lang, c.dir, c.previous.is_some());
    if f(a) != f(b) { w.push(f(a)); g.push(f(b)) }
    if a.previous != b.previous { w.push(format!("{:?}", a.previous)); g.push(format!("{:?}", b.previous)) }
    (w.join("; "), g.join("; "))
}
/// which parts of the result a property speaks about
#[derive(Clone, Copy, PartialEq)]
enum Look { All, Errors(&'static [&'static str]) }
/// Runs both sides on one input and compares what `look` names.
fn compare(r: &mut Run, clause: &str, active: (&Context, &Ctx), ctx: &V, docs: &Remote, base: Option<&str>, o: Opt, look: Look, loads: bool) -> Option<(Context, Ctx)> {
    if let Err(_) = util::context(&ctx.to_string()) { return None }
    let mut w = World::new(docs);
    let want: Out = process(&mut w, active.1, ctx, &[], base, o);
    let expected_loads = w.loads.clone();
    let mut keep = None;
    let name = input(ctx, docs, base);
    r.case(clause, &name, || {
        let got = real(active.0, ctx, docs, base, options(o));
        let g: Out = got.out.as_ref().map(picture).map_err(|e| e.clone());
        match (&want, &g) {
            (Ok(a), Ok(b)) => if a != b { return Err(diff(a, b)) },
            (Ok(_), Err(e)) => return Err(("success".into(), format!("error {e}"))),
            (Err(e), Ok(_)) => return Err((format!("error {e}"), "success".into())),
            (Err(a), Err(b)) => {
                let matters = match look { Look::All => true, Look::Errors(l) => l.contains(&a.as_str()) || l.contains(&b.as_str()) };
                if matters && a != b && !(a == "invalid remote context" && b == "loading remote context failed") { return Err((format!("error {a}"), format!("error {b}"))) }
            }
        }
        if loads && want.is_ok() && got.loads != expected_loads { return Err((format!("documents loaded: {expected_loads:?}"), format!("{:?}", got.loads))) }
        if let (Ok(a), Ok(b)) = (want.clone(), got.out) { keep = Some((b, a)) }
        Ok(())
    });
    keep
}
fn start() -> (Context, Ctx) { (Context::new(Some(util::iri("http://base/d/doc"))), Ctx { base: Some("http://base/d/doc".into()), orig_base: Some("http://base/d/doc".into()), ..Default::default() }) }
fn s(x: &str) -> V { V::String(x.into()) }

// ---- P06: chains of remote contexts --------------------------------------------------------------
pub fn chains(r: &mut Run) {
    let n = r.n(6000, 120000);
    for _ in 0..n {
        let k = 1 + r.rng.below(4);
        let mut docs = Remote::new();
        let urls: Vec<String> = (0..k).map(|i| if i % 2 == 0 { format!("http://c/{i}") } else { format!("http://c/s/{i}") }).collect();
        let mut serial = 0;
        for u in urls.clone() {
            let c = chain_ctx(&mut r.rng, &urls, &u, &mut serial, 0);
            docs.insert(u, json!({"@context": c, "ignored": 1}));
        }
        let base = *r.rng.pick(&[Some("http://c/s/x"), Some("http://c/"), None]);
        let top = chain_ctx(&mut r.rng, &urls, base.unwrap_or(""), &mut serial, 0);
        let (a, p) = start();
        compare(r, "the chain of remote contexts is processed as the algorithm says", (&a, &p), &top, &docs, base, Opt::default(), Look::All, true);
    }
    // long chains and cycles: every document is asked for once, and processing ends
    for len in [1, 2, 3, 5, 10, 30] {
        for back in [None, Some(0), Some(len / 2), Some(len - 1)] {
            let mut docs = Remote::new();
            for i in 0..len {
                let next = if i + 1 < len { Some(i + 1) } else { back };
                let mut c = vec![json!({format!("t{i}"): format!("http://d/{i}")})];
                if let Some(n) = next { c.push(s(&format!("n{n}"))) }
                docs.insert(format!("http://c/n{i}"), json!({"@context": c}));
            }
            let (a, p) = start();
            compare(r, "a cycle of remote contexts ends, each document on it loaded once", (&a, &p), &s("http://c/n0"), &docs, None, Opt::default(), Look::All, true);
        }
    }
}
fn reference(g: &mut Rng, urls: &[String], from: &str) -> V {
    let u = g.pick(urls).clone();
    // the same document, named relatively where that works
    if g.chance(1, 2) && from.starts_with("http://c/") {
        let rel = if from.starts_with("http://c/s/") {
            match u.strip_prefix("http://c/s/") { Some(x) => x.to_string(), None => format!("../{}", &u["http://c/".len()..]) }
        } else { u["http://c/".len()..].to_string() };
        return s(&rel);
    }
    s(&u)
}
fn chain_ctx(g: &mut Rng, urls: &[String], from: &str, serial: &mut usize, depth: usize) -> V {
    let n = 1 + g.below(3);
    let mut v = vec![];
    for _ in 0..n {
        *serial += 1;
        v.push(match g.below(9) {
            0..=3 => reference(g, urls, from),
            4 if g.chance(1, 2) => V::Null,
            5 if depth == 0 => {
                let inner = chain_ctx(g, urls, from, serial, depth + 1);
                json!({format!("t{}", g.below(4)): {"@id": format!("http://d/{serial}"), "@context": inner}})
            }
            6 => match g.below(5) {
                0 => json!({"@vocab": format!("http://v/{serial}/")}),
                1 => json!({"@base": if g.chance(1, 2) { format!("http://b/{serial}/") } else { format!("rel{serial}/") }}),
                2 => json!({"@language": format!("l{serial}")}),
                3 => json!({"@direction": if g.chance(1, 2) { "ltr" } else { "rtl" }}),
                _ => json!({"@base": null, "@vocab": null, "@language": null, "@direction": null}),
            },
            _ => json!({format!("t{}", g.below(4)): format!("http://d/{serial}")}),
        });
    }
    if n == 1 && g.chance(1, 2) { v.pop().unwrap() } else { V::Array(v) }
}

// ---- P07: term definitions -----------------------------------------------------------------------
pub fn terms(r: &mut Run) {
    let n = r.n(12000, 250000);
    for _ in 0..n {
        // on top of an empty context, or of one that defines some of the same terms
        let mut first = None;
        let (a, p) = if r.rng.chance(1, 2) { start() } else {
            let c0 = term_ctx(&mut r.rng, 3);
            let (a, p) = start();
            let k = compare(r, "terms are defined as the algorithm says", (&a, &p), &c0, &Remote::new(), None, Opt::default(), Look::All, false);
            if k.is_some() { first = Some(c0) }
            k.unwrap_or_else(start)
        };
        let c = term_ctx(&mut r.rng, 5);
        compare(r, "terms are defined as the algorithm says", (&a, &p), &c, &Remote::new(), None, Opt::default(), Look::All, false);
        // the order of the entries does not matter to the IRI mappings (an @index entry is looked up as is)
        if c.to_string().contains("\"@index\":") { continue }
        let m = c.as_object().unwrap();
        let mut e: Vec<_> = m.iter().collect();
        let mut q = Map::new();
        while !e.is_empty() { let i = r.rng.below(e.len()); let (k, v) = e.swap_remove(i); q.insert(k.clone(), v.clone()); }
        let q = V::Object(q);
        let name = match &first { Some(f) => format!("after {f}: {c} / {q}"), None => format!("{c} / {q}") };
        r.case("the IRI mappings do not depend on the order of the entries", &name, || {
            let f = |c: &V| -> Result<Vec<(String, Option<String>)>, bool> {
                let x = real(&a, c, &Remote::new(), None, Default::default());
                x.out.map(|c| picture(&c).terms.into_iter().map(|(k, d)| (k, d.iri)).collect()).map_err(|e| e == "cyclic IRI mapping")
            };
            let (a, b) = (f(&c), f(&q));
            // which error is met first may depend on the order
            if a == b || a.is_err() && b.is_err() { Ok(()) } else { Err((format!("{a:?}"), format!("{b:?}"))) }
        });
    }
    // every small dependency graph over three terms
    let refs = ["http://e/x", "t0", "t1", "t2", "t0:s", "t1:s", "t2:s"];
    for a in 0..refs.len() { for b in 0..refs.len() { for c in 0..refs.len() { for shape in 0..4 {
        let mk = |i: usize, x: &str| -> V { match (shape >> (i % 2)) & 1 { 0 => json!(x), _ => json!({"@id": x, "@prefix": true}) } };
        let ctx = json!({"@vocab": "http://v/", "t0": mk(0, refs[a]), "t1": mk(1, refs[b]), "t2": mk(2, refs[c])});
        let (x, p) = start();
        compare(r, "cyclic definitions are refused, others resolve", (&x, &p), &ctx, &Remote::new(), None, Opt::default(), Look::All, false);
    } } } }
    for len in [4usize, 8, 20] { for closed in [false, true] {
        let mut m = Map::new();
        for i in 0..len { m.insert(format!("t{i}"), s(&if i + 1 < len { format!("t{}:x/", i + 1) } else if closed { "t0:x/".into() } else { "http://e/".into() })); }
        let (x, p) = start();
        compare(r, "cyclic definitions are refused, others resolve", (&x, &p), &V::Object(m), &Remote::new(), None, Opt::default(), Look::All, false);
    } }
    fixed_terms(r);
}
fn fixed_terms(r: &mut Run) {
    for d in [
        r#"{"@id":null,"@prefix":true}"#, r#"{"@id":"@type","@prefix":true}"#, r#"{"@id":"@context"}"#, r#"{"@id":"@foo"}"#, r#"{"@reverse":"@foo"}"#,
        r#"{"@reverse":"http://e/x","@id":"http://e/y"}"#, r#"{"@reverse":"http://e/x","@nest":"n"}"#, r#"{"@reverse":"http://e/x","@container":"@list"}"#,
        r#"{"@reverse":"http://e/x","@container":"@set"}"#, r#"{"@reverse":"http://e/x","@container":"@index"}"#, r#"{"@reverse":"http://e/x","@container":null}"#, r#"{"@reverse":"x"}"#, r#"{"@reverse":"@type"}"#, r#"{"@reverse":"_:b"}"#,
        r#"{"@id":"http://e/x","@container":"@type"}"#, r#"{"@id":"http://e/x","@container":"@type","@type":"@vocab"}"#, r#"{"@id":"http://e/x","@container":"@type","@type":"@json"}"#, r#"{"@id":"http://e/x","@container":["@type","@set"],"@type":"http://e/t"}"#,
        r#"{"@id":"http://e/x","@index":"http://e/i"}"#, r#"{"@id":"http://e/x","@index":"http://e/i","@container":"@index"}"#, r#"{"@id":"http://e/x","@index":"i","@container":"@index"}"#, r#"{"@id":"http://e/x","@index":"@type","@container":"@index"}"#, r#"{"@id":"http://e/x","@index":"http://e/i","@container":["@index","@graph"]}"#,
        r#"{"@id":"http://e/x","@type":"@id"}"#, r#"{"@id":"http://e/x","@type":"@none"}"#, r#"{"@id":"http://e/x","@type":"@set"}"#, r#"{"@id":"http://e/x","@type":"_:b"}"#, r#"{"@id":"http://e/x","@type":"rel"}"#,
        r#"{"@id":"http://e/x","@language":"en"}"#, r#"{"@id":"http://e/x","@language":null,"@direction":null}"#, r#"{"@id":"http://e/x","@language":"en","@direction":"rtl","@type":"@id"}"#, r#"{"@id":"http://e/x","@nest":"@nest"}"#, r#"{"@id":"http://e/x","@nest":"nn"}"#,
        r#"{"@id":"http://e/x","@propagate":true}"#, r#"{"@id":"http://e/x","@propagate":false}"#, r#"{"@id":"http://e/x","@prefix":true}"#, r#"{"@id":"http://e/x/","@prefix":false}"#, r#"{"@id":"_:p"}"#, "null", "\"http://e/x#\"", "\"http://e/x\"", "\"_:b\"", "\"@type\"", "\"@foo\"", "\"@context\"", "\"rel\"", "\"\"", "{}",
        r#"{"@id":"http://e/x","@context":{"z":"http://e/z"}}"#, r#"{"@id":"http://e/x","@context":{"z":{"@id":"@context"}}}"#, r#"{"@id":"http://e/x","@context":null}"#,
    ] {
        for k in ["t", "a:b", "a/b", "http://e/x", ":t", "t:", "a:b:c", "", "@type", "@id", "@graph", "@foo", "@1", "tt"] {
            for extra in ["", ",\"@vocab\":\"http://v/\"", ",\"a\":\"http://e/\",\"@vocab\":\"http://v/\"", ",\"a\":{\"@id\":\"http://e/x\"}"] {
                for v10 in [false, true] {
                    let c: V = serde_json::from_str(&format!("{{{}:{d}{extra}}}", s(k))).unwrap();
                    let (x, p) = start();
                    compare(r, "a term definition means what the algorithm says", (&x, &p), &c, &Remote::new(), Some("http://u/"), Opt { v10, ..Default::default() }, Look::All, false);
                }
            }
        }
    }
}
const TERMS: &[&str] = &["t0", "t1", "t2", "t_3", "t0:x", "t1:y", "a/b", "http://e/t", "t0:x:z", "T0"];
fn iri_text(g: &mut Rng) -> String {
    g.pick(&["http://e/x", "http://e/", "http://e/#", "t0", "t1", "t2", "t_3", "t0:s", "t1:s", "t2:s", "t_3:s", "_:b0", "rel", "r/s", "@type", "@id", "urn:x", "t0:x", "t1:y", "t0://x", "@foo", "http://e/t", "a/b"]).to_string()
}
fn term_def(g: &mut Rng) -> V {
    match g.below(10) {
        0 => V::Null,
        1..=4 => s(&iri_text(g)),
        _ => {
            let mut m = Map::new();
            match g.below(6) { 0 => { m.insert("@reverse".into(), s(&iri_text(g))); } 1 => { m.insert("@id".into(), V::Null); } 2 => (), _ => { m.insert("@id".into(), s(&iri_text(g))); } }
            if g.chance(1, 4) { let t = match g.below(6) { 0 => "@id".into(), 1 => "@vocab".into(), 2 => "@json".into(), 3 => "@none".into(), _ => iri_text(g) }; m.insert("@type".into(), s(&t)); }
            if g.chance(1, 4) { let c: V = serde_json::from_str(g.pick(&["\"@set\"", "\"@index\"", "\"@list\"", "\"@language\"", "\"@type\"", "\"@id\"", "\"@graph\"", "[\"@set\",\"@index\"]", "[\"@graph\",\"@id\"]", "[\"@graph\",\"@index\",\"@set\"]", "null", "[\"@list\",\"@set\"]"])).unwrap(); m.insert("@container".into(), c); }
            if g.chance(1, 8) { m.insert("@prefix".into(), V::Bool(g.chance(2, 3))); }
            if g.chance(1, 8) { m.insert("@language".into(), if g.chance(1, 3) { V::Null } else { s("en") }); }
            if g.chance(1, 8) { m.insert("@direction".into(), if g.chance(1, 3) { V::Null } else { s("rtl") }); }
            if g.chance(1, 12) { m.insert("@nest".into(), s(g.pick(&["@nest", "n"]))); }
            if g.chance(1, 8) { m.insert("@index".into(), s(&iri_text(g))); }
            if g.chance(1, 8) { m.insert("@protected".into(), V::Bool(g.chance(1, 2))); }
            if g.chance(1, 12) { m.insert("@context".into(), json!({"z": "http://e/z"})); }
            V::Object(m)
        }
    }
}
fn term_ctx(g: &mut Rng, max: usize) -> V {
    let mut m = Map::new();
    if g.chance(2, 3) { m.insert("@vocab".into(), s(g.pick(&["http://v/", "http://v/#", "rel/", "t0:v/", ""]))); }
    for _ in 0..1 + g.below(max) { m.insert(g.pick(TERMS).to_string(), term_def(g)); }
    V::Object(m)
}

// ---- P08: protected terms ------------------------------------------------------------------------
pub fn protected(r: &mut Run) {
    let defs: Vec<V> = [
        "null", "\"http://e/a\"", "\"http://e/b/\"", r#"{"@id":"http://e/a"}"#, r#"{"@id":"http://e/a","@prefix":true}"#, r#"{"@reverse":"http://e/a"}"#,
        r#"{"@id":"http://e/a","@type":"@id"}"#, r#"{"@id":"http://e/a","@type":"http://e/t"}"#, r#"{"@id":"http://e/a","@language":"en"}"#, r#"{"@id":"http://e/a","@language":null}"#, r#"{"@id":"http://e/a","@language":"EN"}"#,
        r#"{"@id":"http://e/a","@direction":"ltr"}"#, r#"{"@id":"http://e/a","@direction":null}"#, r#"{"@id":"http://e/a","@nest":"@nest"}"#, r#"{"@id":"http://e/a","@nest":"n"}"#,
        r#"{"@id":"http://e/a","@container":"@set"}"#, r#"{"@id":"http://e/a","@container":"@index"}"#, r#"{"@id":"http://e/a","@container":"@index","@index":"http://e/i"}"#, r#"{"@id":"http://e/a","@container":"@index","@index":"http://e/j"}"#,
        r#"{"@id":"http://e/a","@context":{"z":"http://e/z"}}"#, r#"{"@id":"http://e/a","@context":{"z":"http://e/y"}}"#, r#"{"@id":"http://e/a","@context":null}"#,
    ].iter().map(|d| serde_json::from_str(d).unwrap()).collect();
    let set = |d: &V, p: Option<bool>| -> V { match (d, p) { (V::Object(m), Some(b)) => { let mut m = m.clone(); m.insert("@protected".into(), V::Bool(b)); V::Object(m) } (d, _) => d.clone() } };
    let errs: &[&str] = &["protected term redefinition", "invalid context nullification"];
    for d1 in &defs { for d2 in &defs {
        for (whole, own) in [(true, None), (false, Some(true)), (true, Some(false)), (false, None)] {
            for (over, p2) in [(false, None), (true, None), (false, Some(true)), (true, Some(false))] {
                let mut c1 = Map::new();
                if whole { c1.insert("@protected".into(), V::Bool(true)); }
                c1.insert("t".into(), set(d1, own));
                let c1 = V::Object(c1);
                let (a, p) = start();
                let Some((a, p)) = compare(r, "a first definition is taken", (&a, &p), &c1, &Remote::new(), None, Opt::default(), Look::Errors(errs), false) else { continue };
                let c2 = json!({"t": set(d2, p2)});
                if let Some((a, p)) = compare(r, "a protected term keeps its definition", (&a, &p), &c2, &Remote::new(), None, Opt { over, ..Default::default() }, Look::Errors(errs), false) {
                    // and is still protected (or not) afterwards
                    compare(r, "nullification needs no protected term, or permission", (&a, &p), &V::Null, &Remote::new(), None, Opt { over: false, ..Default::default() }, Look::Errors(errs), false);
                    compare(r, "a protected term stays protected", (&a, &p), &json!([{"u": "http://e/u"}, {"t": "http://e/other"}]), &Remote::new(), None, Opt::default(), Look::Errors(errs), false);
                }
            }
        }
    } }
    // @type
    for t1 in [r#"{"@container":"@set"}"#, r#"{"@container":"@set","@protected":true}"#, r#"{"@container":"@set","@protected":false}"#] {
        for whole in [true, false] {
            let mut c1: Map<String, V> = serde_json::from_str(&format!("{{\"@type\":{t1}}}")).unwrap();
            if whole { c1.insert("@protected".into(), V::Bool(true)); }
            let (a, p) = start();
            if let Some((a, p)) = compare(r, "@type can be protected", (&a, &p), &V::Object(c1), &Remote::new(), None, Opt::default(), Look::Errors(errs), false) {
                compare(r, "nullification needs no protected term, or permission", (&a, &p), &V::Null, &Remote::new(), None, Opt::default(), Look::Errors(errs), false);
                compare(r, "@type stays protected", (&a, &p), &json!({"@type": {"@container": "@set"}}), &Remote::new(), None, Opt::default(), Look::Errors(errs), false);
            }
        }
    }
    // histories: arrays of contexts, scoped contexts, remote contexts
    for _ in 0..r.n(9000, 200000) {
        let mut docs = Remote::new();
        for i in 0..2 { docs.insert(format!("http://c/{i}"), json!({"@context": protected_ctx(&mut r.rng, 1)})); }
        let n = 1 + r.rng.below(4);
        let c = V::Array((0..n).map(|_| protected_ctx(&mut r.rng, 0)).collect());
        let over = r.rng.chance(1, 5);
        let (a, p) = start();
        compare(r, "protection holds along a history of contexts", (&a, &p), &c, &docs, None, Opt { over, ..Default::default() }, Look::Errors(errs), false);
    }
}
fn protected_ctx(g: &mut Rng, depth: usize) -> V {
    match g.below(8) {
        0 => return V::Null,
        1 if depth == 0 => return s(&format!("http://c/{}", g.below(2))),
        _ => (),
    }
    let mut m = Map::new();
    if g.chance(1, 3) { m.insert("@protected".into(), V::Bool(g.chance(2, 3))); }
    if g.chance(1, 4) { m.insert("@vocab".into(), s("http://v/")); }
    if g.chance(1, 6) { m.insert("@type".into(), if g.chance(1, 2) { json!({"@container": "@set"}) } else { json!({"@container": "@set", "@protected": g.chance(1, 2)}) }); }
    for _ in 0..1 + g.below(3) {
        let k = g.pick(&["t0", "t1", "t2"]).to_string();
        let mut d = match g.below(7) {
            0 => json!("http://e/a"), 1 => json!("http://e/b/"), 2 => json!({"@id": "http://e/a"}), 3 => json!({"@id": "http://e/a", "@type": "@id"}), 4 => json!({"@id": format!("t{}:s", g.below(3))}), 5 => V::Null,
            _ => json!({"@id": "http://e/a", "@context": protected_scoped(g)}),
        };
        if let (V::Object(o), true) = (&mut d, g.chance(1, 3)) { o.insert("@protected".into(), V::Bool(g.chance(2, 3))); }
        m.insert(k, d);
    }
    V::Object(m)
}
fn protected_scoped(g: &mut Rng) -> V {
    match g.below(4) { 0 => V::Null, 1 => json!({"t0": "http://e/s"}), 2 => json!([null, {"t1": "http://e/s"}]), _ => json!({"t2": {"@id": "http://e/s", "@protected": true}}) }
}

// ---- P09: imported contexts ----------------------------------------------------------------------
pub fn imports(r: &mut Run) {
    let errs: &[&str] = &["invalid context entry", "invalid remote context", "invalid @import value", "protected term redefinition"];
    for _ in 0..r.n(12000, 250000) {
        let mut docs = Remote::new();
        let imp = import_ctx(&mut r.rng, true);
        let doc = match r.rng.below(14) { 0 => json!({"@context": [imp]}), 1 => json!({"@context": null}), 2 => json!({"@context": "http://c/j"}), 3 => json!({"@context": {"@import": "http://c/j"}}), _ => json!({"@context": imp}) };
        docs.insert("http://c/i".into(), doc);
        docs.insert("http://c/j".into(), json!({"@context": {"t0": "http://j/"}}));
        let mut top = import_ctx(&mut r.rng, false);
        let how = r.rng.below(8);
        let v10 = r.rng.chance(1, 20);
        let base = if how == 0 { None } else { Some("http://c/x") };
        let V::Object(m) = &mut top else { unreachable!() };
        m.insert("@import".into(), s(match how { 0 | 1 => "i", 2 => "http://c/missing", _ => "http://c/i" }));
        let ctx = if r.rng.chance(1, 3) { json!([{"t0": "http://before/0", "t9": "http://before/9", "@language": "pre", "@vocab": "http://pre/"}, top]) } else { top };
        let (a, p) = start();
        compare(r, "an importing context is the imported one overridden by its own entries", (&a, &p), &ctx, &docs, base, Opt { v10, ..Default::default() }, Look::Errors(errs), true);
    }
}
fn import_ctx(g: &mut Rng, imported: bool) -> V {
    let mut m = Map::new();
    let t = if imported { "i" } else { "o" };
    if g.chance(1, 3) { m.insert("@base".into(), if g.chance(1, 4) { V::Null } else { s(&format!("http://{t}/base/")) }); }
    if g.chance(1, 3) { m.insert("@vocab".into(), if g.chance(1, 4) { V::Null } else { s(&format!("http://{t}/vocab/")) }); }
    if g.chance(1, 3) { m.insert("@language".into(), if g.chance(1, 4) { V::Null } else { s(t) }); }
    if g.chance(1, 3) { m.insert("@direction".into(), if g.chance(1, 4) { V::Null } else { s(if imported { "ltr" } else { "rtl" }) }); }
    if g.chance(1, 4) { m.insert("@protected".into(), V::Bool(g.chance(1, 2))); }
    if g.chance(1, 6) { m.insert("@propagate".into(), V::Bool(g.chance(1, 2))); }
    if g.chance(1, 8) { m.insert("@version".into(), serde_json::from_str("1.1").unwrap()); }
    if g.chance(1, 4) { m.insert("@type".into(), json!({"@container": "@set", "@protected": g.chance(1, 2)})); }
    for _ in 0..g.below(4) {
        let k = format!("t{}", g.below(4));
        let d = match g.below(6) { 0 => V::Null, 1 => json!({"@id": format!("t{}:{t}", g.below(4))}), 2 => json!({"@id": format!("http://{t}/{k}"), "@type": "@id"}), 3 => s(&format!("t{}", g.below(4))), _ => s(&format!("http://{t}/{k}/")) };
        m.insert(k, d);
    }
    V::Object(m)
}

// ---- P18: IRI expansion --------------------------------------------------------------------------
pub fn iris(r: &mut Run) {
    use json_ld_context_processing::algorithm::{expand_iri_simple, Action, MalformedIri};
    use json_ld_core::{Environment, Term};
    use json_ld_syntax::{ExpandableRef, Nullable};
    let values = ["", "t0", "t1", "t2", "t_3", "u", "t0:s", "t1:s", "t2:s", "t_3:s", "u:s", "t0:", ":s", "t0://h/p", "_:b", "_:", "http://e/x", "http://e/x y", "a/b", "../c", "#f", "?q", "//h/p", "/p", "@type", "@id", "@foo", "@", "@@", "@1", "@context", "a b", "é", "t0:a b", "t0:s:u", "t0:x", "urn:a:b", "@vocab", "t0:@x", "null", "@value:x", "a@b"];
    for _ in 0..r.n(700, 15000) {
        let mut c = term_ctx(&mut r.rng, 4);
        if let V::Object(m) = &mut c {
            if r.rng.chance(1, 3) { m.insert("@base".into(), if r.rng.chance(1, 3) { V::Null } else { s("http://b/p/q?r#s") }); }
            if r.rng.chance(1, 3) { m.insert("@vocab".into(), V::Null); }
        }
        let out = real(&start().0, &c, &Remote::new(), None, Default::default()).out;
        let Ok(ctx) = out else { continue };
        let pic = picture(&ctx);
        for v in values {
            for (docrel, vocab) in [(false, true), (true, false), (true, true), (false, false)] {
                if pic.terms.contains_key(v) && pic.terms[v].iri.is_none() && !vocab { continue } // unspecified
                let want = expand_iri(&pic, v, docrel, vocab);
                // the specification leaves open which invalid identifier a malformed value becomes
                let malformed = iref::IriRef::new(v).is_err() && v.find(':').is_some_and(|i| i > 0) && !v.starts_with('@') && !is_blank(v) && !pic.terms.contains_key(v)
                    && !v.split_once(':').and_then(|(p, _)| pic.terms.get(p)).is_some_and(|d| d.prefix && d.iri.is_some());
                for action in [Some(Action::Keep), Some(Action::Drop), Some(Action::Reject), None] {
                    if vocab != action.is_some() { continue }
                    let uses_vocab = vocab && pic.vocab.is_some() && vocab_used(&pic, v);
                    r.case("IRI expansion", &format!("{v:?} docrel={docrel} vocab={action:?} in {c}"), || {
                        let mut env = Environment { vocabulary: &mut (), loader: &json_ld_core::NoLoader, warnings: &mut json_ld_core::warning::Print };
                        let got = expand_iri_simple::<W, _, _, _>(&mut Environment { vocabulary: env.vocabulary, loader: env.loader, warnings: &mut Quiet }, &ctx, Nullable::Some(ExpandableRef::from(v)), docrel, action);
                        let _ = &mut env;
                        let want: Result<Option<Option<String>>, ()> = match action { Some(Action::Drop) if uses_vocab => Ok(None), Some(Action::Reject) if uses_vocab => Err(()), _ => Ok(Some(want.clone())) };
                        let kind = |t: &Term| match t { Term::Null => None, Term::Keyword(k) => Some(k.to_string()), Term::Id(i) => Some(i.as_str().to_string()) };
                        let g: Result<Option<Option<String>>, ()> = match &got { Ok(o) => Ok(o.as_ref().map(kind)), Err(_) => Err(()) };
                        if malformed && !matches!(&got, Ok(Some(t)) if !matches!(t, Term::Id(json_ld_core::Id::Invalid(_)))) { return Ok(()) }
                        if g != want { return Err((format!("{want:?}"), format!("{g:?}"))) }
                        // a result is a valid identifier exactly when its text is an IRI or a blank node identifier
                        if let Ok(Some(Term::Id(i))) = &got {
                            let valid = is_iri(i.as_str()) || is_blank(i.as_str());
                            if i.is_valid() != valid { return Err((format!("valid: {valid}"), format!("valid: {}", i.is_valid()))) }
                        }
                        if let Ok(Some(Term::Keyword(_))) = &got { if !g.clone().unwrap().unwrap().is_some_and(|k| is_keyword(&k)) { return Err(("a keyword".into(), format!("{g:?}"))) } }
                        Ok(())
                    });
                }
            }
        }
    }
    struct W;
    impl From<MalformedIri> for W { fn from(_: MalformedIri) -> Self { W } }
    struct Quiet;
    impl<N> json_ld_core::warning::Handler<N, W> for Quiet { fn handle(&mut self, _: &N, _: W) {} }
}
/// whether step 8 (concatenation with the vocabulary mapping) decides
fn vocab_used(c: &Ctx, v: &str) -> bool {
    let other = Ctx { vocab: Some("http://other.vocab/".into()), ..c.clone() };
    expand_iri(c, v, false, true) != expand_iri(&other, v, false, true)
}
