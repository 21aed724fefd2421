//! An independent reading of the context processing, term creation and IRI expansion algorithms of
//! JSON-LD 1.1, over plain JSON and strings. Used to predict what the real code must do.
use iref::{Iri, IriBuf, IriRef};
use serde_json::Value as V;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Def {
    /// IRI, blank node identifier or keyword; `None` is the null mapping
    pub iri: Option<String>,
    pub prefix: bool,
    pub protected: bool,
    pub reverse: bool,
    pub base_url: Option<String>,
    pub context: Option<V>,
    pub container: BTreeSet<String>,
    pub direction: Option<Option<String>>,
    pub index: Option<String>,
    pub language: Option<Option<String>>,
    pub nest: Option<String>,
    pub typ: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ctx {
    pub terms: BTreeMap<String, Def>,
    pub base: Option<String>,
    pub orig_base: Option<String>,
    pub vocab: Option<String>,
    pub lang: Option<String>,
    pub dir: Option<String>,
    pub previous: Option<Box<Ctx>>,
}
#[derive(Clone, Copy)]
pub struct Opt { pub v10: bool, pub over: bool, pub propagate: bool }
impl Default for Opt { fn default() -> Self { Opt { v10: false, over: false, propagate: true } } }

pub type Remote = BTreeMap<String, V>;
/// the world around one run: documents, what was loaded, and what happened on the way
pub struct World<'a> {
    pub docs: &'a Remote,
    pub loads: Vec<String>,
    /// a reference was passed over because its document is on the chain
    pub skipped_ancestor: usize,
    pub steps: usize,
}
impl<'a> World<'a> {
    pub fn new(docs: &'a Remote) -> Self { World { docs, loads: vec![], skipped_ancestor: 0, steps: 0 } }
}
pub type R<T> = Result<T, String>;
fn err<T>(s: &str) -> R<T> { Err(s.to_string()) }

pub const KEYWORDS: &[&str] = &["@base", "@container", "@context", "@default", "@direction", "@embed", "@explicit", "@graph", "@id", "@import", "@included", "@index", "@json", "@language", "@list", "@nest", "@none", "@omitDefault", "@prefix", "@preserve", "@propagate", "@protected", "@requireAll", "@reverse", "@set", "@type", "@value", "@version", "@vocab", "@any", "@null", "@always", "@first", "@last", "@never", "@once", "@link"];
/// the keywords of JSON-LD 1.1 itself (without framing)
pub fn is_keyword(s: &str) -> bool {
    matches!(s, "@base" | "@container" | "@context" | "@direction" | "@graph" | "@id" | "@import" | "@included" | "@index" | "@json" | "@language" | "@list" | "@nest" | "@none" | "@prefix" | "@propagate" | "@protected" | "@reverse" | "@set" | "@type" | "@value" | "@version" | "@vocab")
}
pub fn keyword_like(s: &str) -> bool {
    s.len() > 1 && s.starts_with('@') && s[1..].bytes().all(|b| b.is_ascii_alphabetic())
}
pub fn resolve(r: &str, base: Option<&str>) -> Option<String> {
    let r = IriRef::new(r).ok()?;
    match base {
        Some(b) => Some(r.resolved(Iri::new(b).unwrap()).to_string()),
        None => r.as_iri().map(|i| i.to_string()),
    }
}
pub fn is_iri(s: &str) -> bool { Iri::new(s).is_ok() }
pub fn is_blank(s: &str) -> bool { rdf_types::BlankId::new(s).is_ok() }
fn mid_colon(s: &str) -> bool {
    let n = s.chars().count();
    s.chars().enumerate().any(|(i, c)| c == ':' && i > 0 && i + 1 < n)
}

/// a term definition is being created (`false`) or has been (`true`)
pub type Defined = BTreeMap<String, bool>;
pub struct Local<'a> { pub map: &'a serde_json::Map<String, V>, pub defined: &'a mut Defined, pub stack: &'a [String], pub opt: Opt }

/// IRI expansion without a local context. `vocab`, `docrel`: the flags of the algorithm.
pub fn expand_iri(c: &Ctx, s: &str, docrel: bool, vocab: bool) -> Option<String> {
    expand_tail(c, s, docrel, vocab, |_| Ok(c.clone())).unwrap()
}
/// Steps 1, 2, 4 to 9; `need` defines the prefix of a compact IRI and gives the context afterwards.
fn expand_tail(c: &Ctx, s: &str, docrel: bool, vocab: bool, need: impl FnOnce(&str) -> R<Ctx>) -> R<Option<String>> {
    if is_keyword(s) { return Ok(Some(s.into())) }
    if keyword_like(s) { return Ok(None) }
    if let Some(d) = c.terms.get(s) {
        if let Some(k) = &d.iri { if is_keyword(k) { return Ok(Some(k.clone())) } }
        if vocab { return Ok(d.iri.clone()) }
    }
    let mut c = std::borrow::Cow::Borrowed(c);
    if s.char_indices().any(|(i, ch)| i > 0 && ch == ':') && !s.starts_with(':') {
        let (prefix, suffix) = s.split_once(':').unwrap();
        if prefix == "_" || suffix.starts_with("//") { return Ok(Some(s.into())) }
        c = std::borrow::Cow::Owned(need(prefix)?);
        if let Some(d) = c.terms.get(prefix) {
            if let (true, Some(i)) = (d.prefix, &d.iri) { return Ok(Some(format!("{i}{suffix}"))) }
        }
        if is_iri(s) { return Ok(Some(s.into())) }
    }
    if vocab { if let Some(v) = &c.vocab { return Ok(Some(format!("{v}{s}"))) } }
    if docrel {
        if let Some(i) = resolve(s, c.base.as_deref()) { return Ok(Some(i)) }
    }
    Ok(Some(s.into()))
}
/// IRI expansion during context processing (vocab is always true there)
fn expand_local(w: &mut World, c: &mut Ctx, s: &str, l: &mut Local) -> R<Option<String>> {
    if is_keyword(s) { return Ok(Some(s.into())) }
    if keyword_like(s) { return Ok(None) }
    if l.map.contains_key(s) && !is_context_keyword(s) { create(w, c, s, l, None, false, Opt { over: false, ..l.opt })?; }
    let map = l.map;
    let snapshot = c.clone();
    let mut after = None;
    let r = expand_tail(&snapshot, s, false, true, |p| {
        if map.contains_key(p) && !is_context_keyword(p) { create(w, c, p, l, None, false, Opt { over: false, ..l.opt })?; }
        after = Some(());
        Ok(c.clone())
    });
    r
}
fn is_context_keyword(k: &str) -> bool { matches!(k, "@base" | "@direction" | "@import" | "@language" | "@propagate" | "@protected" | "@version" | "@vocab" | "@type") }

fn container(v: &V) -> R<BTreeSet<String>> {
    let bad = || err("invalid container mapping");
    let items: Vec<&V> = match v { V::Null => return Ok(Default::default()), V::String(_) => vec![v], V::Array(a) => a.iter().collect(), _ => return bad() };
    let mut s = BTreeSet::new();
    for i in &items {
        match i.as_str() {
            Some(k @ ("@graph" | "@id" | "@index" | "@language" | "@list" | "@set" | "@type")) => { s.insert(k.to_string()); }
            _ => return bad(),
        }
    }
    let has = |k: &str| s.contains(k);
    let ok = s.len() <= 1
        || (has("@graph") && (has("@id") != has("@index") || (!has("@id") && has("@set"))) && s.iter().all(|k| matches!(k.as_str(), "@graph" | "@id" | "@index" | "@set")))
        || (has("@set") && s.len() == 2 && !has("@list"));
    if ok { Ok(s) } else { bad() }
}

/// Create Term Definition
pub fn create(w: &mut World, c: &mut Ctx, term: &str, l: &mut Local, base_url: Option<&str>, protected: bool, opt: Opt) -> R<()> {
    w.steps += 1;
    match l.defined.get(term) { Some(true) => return Ok(()), Some(false) => return err("cyclic IRI mapping"), None => () }
    l.defined.insert(term.into(), false);
    let Some(value) = l.map.get(term) else { l.defined.insert(term.into(), true); return Ok(()) };
    if term.is_empty() { return err("invalid term definition") }
    let empty = serde_json::Map::new();
    let mut def = Def { protected, ..Default::default() };
    let previous;
    if term == "@type" {
        if opt.v10 { return err("keyword redefinition") }
        previous = c.terms.remove(term);
        let m = value.as_object().ok_or("keyword redefinition")?;
        if let Some(x) = m.get("@container") { def.container = container(x)?; }
        if let Some(V::Bool(b)) = m.get("@protected") { def.protected = *b }
        def.iri = Some("@type".into());
    } else {
        if is_keyword(term) { return err("keyword redefinition") }
        if keyword_like(term) { l.defined.insert(term.into(), true); return Ok(()) }
        previous = c.terms.remove(term);
        let null_id: serde_json::Map<String, V> = serde_json::from_str("{\"@id\":null}").unwrap();
        let mut simple = false;
        let owned;
        let m = match value {
            V::Null => &null_id,
            V::String(s) => { simple = true; let mut o = empty.clone(); o.insert("@id".into(), V::String(s.clone())); owned = o; &owned }
            V::Object(o) => o,
            _ => return err("invalid term definition"),
        };
        if let Some(p) = m.get("@protected") {
            if opt.v10 { return err("invalid term definition") }
            def.protected = p.as_bool().ok_or("invalid @protected value")?;
        }
        if let Some(t) = m.get("@type") {
            let t = t.as_str().ok_or("invalid type mapping")?;
            let t = expand_local(w, c, t, l)?;
            match t.as_deref() {
                Some("@json" | "@none") if opt.v10 => return err("invalid type mapping"),
                Some("@id" | "@json" | "@none" | "@vocab") => (),
                Some(i) if is_iri(i) => (),
                _ => return err("invalid type mapping"),
            }
            def.typ = t;
        }
        if let Some(rv) = m.get("@reverse") {
            if m.contains_key("@id") || m.contains_key("@nest") { return err("invalid reverse property") }
            let s = rv.as_str().ok_or("invalid IRI mapping")?;
            if keyword_like(s) { return Ok(()) }
            let i = expand_local(w, c, s, l)?;
            match i { Some(i) if is_iri(&i) || is_blank(&i) => def.iri = Some(i), _ => return err("invalid IRI mapping") }
            if let Some(x) = m.get("@container") {
                let s = container(x).map_err(|_| "invalid reverse property".to_string())?;
                if s.len() > 1 || s.iter().any(|k| k != "@set" && k != "@index") { return err("invalid reverse property") }
                def.container = s;
            }
            def.reverse = true;
            c.terms.insert(term.into(), def);
            l.defined.insert(term.into(), true);
            return Ok(());
        }
        let id = m.get("@id");
        if id.is_some() && id.unwrap().as_str() != Some(term) {
            match id.unwrap() {
                V::Null => (),
                V::String(s) => {
                    if keyword_like(s) && !is_keyword(s) { return Ok(()) }
                    let i = expand_local(w, c, s, l)?;
                    match &i {
                        Some(k) if k == "@context" => return err("invalid keyword alias"),
                        Some(k) if is_keyword(k) || is_iri(k) || is_blank(k) => (),
                        _ => return err("invalid IRI mapping"),
                    }
                    def.iri = i;
                    if mid_colon(term) || term.contains('/') {
                        l.defined.insert(term.into(), true);
                        if expand_local(w, c, term, l)? != def.iri { return err("invalid IRI mapping") }
                    }
                    if !term.contains(':') && !term.contains('/') && simple {
                        let i = def.iri.as_deref().unwrap();
                        if is_blank(i) || !is_keyword(i) && i.ends_with([':', '/', '?', '#', '[', ']', '@']) { def.prefix = true }
                    }
                }
                _ => return err("invalid IRI mapping"),
            }
        } else if let Some((prefix, suffix)) = term.split_once(':').filter(|(p, _)| !p.is_empty()) {
            if l.map.contains_key(prefix) && !is_context_keyword(prefix) { create(w, c, prefix, l, None, false, Opt { over: false, ..opt })?; }
            match c.terms.get(prefix) {
                Some(d) if !suffix.starts_with("//") => {
                    let i = format!("{}{suffix}", d.iri.as_deref().filter(|i| is_iri(i)).unwrap_or(""));
                    if !is_iri(&i) { return err("invalid IRI mapping") }
                    def.iri = Some(i)
                }
                _ => def.iri = Some(term.into()),
            }
        } else if term.contains('/') {
            match expand_iri(c, term, false, true) { Some(i) if is_iri(&i) => def.iri = Some(i), _ => return err("invalid IRI mapping") }
        } else if let Some(v) = &c.vocab {
            let i = format!("{v}{term}");
            if !is_iri(&i) { return err("invalid IRI mapping") }
            def.iri = Some(i)
        } else {
            return err("invalid IRI mapping");
        }
        if let Some(x) = m.get("@container") {
            let s = container(x)?;
            if opt.v10 && (!x.is_string() || s.iter().any(|k| matches!(k.as_str(), "@graph" | "@id" | "@type"))) { return err("invalid container mapping") }
            def.container = s;
            if def.container.contains("@type") {
                match def.typ.as_deref() { None => def.typ = Some("@id".into()), Some("@id" | "@vocab") => (), _ => return err("invalid type mapping") }
            }
        }
        if let Some(x) = m.get("@index") {
            if opt.v10 || !def.container.contains("@index") { return err("invalid term definition") }
            let s = x.as_str().ok_or("invalid term definition")?;
            match expand_iri(c, s, false, true) { Some(i) if is_iri(&i) => (), _ => return err("invalid term definition") }
            def.index = Some(s.into());
        }
        if let Some(x) = m.get("@context") {
            if opt.v10 { return err("invalid term definition") }
            process(w, c, x, l.stack, base_url, Opt { over: true, ..l.opt }).map_err(|_| "invalid scoped context".to_string())?;
            def.context = Some(normal(x));
            def.base_url = base_url.map(String::from);
        }
        if !m.contains_key("@type") {
            if let Some(x) = m.get("@language") { def.language = Some(x.as_str().map(String::from)) }
            if let Some(x) = m.get("@direction") { def.direction = Some(x.as_str().map(String::from)) }
        }
        if let Some(x) = m.get("@nest") {
            if opt.v10 { return err("invalid term definition") }
            let s = x.as_str().unwrap_or("@x");
            if is_keyword(s) && s != "@nest" { return err("invalid @nest value") }
            def.nest = Some(s.into());
        }
        if let Some(x) = m.get("@prefix") {
            if opt.v10 || term.contains(':') || term.contains('/') { return err("invalid term definition") }
            def.prefix = x.as_bool().ok_or("invalid @prefix value")?;
            if def.prefix && def.iri.as_deref().is_some_and(is_keyword) { return err("invalid term definition") }
        }
        for k in m.keys() {
            if !matches!(k.as_str(), "@id" | "@reverse" | "@container" | "@context" | "@direction" | "@index" | "@language" | "@nest" | "@prefix" | "@protected" | "@type") {
                return err("invalid term definition");
            }
        }
    }
    if let (false, Some(p)) = (opt.over, previous) {
        if p.protected {
            let low = |d: &Def| Def { protected: true, language: d.language.clone().map(|l| l.map(|l| l.to_ascii_lowercase())), ..d.clone() };
            let same = low(&def) == low(&p);
            if !same { return err("protected term redefinition") }
            def.protected = true;
        }
    }
    c.terms.insert(term.into(), def);
    l.defined.insert(term.into(), true);
    Ok(())
}

/// Context Processing
pub fn process(w: &mut World, active: &Ctx, local: &V, stack: &[String], base_url: Option<&str>, mut opt: Opt) -> R<Ctx> {
    w.steps += 1;
    let mut result = active.clone();
    if let V::Object(m) = local {
        if let Some(p) = m.get("@propagate") {
            if opt.v10 { return err("invalid context entry") }
            opt.propagate = p.as_bool().ok_or("invalid @propagate value")?;
        }
    }
    if !opt.propagate && result.previous.is_none() { result.previous = Some(Box::new(active.clone())) }
    let one = [local.clone()];
    let items: &[V] = match local { V::Array(a) => a, _ => &one };
    for item in items {
        match item {
            V::Null => {
                if !opt.over && result.terms.values().any(|d| d.protected) { return err("invalid context nullification") }
                let prev = result;
                result = Ctx { base: active.orig_base.clone(), orig_base: active.orig_base.clone(), ..Default::default() };
                if !opt.propagate { result.previous = Some(Box::new(prev)) }
            }
            V::String(s) => {
                let url = resolve(s, base_url).ok_or("loading document failed")?;
                if stack.contains(&url) { w.skipped_ancestor += 1; continue }
                let mut stack = stack.to_vec();
                stack.push(url.clone());
                w.loads.push(url.clone());
                let doc = w.docs.get(&url).ok_or("loading remote context failed")?;
                let ctx = doc.get("@context").ok_or("invalid remote context")?;
                result = process(w, &result, ctx, &stack, Some(&url), Opt { v10: opt.v10, over: false, propagate: true })?;
            }
            V::Object(m) => {
                if m.contains_key("@version") && opt.v10 { return err("processing mode conflict") }
                let mut merged = m.clone();
                if let Some(i) = m.get("@import") {
                    if opt.v10 { return err("invalid context entry") }
                    let url = resolve(i.as_str().ok_or("invalid @import value")?, base_url).ok_or("invalid @import value")?;
                    w.loads.push(url.clone());
                    let doc = w.docs.get(&url).ok_or("loading remote context failed")?;
                    let Some(V::Object(im)) = doc.get("@context") else { return err("invalid remote context") };
                    if im.contains_key("@import") { return err("invalid context entry") }
                    let mut mm = serde_json::Map::new();
                    for (k, v) in im { if !m.contains_key(k) { mm.insert(k.clone(), v.clone()); } }
                    for (k, v) in m { mm.insert(k.clone(), v.clone()); }
                    merged = mm;
                }
                let m = &merged;
                if stack.is_empty() {
                    match m.get("@base") {
                        None => (),
                        Some(V::Null) => result.base = None,
                        Some(V::String(s)) => result.base = Some(if is_iri(s) { s.clone() } else {
                            let b = result.base.clone().ok_or("invalid base IRI")?;
                            resolve(s, Some(&b)).ok_or("invalid base IRI")?
                        }),
                        _ => return err("invalid base IRI"),
                    }
                }
                match m.get("@vocab") {
                    None => (),
                    Some(V::Null) => result.vocab = None,
                    Some(V::String(s)) => match expand_iri(&result, s, true, true) {
                        Some(i) if !is_keyword(&i) => result.vocab = Some(i),
                        _ => return err("invalid vocab mapping"),
                    },
                    _ => return err("invalid vocab mapping"),
                }
                if let Some(x) = m.get("@language") { result.lang = x.as_str().map(String::from) }
                if let Some(x) = m.get("@direction") {
                    if opt.v10 { return err("invalid context entry") }
                    result.dir = x.as_str().map(String::from)
                }
                let protected = m.get("@protected").and_then(|b| b.as_bool()).unwrap_or(false);
                let mut defined = Defined::new();
                let order: Vec<&String> = m.keys().filter(|k| *k == "@type").chain(m.keys().filter(|k| !is_context_keyword(k))).collect();
                for k in order {
                    let mut l = Local { map: m, defined: &mut defined, stack: &stack, opt };
                    create(w, &mut result, k, &mut l, base_url, protected, opt)?;
                }
            }
            _ => return err("invalid local context"),
        }
    }
    Ok(result)
}

/// a scoped context as the library prints it
pub fn normal(x: &V) -> V {
    use json_ld_syntax::IntoJson;
    match crate::util::context(&x.to_string()) {
        Ok(c) => serde_json::from_str(&crate::util::show(&c.into_json())).unwrap(),
        Err(_) => x.clone(),
    }
}
// ---- the same picture of the real context --------------------------------------------------------
use json_ld_core::context::TermDefinitionRef;
use json_ld_core::{Context, Term, Type};
use json_ld_syntax::Nullable;
fn term_text(t: &Term) -> Option<String> { match t { Term::Null => None, t => Some(t.as_str().to_string()) } }
pub fn picture(c: &Context) -> Ctx {
    use json_ld_syntax::IntoJson;
    let mut terms = BTreeMap::new();
    for b in c.definitions().iter() {
        let d = b.definition();
        let def = match d {
            TermDefinitionRef::Type(t) => Def { iri: Some("@type".into()), protected: t.protected, container: ["@set".to_string()].into(), ..Default::default() },
            TermDefinitionRef::Normal(n) => Def {
                iri: n.value.as_ref().and_then(term_text),
                prefix: n.prefix,
                protected: n.protected,
                reverse: n.reverse_property,
                base_url: n.base_url.as_ref().map(|b| b.to_string()),
                context: n.context.as_ref().map(|c| serde_json::from_str(&crate::util::show(&(**c).clone().into_json())).unwrap()),
                container: n.container.as_slice().iter().map(|k| k.as_str().to_string()).collect(),
                direction: n.direction.map(|d| match d { Nullable::Null => None, Nullable::Some(d) => Some(d.as_str().to_string()) }),
                index: n.index.as_ref().map(|i| i.as_str().to_string()),
                language: n.language.as_ref().map(|l| match l { Nullable::Null => None, Nullable::Some(l) => Some(l.as_str().to_string()) }),
                nest: n.nest.as_ref().map(|n| n.as_str().to_string()),
                typ: n.typ.as_ref().map(|t| match t { Type::Iri(i) => i.to_string(), t => t.as_str().to_string() }),
            },
        };
        terms.insert(b.term().as_str().to_string(), def);
    }
    Ctx {
        terms,
        base: c.base_iri().map(|i| i.to_string()),
        orig_base: c.original_base_url().map(|i| i.to_string()),
        vocab: c.vocabulary().and_then(term_text),
        lang: c.default_language().map(|l| l.as_str().to_string()),
        dir: c.default_base_direction().map(|d| d.as_str().to_string()),
        previous: c.previous_context().map(|p| Box::new(picture(p))),
    }
}
impl Ctx {
    /// scoped contexts compared as parsed JSON
    pub fn same(&self, o: &Ctx) -> bool { self == o }
    pub fn text(&self) -> String { format!("{self:?}") }
}
pub fn iri_buf(s: &str) -> IriBuf { IriBuf::new(s.to_string()).unwrap() }
