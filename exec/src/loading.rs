//! Loaders, remote documents and references to them.
use crate::run::Run;
use crate::util::{self, iri, j};
use hashbrown::HashSet;
use iref::{Iri, IriBuf};
use json_ld::{ContextLoadError as CL, ExtractContext, ExtractContextError as X, FsLoader, Loader, LoadError, NoLoader, Profile, RemoteContextReference, RemoteDocument, RemoteDocumentReference};
use json_ld_core::loader::{self, ChainLoader, StandardProfile as S};
use json_syntax::Value as J;
use rdf_types::vocabulary::{IriVocabulary, IriVocabularyMut};
use std::collections::{BTreeMap, HashMap};
use std::io::ErrorKind;

const STANDARD: &[(S, &str)] = &[
    (S::Expanded, "http://www.w3.org/ns/json-ld#expanded"), (S::Compacted, "http://www.w3.org/ns/json-ld#compacted"), (S::Context, "http://www.w3.org/ns/json-ld#context"),
    (S::Flattened, "http://www.w3.org/ns/json-ld#flattened"), (S::Framed, "http://www.w3.org/ns/json-ld#framed"),
];
fn ld() -> &'static str { "application/ld+json" }
/// everything a document holds, printed
fn shown<I, T>(d: &RemoteDocument<I, T>, i: impl Fn(&I) -> String, t: impl Fn(&T) -> String) -> String {
    let mut p: Vec<String> = d.profile.iter().map(|p| match p { Profile::Standard(s) => format!("standard {}", s.iri()), Profile::Custom(c) => format!("custom {}", i(c)) }).collect();
    p.sort();
    format!("url {:?} type {:?} context {:?} profiles {:?} document {}", d.url.as_ref().map(&i), d.content_type.as_ref().map(|m| m.to_string()), d.context_url.as_ref().map(&i), p, t(&d.document))
}
fn text(i: &IriBuf) -> String { i.to_string() }
fn plain(d: &RemoteDocument) -> String { shown(d, text, util::canon) }
/// a document from pieces
fn build(url: Option<&str>, ty: Option<&str>, ctx: Option<&str>, profiles: &[&str], doc: &str) -> RemoteDocument {
    RemoteDocument::new_full(url.map(iri), ty.map(|t| t.parse().unwrap()), ctx.map(iri), profiles.iter().map(|p| Profile::new(Iri::new(p).unwrap())).collect(), j(doc))
}
fn samples() -> Vec<RemoteDocument> {
    let mut v = vec![];
    for url in [None, Some("http://a/x"), Some("http://a/redirected")] {
        for ty in [None, Some("application/ld+json"), Some("application/json"), Some("text/html; charset=utf-8")] {
            for ctx in [None, Some("http://a/ctx")] {
                for p in [&[][..], &["http://www.w3.org/ns/json-ld#expanded"], &["http://a/p"], &["http://www.w3.org/ns/json-ld#context", "http://a/p", "http://www.w3.org/ns/json-ld#framed", "http://a/q"]] {
                    for d in ["null", r#"{"@id":"http://a/i","b":[1,2]}"#] { v.push(build(url, ty, ctx, p, d)) }
                }
            }
        }
    }
    v
}
/// a loader that answers a document whose URL differs from the one asked
struct Fixed(RemoteDocument);
impl Loader for Fixed { async fn load(&self, _: &Iri) -> Result<RemoteDocument, LoadError> { Ok(self.0.clone()) } }
#[derive(Debug)]
struct No(&'static str);
impl std::fmt::Display for No { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for No {}
/// a loader that counts and always fails, or fails with another target
struct Failing(&'static str, Option<&'static str>, std::cell::Cell<usize>);
impl Loader for Failing { async fn load(&self, u: &Iri) -> Result<RemoteDocument, LoadError> { self.2.set(self.2.get() + 1); Err(LoadError::new(self.1.map(iri).unwrap_or(u.to_owned()), No(self.0))) } }
struct Counting<L>(L, std::cell::Cell<usize>);
impl<L: Loader> Loader for Counting<L> { async fn load(&self, u: &Iri) -> Result<RemoteDocument, LoadError> { self.1.set(self.1.get() + 1); self.0.load(u).await } }
fn answer<I, T>(r: &Result<RemoteDocument<I, T>, LoadError>, i: impl Fn(&I) -> String, t: impl Fn(&T) -> String) -> String {
    match r { Ok(d) => shown(d, i, t), Err(e) => format!("error for {}: {}", e.target, e.cause) }
}
fn got(r: &Result<RemoteDocument, LoadError>) -> String { answer(r, text, util::canon) }

pub fn run(r: &mut Run) {
    profiles(r);
    documents(r);
    contexts(r);
    loaders(r);
    files(r);
    references(r);
}
fn profiles(r: &mut Run) {
    let mut texts: Vec<String> = STANDARD.iter().map(|s| s.1.to_string()).collect();
    for (_, t) in STANDARD {
        for x in [t.to_uppercase(), format!("{t}x"), t[..t.len() - 1].to_string(), t.replace("http:", "https:"), t.replace('#', "/"), t.replace("json-ld", "json_ld"), format!("{t}%20"), t.replace("www.w3.org", "www.w3.org:80")] { texts.push(x) }
    }
    for x in ["http://a/p", "urn:x", "http://www.w3.org/ns/json-ld#", "http://www.w3.org/ns/json-ld", "http://www.w3.org/ns/json-ld#frame"] { texts.push(x.into()) }
    for t in &texts {
        let want = STANDARD.iter().find(|s| s.1 == t).map(|s| s.0);
        let i = iri(t);
        r.case("an IRI is a standard profile exactly when it is the profile's address", t, || { let g = S::from_iri(&i); if g == want { Ok(()) } else { Err((format!("{want:?}"), format!("{g:?}"))) } });
        r.eq("a profile has the IRI it was made from", t, t.clone(), || Profile::new(&i).iri().to_string());
        r.eq("a profile is custom exactly when its IRI is no standard profile's", t, want.is_none(), || matches!(Profile::new(&i), Profile::Custom(_)));
        r.eq("a profile in a vocabulary has the IRI it was made from", t, (t.clone(), want.is_none()), || { let mut v: rdf_types::vocabulary::IndexVocabulary = Default::default(); let p = Profile::new_with(&i, &mut v); (p.iri_with(&v).to_string(), matches!(p, Profile::Custom(_))) });
        r.eq("mapping the IRI of a profile maps custom ones only", t, if want.is_some() { format!("standard {t}") } else { format!("custom {}", t.len()) }, || match Profile::new(&i).map_iri(|c| c.as_str().len()) { Profile::Standard(s) => format!("standard {}", s.iri()), Profile::Custom(n) => format!("custom {n}") });
    }
    for (s, t) in STANDARD { r.eq("a standard profile has its address", t, t.to_string(), || s.iri().to_string()) }
}
fn documents(r: &mut Run) {
    for d in samples() {
        let s = plain(&d);
        r.eq("map applies the function to the document and keeps the rest", &s, shown(&d, text, |x| format!("[{}]", util::canon(x))), || shown(&d.clone().map(|x| J::Array(vec![x])), text, util::canon));
        r.eq("try_map that succeeds is map", &s, shown(&d, text, |x| format!("[{}]", util::canon(x))), || shown(&d.clone().try_map(|x| Ok::<J, ()>(J::Array(vec![x]))).unwrap(), text, util::canon));
        r.eq("try_map that fails gives the failure", &s, Some(util::show(&d.document)), || d.clone().try_map(|x| Err::<J, String>(util::show(&x))).err());
        r.eq("map_iris maps the URL, the context URL and the custom profiles", &s, shown(&d, |i| format!("{i}!"), util::canon), || { let mut n = 0; shown(&d.clone().map_iris(|i| { n += 1; format!("{i}!") }), |x| x.clone(), util::canon) });
        r.eq("the accessors give the parts", &s, (d.url.clone(), d.context_url.clone(), d.content_type.as_ref().map(|m| m.to_string()), util::canon(&d.document)), || (d.url().cloned(), d.context_url().cloned(), d.content_type().map(|m| m.to_string()), util::canon(d.document())));
        r.eq("into_document and into_url give the parts", &s, (d.url.clone(), util::canon(&d.document)), || (d.clone().into_url(), util::canon(&d.clone().into_document())));
        r.eq("set_url changes the URL only", &s, shown(&d, text, util::canon).replacen(&format!("{:?}", d.url.as_ref().map(text)), "Some(\"http://n/\")", 1), || { let mut e = d.clone(); e.set_url(Some(iri("http://n/"))); plain(&e) });
        r.eq("document_mut changes the document only", &s, shown(&d, text, |_| "7".into()), || { let mut e = d.clone(); *e.document_mut() = j("7"); plain(&e) });
        r.eq("a new document has no context URL and no profile", &s, shown(&RemoteDocument { context_url: None, profile: HashSet::new(), ..d.clone() }, text, util::canon), || plain(&RemoteDocument::new(d.url.clone(), d.content_type.clone(), d.document.clone())));
    }
}
/// the context a document holds: its text, or what is wrong
fn held(v: &str) -> String {
    let v = j(v);
    match v.as_object() {
        None => format!("unexpected {}", v.kind()),
        Some(o) => {
            let c: Vec<&J> = o.get("@context").collect();
            match c.len() {
                0 => "missing".into(),
                1 => match util::context(&util::show(c[0])) { Ok(_) => format!("context {}", util::canon(c[0])), Err(e) => format!("syntax {e}") },
                _ => "duplicate".into(),
            }
        }
    }
}
fn holding(r: Result<json_ld::syntax::Context, X>) -> String {
    use json_ld::syntax::IntoJson;
    match r {
        Ok(c) => format!("context {}", util::canon(&c.into_json())),
        Err(X::Unexpected(k)) => format!("unexpected {k}"),
        Err(X::NoContext) => "missing".into(),
        Err(X::DuplicateContext) => "duplicate".into(),
        Err(X::Syntax(e)) => format!("syntax {}", e.code()),
    }
}
const HOLDERS: &[&str] = &[
    "null", "true", "5", "\"a\"", "[]", r#"[{"@context":{}}]"#, "{}", r#"{"context":{}}"#, r#"{"a":{"@context":{}}}"#, r#"{"@context":{}}"#, r#"{"@context":null}"#, r#"{"@context":"http://a/c"}"#,
    r#"{"@context":[{},null,"x"]}"#, r#"{"@context":{"a":"http://a/a","b":{"@id":"http://a/b","@type":"@id"}},"a":1}"#, r#"{"a":1,"@context":{"@vocab":"http://v/"},"b":2}"#, r#"{"@context":{},"@context":{}}"#,
    r#"{"@context":{"a":"http://a/a"},"x":1,"@context":{"a":"http://a/b"}}"#, r#"{"@context":null,"@context":null,"@context":null}"#, r#"{"@context":5}"#, r#"{"@context":true}"#, r#"{"@context":{"a":5}}"#, r#"{"@context":{"@vocab":5}}"#, r#"{"@context":{"a":{"@id":5}}}"#, r#"{"@context":[5]}"#,
];
fn contexts(r: &mut Run) {
    for h in HOLDERS { r.eq("the context of a document is the value of its only @context", h, held(h), || holding(j(h).into_ld_context())) }
}
fn loaders(r: &mut Run) {
    let urls = ["http://a/x", "http://a/y", "http://a/x#f", "http://A/x", "http://a/X", "http://a/x/", "http://a/x?q", "urn:n", "http://b/x"];
    let s = samples();
    for (n, url) in urls.iter().enumerate() {
        let u = iri(url);
        let none: Result<RemoteDocument, LoadError> = util::block(NoLoader.load(&u));
        r.holds("no loader loads nothing", url, || match &none { Err(e) => e.target == u && e.cause.downcast_ref::<loader::none::CannotLoad>().is_some(), Ok(_) => false });
        for present in 0..(1 << 3) {
            let some: Vec<(IriBuf, RemoteDocument)> = (0..3).filter(|k| present >> k & 1 == 1).map(|k| (iri(urls[(n + 3 * k) % urls.len()]), s[(n * 7 + k * 13) % s.len()].clone())).collect();
            let want = some.iter().find(|x| x.0 == u).map(|x| plain(&x.1));
            let input = format!("{url} among {:?}", some.iter().map(|x| x.0.to_string()).collect::<Vec<_>>());
            let h: HashMap<IriBuf, RemoteDocument> = some.iter().cloned().collect();
            let b: BTreeMap<IriBuf, RemoteDocument> = some.iter().cloned().collect();
            let missing = |x: &Result<RemoteDocument, LoadError>| match x { Err(e) => e.target == u && e.cause.downcast_ref::<loader::map::EntryNotFound>().is_some(), Ok(_) => false };
            for (name, x) in [("hash map", util::block(h.load(&u))), ("ordered map", util::block(b.load(&u))), ("reference to a map", util::block((&b).load(&u))), ("reference to a reference", util::block((&&h).load(&u)))] {
                r.case(&format!("a {name} loads the document registered under the URL"), &input, || match &want { Some(w) => if x.as_ref().ok().map(plain).as_ref() == Some(w) { Ok(()) } else { Err((w.clone(), got(&x))) }, None => if missing(&x) { Ok(()) } else { Err(("not found".into(), got(&x))) } });
            }
            // in a vocabulary with other IRIs in it
            let x = |with: &dyn Fn(&mut rdf_types::vocabulary::IndexVocabulary, usize) -> String| { let mut v: rdf_types::vocabulary::IndexVocabulary = Default::default(); for k in 0..present { v.insert(Iri::new(urls[k % urls.len()]).unwrap()); } with(&mut v, 0) };
            r.eq("load_with gives the same document with its IRIs in the vocabulary", &input, want.clone().unwrap_or(format!("error for {url}: document not found")), || x(&|v, _| { let i = v.insert(&u); let d = util::block(b.load_with(v, i)); answer(&d, |i| v.iri(i).unwrap().to_string(), util::canon) }));
            r.eq("load_with through a reference is the same", &input, want.clone().unwrap_or(format!("error for {url}: document not found")), || x(&|v, _| { let i = v.insert(&u); let d = util::block((&&h).load_with(v, i)); answer(&d, |i| v.iri(i).unwrap().to_string(), util::canon) }));
        }
        // chains
        let (one, two) = (build(Some("http://one/"), None, None, &[], "1"), build(Some("http://two/"), None, None, &[], "2"));
        for k in 0..4 {
            let mk = |on: bool, d: &RemoteDocument| -> BTreeMap<IriBuf, RemoteDocument> { if on { [(u.clone(), d.clone())].into() } else { Default::default() } };
            let c = ChainLoader::new(mk(k & 1 == 1, &one), mk(k & 2 == 2, &two));
            let want = if k & 1 == 1 { plain(&one) } else if k & 2 == 2 { plain(&two) } else { format!("error for {url}: document not found, then document not found") };
            r.eq("a chain asks the first loader, then the second", &format!("{url} {k}"), want, || got(&util::block(c.load(&u))));
        }
        let (a, b) = (Failing("first", Some("http://f/"), Default::default()), Failing("second", Some("http://s/"), Default::default()));
        let x = util::block(ChainLoader::new(&a, &b).load(&u));
        r.case("a chain of two failures reports both, for the URL of the last", url, || match &x { Err(e) if e.target == iri("http://s/") && e.cause.downcast_ref::<loader::chain::Error>().map(|l| (l.0.to_string(), l.1.to_string())) == Some(("first".into(), "second".into())) && (a.2.get(), b.2.get()) == (1, 1) => Ok(()), _ => Err(("first, then second".into(), got(&x))) });
        let (f, c) = (Fixed(one.clone()), Counting(Fixed(two.clone()), Default::default()));
        let x = util::block(ChainLoader::new(&f, &c).load(&u));
        r.eq("a chain whose first loader answers does not ask the second", url, (plain(&one), 0), || (got(&x), c.1.get()));
        let c = ChainLoader::new(NoLoader, ChainLoader::new(NoLoader, Fixed(two.clone())));
        r.eq("chains nest", url, plain(&two), || got(&util::block(c.load(&u))));
    }
}
/// where the file of a URL is looked for: the first mount whose URL starts it, and the segments after it
fn files(r: &mut Run) {
    let dir = std::env::temp_dir().join(format!("jlx-loading-{}", std::process::id()));
    let _ = std::fs::create_dir_all(dir.join("one/sub/deep"));
    let _ = std::fs::create_dir_all(dir.join("two"));
    let put = |p: &str, c: &[u8]| std::fs::write(dir.join(p), c).unwrap();
    put("one/a.json", br#"{"in":"one"}"#); put("one/sub/b.json", b"[1, 2]"); put("one/sub/deep/c", b"\"c\""); put("two/a.json", br#"{"in":"two"}"#); put("two/only", b"null"); put("one/bad.json", b"{\"a\":"); put("one/empty", b""); put("one/trail", b"{} x"); put("one/latin", b"\"\xe9\""); put("secret", b"\"secret\"");
    put("one/a%20b", b"\"percent\""); put("one/d.jsonld", "\"\u{e9}\"".as_bytes());
    let mounts: &[(&str, &[(&str, &str)])] = &[
        ("one", &[("http://m/", "one")]), ("two mounts", &[("http://m/", "one"), ("http://n/", "two")]), ("the first wins", &[("http://m/", "two"), ("http://m/", "one")]), ("a longer one later", &[("http://m/", "one"), ("http://m/sub/", "two")]),
        ("a longer one first", &[("http://m/sub", "two"), ("http://m/", "one")]), ("none", &[]), ("a deep mount", &[("http://m/x/y", "one")]),
    ];
    let urls: &[(&str, &[&str])] = &[
        ("http://m/a.json", &["a.json"]), ("http://m/sub/b.json", &["sub", "b.json"]), ("http://m/sub/deep/c", &["sub", "deep", "c"]), ("http://m/only", &["only"]), ("http://m/sub/a.json", &["sub", "a.json"]), ("http://n/a.json", &["a.json"]), ("http://n/missing", &["missing"]), ("http://m/missing.json", &["missing.json"]),
        ("http://m/bad.json", &["bad.json"]), ("http://m/empty", &["empty"]), ("http://m/trail", &["trail"]), ("http://m/latin", &["latin"]), ("http://m/d.jsonld", &["d.jsonld"]), ("https://m/a.json", &["a.json"]), ("http://o/a.json", &["a.json"]), ("http://m/../secret", &["secret"]), ("http://m/sub/../../secret", &["secret"]), ("http://m/sub/../a.json", &["a.json"]),
        ("http://m/x/y/a.json", &["x", "y", "a.json"]), ("http://m/x/a.json", &["x", "a.json"]), ("http://m/x/y/../a.json", &["x", "a.json"]), ("http://m/a%20b", &["a%20b"]), ("http://m/a.json?q=1", &["a.json"]), ("http://m/a.json#f", &["a.json"]), ("http://m/sub", &["sub"]), ("http://m:80/a.json", &["a.json"]), ("http://u@m/a.json", &["a.json"]),
    ];
    for (name, ms) in mounts {
        let mut l = FsLoader::new();
        for (u, d) in *ms { l.mount(iri(u), dir.join(d)) }
        for (url, segs) in urls {
            let u = iri(url);
            let input = format!("{url} with {name}");
            // the mount point: scheme and authority equal, and its path segments a prefix
            let parts = |t: &str| -> (String, Vec<String>) { let (s, rest) = t.split_once("://").unwrap(); let rest = rest.split(['?', '#']).next().unwrap(); let (a, p) = rest.split_once('/').unwrap_or((rest, "")); (format!("{s}://{a}"), p.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()) };
            let site = parts(url).0;
            let want = ms.iter().find_map(|(m, d)| { let (ms, mp) = parts(m); (ms == site && segs.len() >= mp.len() && mp.iter().zip(*segs).all(|(a, b)| a == b)).then(|| segs[mp.len()..].iter().fold(dir.join(d), |p, s| p.join(s))) });
            r.eq("the file of a URL is below the first directory mounted on a start of it", &input, want.clone(), || l.filepath(&u));
            let x = util::block(l.load(&u));
            r.case("the file loader gives the parsed content of the file under the URL asked, or says why not", &input, || {
                let bad = |w: &str| Err((w.to_string(), got(&x)));
                let err = |e: &LoadError| match e.cause.downcast_ref::<loader::fs::Error>() { Some(loader::fs::Error::NoMountPoint) => "mount".to_string(), Some(loader::fs::Error::IO(i)) => format!("io {:?}", i.kind()), Some(loader::fs::Error::Parse(_)) => "parse".into(), None => "other".into() };
                let expected = match &want {
                    None => "mount".to_string(),
                    Some(p) => match std::fs::read(p) { Err(e) => format!("io {:?}", e.kind()), Ok(b) => match String::from_utf8(b) { Err(_) => format!("io {:?}", ErrorKind::InvalidData), Ok(t) => if serde_json::from_str::<serde_json::Value>(&t).is_err() { "parse".into() } else { plain(&build(Some(url), Some(ld()), None, &[], &t)) } } },
                };
                let g = match &x { Ok(d) => plain(d), Err(e) if e.target == u => err(e), Err(e) => format!("error for {}", e.target) };
                if g == expected { Ok(()) } else { bad(&expected) }
            });
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
fn references(r: &mut Run) {
    let mut m: BTreeMap<IriBuf, RemoteDocument> = Default::default();
    for (n, h) in HOLDERS.iter().enumerate() { let mut d = build(Some(&format!("http://final/{n}")), Some("application/ld+json"), if n % 2 == 0 { Some("http://a/ctx") } else { None }, &["http://a/p", "http://www.w3.org/ns/json-ld#context"], h); if n % 5 == 4 { d.url = None } m.insert(iri(&format!("http://a/{n}")), d); }
    for n in 0..HOLDERS.len() + 1 {
        let url = format!("http://a/{n}");
        let h = HOLDERS.get(n).copied();
        let missing = format!("error for {url}: document not found");
        let want = m.get(&iri(&url)).map(plain).unwrap_or(missing.clone());
        type V = rdf_types::vocabulary::IndexVocabulary;
        let vocab = || -> V { let mut v = V::default(); for k in 0..n { v.insert(Iri::new(&format!("http://z/{k}")).unwrap()); } v };
        let name = |v: &V, i: &<V as rdf_types::vocabulary::IriVocabulary>::Iri| v.iri(i).unwrap().to_string();
        r.eq("a reference to a document loads it", &url, want.clone(), || { let mut v = vocab(); let i = v.insert(Iri::new(&url).unwrap()); let d = util::block(RemoteDocumentReference::iri(i).load_with(&mut v, &m)); answer(&d, |i| name(&v, i), util::canon) });
        r.eq("a borrowed reference to a document loads it", &url, want.clone(), || { let mut v = vocab(); let i = v.insert(Iri::new(&url).unwrap()); let f = RemoteDocumentReference::<_, J>::iri(i); let d = util::block(f.loaded_with(&mut v, &m)).map(|d| d.into_owned()); answer(&d, |i| name(&v, i), util::canon) });
        let want = match (m.get(&iri(&url)), h) { (Some(d), Some(h)) => match held(h) { c if c.starts_with("context ") => Ok(shown(d, text, |_| c["context ".len()..].to_string())), c => Err(c) }, _ => Err(missing.clone()) };
        let ctx = |x: Result<RemoteDocument<_, json_ld::syntax::Context>, CL>, v: &V| -> Result<String, String> { use json_ld::syntax::IntoJson; match x { Ok(d) => Ok(shown(&d, |i| name(v, i), |c| util::canon(&c.clone().into_json()))), Err(CL::LoadingDocumentFailed(e)) => Err(format!("error for {}: {}", e.target, e.cause)), Err(CL::ContextExtractionFailed(e)) => Err(holding(Err(e))) } };
        r.eq("a reference to a context loads the document and takes its context", &url, want.clone(), || { let mut v = vocab(); let i = v.insert(Iri::new(&url).unwrap()); let d = util::block(RemoteContextReference::iri(i).load_context_with(&mut v, &m)); ctx(d, &v) });
        r.eq("a borrowed reference to a context does the same", &url, want.clone(), || { let mut v = vocab(); let i = v.insert(Iri::new(&url).unwrap()); let f = RemoteContextReference::iri(i); let d = util::block(f.loaded_context_with(&mut v, &m)).map(|d| d.into_owned()); ctx(d, &v) });
        // loaded already: the loader is not asked
        if let Some(d) = m.get(&iri(&url)) {
            let no = Failing("asked", None, Default::default());
            r.eq("a loaded document is given as it is, without asking the loader", &url, (plain(d), plain(d), 0), || { let mut v = (); let f = RemoteDocumentReference::Loaded(d.clone()); let b = plain(&util::block(f.loaded_with(&mut v, &no)).unwrap()); (plain(&util::block(f.load_with(&mut v, &no)).unwrap()), b, no.2.get()) });
            if let Ok(c) = d.clone().try_map(|x| x.into_ld_context()) {
                use json_ld::syntax::IntoJson;
                let p = |c: &RemoteDocument<IriBuf, json_ld::syntax::Context>| shown(c, text, |c| util::canon(&c.clone().into_json()));
                r.eq("a loaded context is given as it is, without asking the loader", &url, (p(&c), p(&c), 0), || { let mut v = (); let f = RemoteContextReference::Loaded(c.clone()); let b = p(&util::block(f.loaded_context_with(&mut v, &no)).unwrap()); (p(&util::block(f.load_context_with(&mut v, &no)).unwrap()), b, no.2.get()) });
            }
        }
    }
}
