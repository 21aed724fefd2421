//! Serialisation to RDF: which quads a document gives.
use crate::flat::{same, sv, tidy};
use crate::gen::Gen;
use crate::run::Run;
use crate::unordered::doc;
use json_ld::{JsonLdProcessor, NoLoader, RemoteDocument};
use json_ld_core::flattening::Flatten;
use json_ld_core::rdf::{QuadRef, RdfDirection, RdfQuads};
use json_ld_syntax::IntoJsonWithContext;
use iref::IriBuf;
use rdf_types::{generator, BlankIdBuf, LiteralType};
use serde_json::{json, Map, Value as S};
use std::collections::{BTreeMap, HashMap};

const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
fn lit(s: &str, t: &str) -> S { json!({"@value": s, "@type": t}) }
fn lang(s: &str, l: &str) -> S { json!({"@value": s, "@language": l.to_ascii_lowercase()}) }
pub fn number(n: f64, double: bool) -> (String, &'static str) {
    if n.fract() == 0.0 && n.abs() < 1e21 && !double {
        let s = format!("{n:.0}");
        return (if s == "-0" { "0".into() } else { s }, "integer");
    }
    let s = format!("{n:E}");
    let (m, e) = s.split_once('E').unwrap();
    (if m.contains('.') { s.clone() } else { format!("{m}.0E{e}") }, "double")
}
fn jcs(v: &S) -> String {
    match v {
        S::Object(o) => { let mut k: Vec<&String> = o.keys().collect(); k.sort_by_key(|k| k.encode_utf16().collect::<Vec<_>>()); format!("{{{}}}", k.into_iter().map(|k| format!("{}:{}", S::String(k.clone()), jcs(&o[k]))).collect::<Vec<_>>().join(",")) }
        S::Array(a) => format!("[{}]", a.iter().map(jcs).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}
/// deserialisation to RDF, written after the algorithms of the specification on the nested (not flattened) form
struct Ref { issued: HashMap<String, String>, n: usize, dir: Option<RdfDirection>, general: bool, out: BTreeMap<String, S> }
impl Ref {
    fn fresh(&mut self) -> String { self.n += 1; format!("_:n{}", self.n) }
    /// the resource named by an identifier, if it is a well-formed one
    fn id(&mut self, s: &str) -> Option<String> {
        if s.starts_with("_:") {
            if BlankIdBuf::new(s.to_string()).is_err() { return None }
            if let Some(x) = self.issued.get(s) { return Some(x.clone()) }
            let x = self.fresh();
            self.issued.insert(s.into(), x.clone());
            return Some(x);
        }
        IriBuf::new(s.to_string()).ok().map(|i| i.to_string())
    }
    fn quad(&mut self, g: &Option<Option<String>>, s: &Option<String>, p: &Option<String>, o: Option<S>) {
        let (Some(g), Some(s), Some(p), Some(o)) = (g, s, p, o) else { return };
        if p.starts_with("_:") && !self.general { return }
        let q = json!({"@g": g, "@s": s, "@p": p, "@o": o});
        self.out.insert(q.to_string(), q);
    }
    fn value(&mut self, o: &Map<String, S>, g: &Option<Option<String>>) -> Option<S> {
        let v = &o["@value"];
        let t = o.get("@type").and_then(|t| t.as_str());
        if t == Some("@json") { return Some(lit(&jcs(v), &format!("{RDF}JSON"))) }
        Some(match v {
            S::Bool(b) => lit(&b.to_string(), t.unwrap_or(&format!("{XSD}boolean"))),
            S::Number(n) => { let (l, d) = number(n.as_f64().unwrap(), t == Some(&format!("{XSD}double"))); lit(&l, t.unwrap_or(&format!("{XSD}{d}"))) }
            S::String(s) => {
                let l = o.get("@language").and_then(|l| l.as_str());
                if let Some(l) = l { if langtag::LangTagBuf::new(l.to_string()).is_err() { return None } }
                match (o.get("@direction").and_then(|d| d.as_str()), self.dir) {
                    (Some(d), Some(RdfDirection::I18nDatatype)) => lit(s, &match l { Some(l) => format!("https://www.w3.org/ns/i18n#{}_{d}", l.to_ascii_lowercase()), None => format!("https://www.w3.org/ns/i18n#{d}") }),
                    (Some(d), Some(RdfDirection::CompoundLiteral)) => {
                        let b = self.fresh();
                        let v = match l { Some(l) => lang(s, l), None => lit(s, &format!("{XSD}string")) };
                        self.quad(g, &Some(b.clone()), &Some(format!("{RDF}value")), Some(v));
                        self.quad(g, &Some(b.clone()), &Some(format!("{RDF}direction")), Some(lit(d, &format!("{XSD}string"))));
                        json!(b)
                    }
                    _ => match l { Some(l) => lang(s, l), None => lit(s, t.unwrap_or(&format!("{XSD}string"))) },
                }
            }
            _ => panic!("not a value"),
        })
    }
    /// the resource an object stands for; `emit` tells whether the quads describing it are wanted
    fn object(&mut self, v: &S, g: &Option<Option<String>>, emit: bool) -> Option<S> {
        let o = v.as_object().unwrap();
        let none = None;
        let eg = if emit { g } else { &none };
        if o.contains_key("@value") { return self.value(o, eg) }
        if let Some(l) = o.get("@list") {
            let items = l.as_array().unwrap();
            let names: Vec<String> = items.iter().map(|_| self.fresh()).collect();
            for (i, x) in items.iter().enumerate() {
                let s = Some(names[i].clone());
                let first = self.object_in(x, g, emit);
                self.quad(eg, &s, &Some(format!("{RDF}first")), first);
                self.quad(eg, &s, &Some(format!("{RDF}rest")), Some(json!(names.get(i + 1).cloned().unwrap_or(format!("{RDF}nil")))));
            }
            return Some(json!(names.first().cloned().unwrap_or(format!("{RDF}nil"))));
        }
        self.node(o, g).map(|i| json!(i))
    }
    fn object_in(&mut self, v: &S, g: &Option<Option<String>>, emit: bool) -> Option<S> { self.object(v, g, emit) }
    fn node(&mut self, o: &Map<String, S>, g: &Option<Option<String>>) -> Option<String> {
        let id = match o.get("@id") { Some(i) => self.id(i.as_str().unwrap()), None => Some(self.fresh()) };
        for t in o.get("@type").and_then(|t| t.as_array()).into_iter().flatten() { let t = self.id(t.as_str().unwrap()); self.quad(g, &id, &Some(format!("{RDF}type")), t.map(|t| json!(t))) }
        for (p, ns) in o.get("@reverse").and_then(|r| r.as_object()).into_iter().flatten() {
            let p = self.id(p);
            for n in ns.as_array().unwrap() { let s = self.node(n.as_object().unwrap(), g); self.quad(g, &s, &p, id.clone().map(|i| json!(i))); }
        }
        let inner = id.clone().map(Some);
        for n in o.get("@graph").and_then(|r| r.as_array()).into_iter().flatten() { self.node(n.as_object().unwrap(), &inner); }
        for n in o.get("@included").and_then(|r| r.as_array()).into_iter().flatten() { self.node(n.as_object().unwrap(), g); }
        for (p, vs) in o {
            if p.starts_with('@') { continue }
            let p = self.id(p);
            // the parts of the values of a property that is not serialised are not serialised either, but nodes are
            let emit = g.is_some() && id.is_some() && p.as_ref().map_or(false, |p| self.general || !p.starts_with("_:"));
            for v in vs.as_array().unwrap() { let x = self.object(v, g, emit); self.quad(g, &id, &p, x); }
        }
        id
    }
}
pub fn reference(v: &S, dir: Option<RdfDirection>, general: bool) -> S {
    let mut r = Ref { issued: Default::default(), n: 0, dir, general, out: Default::default() };
    for n in v.as_array().unwrap() { r.node(n.as_object().unwrap(), &Some(None)); }
    S::Array(r.out.into_values().collect())
}
pub type Q<'a> = QuadRef<'a, IriBuf, BlankIdBuf, rdf_types::Literal<IriBuf>>;
pub fn got<'a>(qs: impl Iterator<Item = Q<'a>>) -> S {
    let mut out = BTreeMap::new();
    for rdf_types::Quad(s, p, o, g) in qs {
        let o = match o {
            rdf_types::Object::Id(i) => json!(i.to_string()),
            rdf_types::Object::Literal(l) => match l.type_ { LiteralType::Any(t) => { let t = t.to_string(); lit(&l.value, &if t.starts_with("https://www.w3.org/ns/i18n#") { t.to_ascii_lowercase() } else { t }) }, LiteralType::LangString(t) => lang(&l.value, &t.to_string()) },
        };
        let q = json!({"@g": g.map(|g| g.to_string()), "@s": s.to_string(), "@p": p.to_string(), "@o": o});
        out.insert(q.to_string(), q);
    }
    S::Array(out.into_values().collect())
}
fn agree(a: S, b: &S) -> Result<(), (String, String)> {
    if same(&a, b).unwrap_or(true) { Ok(()) } else { Err((lines(b), lines(&a))) }
}
fn lines(v: &S) -> String { v.as_array().unwrap().iter().map(|q| format!("{} {} {} {}", q["@s"], q["@p"], q["@o"], q["@g"])).collect::<Vec<_>>().join(" . ") }
fn json_of(d: &json_ld::ExpandedDocument) -> S { S::Array(d.objects().iter().map(|o| sv(&o.clone().into_json_with(&()))).collect()) }
fn gen() -> generator::Blank { generator::Blank::new_with_prefix("g".into()) }
fn check(d: &S, dir: Option<RdfDirection>, general: bool) -> Result<(), (String, String)> {
    let mut e = doc(d);
    let want = reference(&json_of(&e), dir, general);
    let mut g = gen();
    e.relabel_and_canonicalize(&mut g);
    agree(got(e.rdf_quads_full(rdf_types::vocabulary::no_vocabulary_mut(), &mut g, dir, general)), &want)?;
    Ok(())
}
fn flattened(d: &S, dir: Option<RdfDirection>, general: bool) -> Result<(), (String, String)> {
    let mut g = gen();
    let mut e = doc(d);
    e.canonicalize();
    let Ok(f) = e.clone().flatten(&mut g, false) else { return Ok(()) };
    let v = S::Array(f.iter().map(|n| sv(&n.clone().into_json_with(&()))).collect());
    agree(got(f.rdf_quads_full(rdf_types::vocabulary::no_vocabulary_mut(), &mut g, dir, general)), &reference(&v, dir, general))?;
    // the node map, graph by graph
    let mut g = gen();
    let Ok(m) = e.generate_node_map_with(&mut (), &mut g) else { return Ok(()) };
    agree(got(m.rdf_quads_full(rdf_types::vocabulary::no_vocabulary_mut(), &mut g, dir, general)), &reference(&v, dir, general))
}
fn processor(t: &str, dir: Option<RdfDirection>, general: bool) -> Result<(), (String, String)> {
    let e = crate::util::expand_doc(t, &NoLoader, None, Default::default()).unwrap();
    let want = reference(&json_of(&e), dir, general);
    let d = RemoteDocument::new(None, None, crate::util::j(t));
    let mut o = json_ld::Options::default();
    o.rdf_direction = dir;
    o.produce_generalized_rdf = general;
    let mut r = crate::util::block(d.to_rdf_using(gen(), &NoLoader, o)).map_err(|e| ("quads".to_string(), format!("{:?}", e.code())))?;
    agree(got(r.quads()), &want)?;
    let c: Vec<_> = r.cloned_quads().map(|rdf_types::Quad(s, p, o, g)| (s, p, o, g)).collect();
    agree(got(c.iter().map(|(s, p, o, g)| rdf_types::Quad(std::borrow::Cow::Borrowed(s), std::borrow::Cow::Borrowed(p), o.clone(), g.as_ref()))), &want)
}
/// some identifiers become ill-formed
fn spoil(r: &mut crate::run::Rng, v: &mut S) {
    match v {
        S::Object(o) => {
            if o.contains_key("@value") { return }
            if o.contains_key("@id") && r.chance(1, 8) { o.insert("@id".into(), json!(r.pick(&["not an iri", "_:"]))); }
            for (_, x) in o.iter_mut() { spoil(r, x) }
        }
        S::Array(a) => for x in a { spoil(r, x) },
        _ => (),
    }
}
pub fn run(r: &mut Run) {
    let dirs = [None, Some(RdfDirection::I18nDatatype), Some(RdfDirection::CompoundLiteral)];
    let mut left = 8;
    for k in 0..r.n(1200, 30000) {
        let g = Gen { blanks: 1 + k % 3, anonymous: k % 2 == 0, index: false, blank_props: k % 3 == 0, ..Gen::default() };
        let depth = 1 + r.rng.below(3);
        let mut d = tidy(&g.doc(&mut r.rng, depth));
        if k % 4 == 1 { spoil(&mut r.rng, &mut d) }
        let (dir, general) = (dirs[k % 3], k % 5 < 2);
        let f = move |d: &S| match k % 7 { 0 | 1 => flattened(d, dir, general), 2 => processor(&d.to_string(), dir, general), _ => check(d, dir, general) };
        let bad = move |d: &S| std::panic::catch_unwind(|| f(d).is_err()).unwrap_or(true);
        let mut small = None;
        if left > 0 && bad(&d) { left -= 1; small = Some(crate::util::shrink(&d, &|v| v.as_array().map_or(false, |a| a.iter().all(|n| n.is_object())) && std::panic::catch_unwind(|| { doc(v); }).is_ok() && bad(&tidy(v)))); }
        let d = small.unwrap_or(d);
        let c = match k % 7 { 0 | 1 => "the quads of a flattened document", 2 => "the quads the processor gives", _ => "the quads of an expanded document" };
        r.case(c, &format!("{d} {dir:?} {general}"), || f(&d));
    }
    // numbers
    let mut nums: Vec<String> = ["0", "-0", "1", "-1", "1.0", "10e1", "1.5", "-2.5e-7", "1e20", "1e21", "999999999999999900000", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "12345678901234567890", "4294967296", "0.1", "5e-324", "1.7976931348623157e308", "100", "1E2", "123456.789", "0.000001", "1e-7", "-1e21", "2147483648"].iter().map(|s| s.to_string()).collect();
    for _ in 0..r.n(150, 3000) {
        let m = r.rng.below(1_000_000_000) as i64 - 500_000_000;
        let e = r.rng.below(40) as i64 - 20;
        nums.push(match r.rng.below(3) { 0 => format!("{m}"), 1 => format!("{m}e{e}"), _ => format!("{}.{}", m, r.rng.below(1000)) });
    }
    for n in &nums {
        if n == "-0" { continue }
        let f: f64 = n.parse().unwrap();
        for t in [None, Some(format!("{XSD}double")), Some(format!("{XSD}integer")), Some("http://t/t".to_string())] {
            for place in 0..3 {
                if place > 0 && n.len() > 12 { continue }
                let (l, dt) = number(f, t == Some(format!("{XSD}double")));
                let want = format!("{l}^^{}", t.clone().unwrap_or(format!("{XSD}{dt}")));
                let v = match &t { Some(t) => format!(r#"{{"@value":{n},"@type":"{t}"}}"#), None => format!(r#"{{"@value":{n}}}"#) };
                let text = match place { 0 => format!(r#"[{{"@id":"http://a/s","http://p/p":[{v}]}}]"#), 1 => format!(r#"[{{"@id":"http://a/g","@graph":[{{"@id":"http://a/s","http://p/p":[{v}]}}]}}]"#), _ => format!(r#"[{{"@id":"http://a/s","@included":[{{"@id":"http://a/s","http://p/p":[{{"@list":[{v}]}}]}}]}}]"#) };
                r.eq("numbers are integers or doubles", &text, vec![want], || {
                    let d = RemoteDocument::new(None, None, crate::util::j(&text));
                    let mut q = crate::util::block(d.to_rdf_using(gen(), &NoLoader, Default::default())).unwrap();
                    q.quads().filter_map(|q| match q.2 { rdf_types::Object::Literal(l) => Some(format!("{}^^{}", l.value, match l.type_ { LiteralType::Any(t) => t.to_string(), t => format!("{t:?}") })), _ => None }).collect::<Vec<_>>()
                });
            }
        }
    }
}
