//! Executable contracts of expansion: the real result against the independent reading in `refexp`.
use crate::gen::canon_in;
use crate::refctx::Remote;
use crate::refexp::expand;
use crate::run::{Rng, Run};
use crate::util;
use serde_json::{json, Map, Value as V};

fn options(v10: bool) -> json_ld::Options {
    let mut o = json_ld::Options::default();
    if v10 { o.processing_mode = json_ld::ProcessingMode::JsonLd1_0 }
    o
}
pub fn real(doc: &V, docs: &Remote, base: Option<&str>, o: json_ld::Options) -> Result<V, String> {
    let l: util::Docs = docs.iter().map(|(u, t)| (util::iri(u), json_ld_core::RemoteDocument::new(Some(util::iri(u)), None, util::j(&t.to_string())))).collect();
    util::expand_opt(&doc.to_string(), &l, base, o).map(|j| serde_json::from_str(&util::show(&j)).unwrap())
}
/// what the library's data model leaves out of an expanded document
pub fn plain(v: &V) -> V {
    match v {
        V::Object(o) => {
            if o.get("@type") == Some(&json!("@json")) { return v.clone() }
            V::Object(o.iter().filter(|(k, v)| !(*k == "@id" && v.is_null() || *k == "@type" && **v == json!([]))).map(|(k, v)| (k.clone(), plain(v))).collect())
        }
        V::Array(a) => V::Array(a.iter().map(plain).collect()),
        v => v.clone(),
    }
}
pub fn text(v: &V) -> String { canon_in(&plain(v), "@graph") }

/// one generated world: a context and what its terms are for
pub struct Doc<'r> { pub r: &'r mut Rng, pub v10: bool, pub wild: usize }
pub const TERMS: &[&str] = &["a", "b", "c", "d", "j", "n", "l", "lb", "s", "lm", "im", "ip", "gm", "gi", "gd", "im2", "idm", "tm", "r", "ri", "la", "ln", "dr", "ps", "ne", "nul", "x:y", "http://e/abs", "undefined"];
const TYPES: &[&str] = &["T", "U", "http://e/T", "V", "_:t"];
impl<'r> Doc<'r> {
    fn p(&mut self, a: usize, b: usize) -> bool { self.r.chance(a, b) }
    fn odd(&mut self) -> bool { let w = self.wild; w > 0 && self.r.chance(w, 100) }
    fn pick(&mut self, v: &[&str]) -> String { self.r.pick(v).to_string() }
    pub fn term(&mut self, t: &str, depth: usize) -> V {
        match t {
            "a" => match self.r.below(3) { 0 => json!("http://e/a"), 1 => json!({"@id": "http://e/a"}), _ => json!("x:a") },
            "b" => json!({"@id": "http://e/b", "@type": "@id"}),
            "c" => json!({"@id": "http://e/c", "@type": "@vocab"}),
            "d" => json!({"@id": "http://e/d", "@type": "http://e/T"}),
            "j" => json!({"@id": "http://e/j", "@type": "@json"}),
            "n" => json!({"@id": "http://e/n", "@type": "@none"}),
            "l" => json!({"@id": "http://e/l", "@container": "@list"}),
            "lb" => json!({"@id": "http://e/l", "@container": "@list", "@type": "@id"}),
            "s" => json!({"@id": "http://e/s", "@container": "@set"}),
            "lm" => match self.r.below(3) { 0 => json!({"@id": "http://e/lm", "@container": "@language"}), 1 => json!({"@id": "http://e/lm", "@container": ["@language", "@set"], "@direction": "rtl"}), _ => json!({"@id": "http://e/lm", "@container": "@language", "@direction": null}) },
            "im" => json!({"@id": "http://e/im", "@container": "@index"}),
            "im2" => json!({"@id": "http://e/im", "@container": ["@index", "@set"], "@type": "@id"}),
            "ip" => json!({"@id": "http://e/ip", "@container": "@index", "@index": self.pick(&["http://e/key", "x:key", "a", "b", "j"])}),
            "gm" => json!({"@id": "http://e/gm", "@container": *self.r.pick(&["@graph", "@graph"])}),
            "gi" => json!({"@id": "http://e/gi", "@container": ["@graph", "@index"]}),
            "gd" => json!({"@id": "http://e/gd", "@container": ["@graph", "@id"]}),
            "idm" => json!({"@id": "http://e/idm", "@container": "@id"}),
            "tm" => match self.r.below(2) { 0 => json!({"@id": "http://e/tm", "@container": "@type"}), _ => json!({"@id": "http://e/tm", "@container": ["@type", "@set"], "@type": "@vocab"}) },
            "r" => json!({"@reverse": "http://e/r"}),
            "ri" => json!({"@reverse": "http://e/ri", "@container": "@index"}),
            "la" => json!({"@id": "http://e/la", "@language": "fr"}),
            "ln" => json!({"@id": "http://e/ln", "@language": null}),
            "dr" => match self.r.below(2) { 0 => json!({"@id": "http://e/dr", "@direction": "rtl"}), _ => json!({"@id": "http://e/dr", "@direction": null, "@language": "de"}) },
            "ps" => json!({"@id": "http://e/ps", "@context": self.scoped(depth)}),
            "ne" => if self.p(1, 3) { json!({"@id": "@nest", "@context": self.scoped(depth)}) } else { json!("@nest") },
            "T" | "U" | "V" => json!({"@id": format!("http://e/{t}"), "@context": self.scoped(depth)}),
            _ => V::Null,
        }
    }
    fn scoped(&mut self, depth: usize) -> V {
        if depth > 1 { return json!({"a": "http://scoped/deep"}) }
        match self.r.below(8) {
            0 => V::Null,
            1 => json!({"@vocab": "http://scoped/"}),
            2 => { let p = self.p(1, 2); json!({"@propagate": p, "a": "http://scoped/a"}) }
            3 => json!({"@base": "http://scoped/base/"}),
            4 => json!({"@language": "sc"}),
            5 => json!([{"a": {"@id": "http://scoped/a", "@type": "@id"}}, {"b": "http://scoped/b"}]),
            _ => self.context(depth + 1),
        }
    }
    pub fn context(&mut self, depth: usize) -> V {
        let mut m = Map::new();
        let all = depth == 0;
        m.insert("x".into(), json!("http://x/"));
        for t in TERMS.iter().copied().filter(|t| !t.contains(':') && *t != "undefined").chain(["T", "U", "V"]) {
            if if all { self.p(4, 5) } else { self.p(1, 8) } {
                if self.v10 && matches!(t, "j" | "n" | "ip" | "gm" | "gi" | "gd" | "idm" | "tm" | "dr" | "ps" | "ne" | "im2" | "lm" | "T" | "U" | "V") { continue }
                let d = self.term(t, depth);
                m.insert(t.into(), d);
            }
        }
        for (t, k) in [("id", "@id"), ("type", "@type"), ("type2", "@type"), ("val", "@value"), ("lst", "@list"), ("set", "@set"), ("graph", "@graph"), ("rev", "@reverse"), ("lang", "@language"), ("none", "@none"), ("idx", "@index"), ("incl", "@included")] {
            if self.v10 && k == "@included" { continue }
            if self.p(1, if all { 3 } else { 10 }) { m.insert(t.into(), json!(k)); }
        }
        if self.p(1, 3) { m.insert("@vocab".into(), json!(self.pick(&["http://v/", "", "x:v#"]))); if m["@vocab"] == json!("") { m.insert("@vocab".into(), json!("http://v/v#")); } }
        if self.p(1, 6) { m.insert("@base".into(), json!(self.pick(&["http://b/", "http://b/c/d", "sub/"]))); }
        if self.p(1, 6) { m.insert("@language".into(), json!(self.pick(&["en", "de-CH"]))); }
        if self.p(1, 8) && !self.v10 { m.insert("@direction".into(), json!(self.pick(&["ltr", "rtl"]))); }
        V::Object(m)
    }
    fn key(&mut self) -> String {
        let t = self.r.pick(TERMS).to_string();
        t
    }
    fn text(&mut self) -> V { json!(self.pick(&["s", "", "http://e/o", "x:o", "rel", "a", "T", "_:b", "#f", "en"])) }
    fn scalar(&mut self) -> V {
        match self.r.below(9) { 0 => json!(true), 1 => json!(7), 2 => V::Null, _ => self.text() }
    }
    pub fn val(&mut self) -> V {
        let mut m = Map::new();
        let vk = self.pick(&["@value", "@value", "val"]);
        let x = if self.p(1, 12) { self.scalar() } else { self.text() };
        m.insert(vk, x);
        match self.r.below(6) {
            0 => { let t = self.pick(&["T", "http://e/D", "x:D", "@json"]); let k = self.pick(&["@type", "@type", "type"]); m.insert(k, json!(t)); }
            1 => { m.insert(self.pick(&["@language", "lang"]), json!(self.pick(&["en", "fr", "x_y"]))); }
            2 if !self.v10 => { m.insert("@direction".into(), json!("rtl")); }
            3 if !self.v10 => { m.insert("@language".into(), json!("ar")); m.insert("@direction".into(), json!("rtl")); }
            _ => (),
        }
        if self.p(1, 6) { m.insert(self.pick(&["@index", "idx"]), json!("i")); }
        if m.get("@type") == Some(&json!("@json")) && self.p(1, 2) { let k = m.keys().next().unwrap().clone(); let k = if m.contains_key("@value") { "@value".into() } else { k }; m.insert(k, json!({"z": [1, null]})); }
        if self.odd() {
            match self.r.below(9) {
                0 => { m.insert("@id".into(), json!("http://e/q")); }
                1 => { m.insert("@language".into(), json!(["en"])); }
                2 => { m.insert("@direction".into(), json!("up")); }
                3 => { m.insert("@index".into(), json!(3)); }
                4 => { m.insert("@type".into(), json!(["http://e/D"])); }
                5 => { m.insert("a".into(), json!("x")); }
                6 => { m.insert("undefined".into(), json!("x")); }
                7 => { m.insert("@context".into(), json!({"val2": "@value"})); }
                _ => { m.insert("@value".into(), json!(["x"])); }
            }
        }
        V::Object(m)
    }
    fn ident(&mut self) -> V { json!(self.pick(&["http://e/1", "x:2", "rel", "_:b", "#f", "../up", "", "a"])) }
    fn types(&mut self) -> V {
        let n = self.r.below(3);
        if n == 0 { return json!(self.pick(TYPES)) }
        V::Array((0..n).map(|_| json!(self.pick(TYPES))).collect())
    }
    pub fn node(&mut self, depth: usize) -> V {
        let mut m = Map::new();
        if depth > 0 && self.p(1, 14) { let c = self.local(); m.insert("@context".into(), c); }
        if self.p(1, 2) { let k = self.pick(&["@id", "@id", "id"]); let v = self.ident(); m.insert(k, v); }
        if self.p(1, 3) { let k = self.pick(&["@type", "@type", "type", "type2"]); let v = self.types(); m.insert(k, v); }
        if self.p(1, 14) { let v = self.types(); m.insert("type2".into(), v); }
        if self.p(1, 10) { m.insert(self.pick(&["@index", "idx"]), json!("ix")); }
        if self.odd() {
            match self.r.below(8) {
                0 => { m.insert("@id".into(), json!(["x"])); }
                1 => { m.insert("@type".into(), json!([{"@id": "x"}])); }
                2 => { m.insert("@index".into(), json!(null)); }
                3 => { m.insert("@reverse".into(), json!("x")); }
                4 => { m.insert("@nest".into(), json!("x")); }
                5 => { m.insert("@included".into(), json!("x")); }
                6 => { m.insert("id".into(), json!("http://e/second")); }
                _ => { m.insert("@foo".into(), json!("x")); }
            }
        }
        if depth < 3 {
            let n = self.r.below(4);
            for _ in 0..n { let k = self.key(); let v = self.prop(&k, depth + 1); m.insert(k, v); }
            if self.p(1, 12) { let k = self.pick(&["@graph", "graph"]); let v = self.many(depth + 1); m.insert(k, v); }
            if self.p(1, 14) && !self.v10 { let k = self.pick(&["@included", "incl"]); let v = if self.p(1, 2) { self.node(depth + 1) } else { let n = self.r.below(3); V::Array((0..n).map(|_| self.node(depth + 1)).collect()) }; m.insert(k, v); }
            if self.p(1, 10) {
                let k = self.pick(&["@reverse", "rev"]);
                let mut o = Map::new();
                for _ in 0..1 + self.r.below(2) {
                    let k = self.pick(&["a", "b", "r", "ri", "x:y", "http://e/abs", "s", "undefined", "im", "idm", "tm", "ps", "nul"]);
                    let v = if self.p(1, 2) || matches!(k.as_str(), "ri" | "im" | "idm" | "tm") { self.prop(&k, depth + 1) } else { self.node(depth + 1) };
                    o.insert(k, v);
                }
                if self.odd() { o.insert("@id".into(), json!("http://e/1")); }
                m.insert(k, V::Object(o));
            }
            if self.p(1, 12) {
                let k = self.pick(&["@nest", "ne", "ne"]);
                let mut o = Map::new();
                for _ in 0..1 + self.r.below(2) { let k = self.key(); let v = self.prop(&k, depth + 1); o.insert(k, v); }
                if self.p(1, 4) { o.insert("@type".into(), json!("http://e/N")); }
                m.insert(k, if self.p(1, 3) { json!([o, {"x:n": 1}]) } else { V::Object(o) });
            }
        }
        V::Object(m)
    }
    fn local(&mut self) -> V {
        match self.r.below(6) { 0 => V::Null, 1 => json!({"@vocab": "http://local/"}), 2 => json!([null, {"a": "http://local/a"}]), 3 => json!({"@base": "http://local/d/"}), 4 => json!({"a": {"@id": "http://local/a", "@type": "@id"}, "@language": "lo"}), _ => self.context(1) }
    }
    pub fn any(&mut self, depth: usize) -> V {
        match self.r.below(10) {
            0..=3 => self.scalar(),
            4 | 5 => self.val(),
            6 if depth < 4 => { let k = self.pick(&["@list", "lst"]); let v = self.many(depth + 1); let mut m = Map::new(); m.insert(k, v); if self.p(1, 4) { m.insert("@index".into(), json!("li")); } if self.odd() { m.insert(self.pick(&["@id", "a", "@type", "undefined", "@context"]), json!({})); } V::Object(m) }
            7 if depth < 4 => { let k = self.pick(&["@set", "set"]); let v = self.many(depth + 1); let mut m = Map::new(); m.insert(k, v); if self.p(1, 6) { m.insert("@index".into(), json!("si")); } if self.odd() { m.insert(self.pick(&["@id", "a", "@list"]), json!("x")); } V::Object(m) }
            _ => self.node(depth),
        }
    }
    fn many(&mut self, depth: usize) -> V {
        if self.p(1, 4) { return self.any(depth) }
        let n = self.r.below(4);
        V::Array((0..n).map(|_| if self.p(1, 8) && depth < 4 { self.many(depth + 1) } else { self.any(depth + 1) }).collect())
    }
    fn map(&mut self, keys: &[&str], depth: usize, f: fn(&mut Self, usize) -> V) -> V {
        let mut m = Map::new();
        for _ in 0..1 + self.r.below(3) {
            let k = self.pick(keys);
            let v = if self.p(1, 3) { let n = self.r.below(3); V::Array((0..n).map(|_| f(self, depth + 1)).collect()) } else { f(self, depth + 1) };
            m.insert(k, v);
        }
        V::Object(m)
    }
    fn nodeish(&mut self, d: usize) -> V { if self.odd() { self.any(d) } else if self.p(1, 6) { json!({"@id": "http://e/only"}) } else { self.node(d) } }
    fn stringish(&mut self, d: usize) -> V { if self.odd() { self.any(d) } else if self.p(1, 8) { V::Null } else { self.text() } }
    pub fn prop(&mut self, k: &str, depth: usize) -> V {
        if self.p(1, 8) { return self.many(depth) }
        match k {
            "lm" => self.map(&["en", "fr", "@none", "none", "x_y"], depth, Self::stringish),
            "im" | "gi" => self.map(&["k1", "k2", "@none", "none", "a", "nul", "@foo"], depth, Self::any),
            "ri" => self.map(&["k1", "k2", "@none"], depth, Self::nodeish),
            "im2" => self.map(&["k1", "k2", "@none"], depth, Self::any),
            "ip" => self.map(&["k1", "http://e/k", "@none", "x:k"], depth, Self::nodeish),
            "idm" | "gd" => self.map(&["http://e/i", "rel", "@none", "_:i", "x:i", "none", "nul"], depth, Self::nodeish),
            "tm" => self.map(&["T", "U", "http://e/M", "@none", "none", "V", "nul"], depth, Self::nodeish),
            "ne" => json!({"a": self.any(depth + 1)}),
            "r" => { if self.p(1, 2) { self.node(depth) } else { json!([self.node(depth), "http://e/by"]) } }
            "j" => json!({"any": [1, null, {"@id": 3}]}),
            _ => if self.p(1, 3) { let n = self.r.below(4); V::Array((0..n).map(|_| self.any(depth)).collect()) } else { self.any(depth) },
        }
    }
    pub fn doc(&mut self) -> V {
        let c = if self.p(9, 10) { self.context(0) } else { json!({}) };
        match self.r.below(8) {
            0 => { let a = self.any(0); json!({"@context": c, "@graph": [a, self.node(0)]}) }
            1 => { let mut n = self.node(0); let mut e = self.node(0); n["@context"] = c.clone(); e["@context"] = c; json!([n, e, "free"]) }
            _ => { let mut n = self.node(0); n["@context"] = c; n }
        }
    }
}
fn verdict(doc: &V, docs: &Remote, base: Option<&str>, v10: bool) -> Result<(), (String, String)> {
    let Some(want) = expand(doc, docs, base, v10) else { return Ok(()) };
    let got = real(doc, docs, base, options(v10));
    match (&want, &got) {
        (Ok(w), Ok(g)) => { let (w, g) = (text(w), text(g)); if w != g { return Err((w, g)) } }
        // a document with several faults may be rejected for any of them
        (Err(_), Err(_)) => (),
        (w, g) => return Err((format!("{:?}", w.as_ref().map(text)), format!("{:?}", g.as_ref().map(text)))),
    }
    Ok(())
}
pub fn check(r: &mut Run, clause: &str, doc: &V, docs: &Remote, base: Option<&str>, v10: bool) {
    let name = |d: &V| format!("{d}{}{}", base.map(|b| format!(" base {b}")).unwrap_or_default(), if v10 { " (1.0)" } else { "" });
    let n = r.failures.len();
    r.case(clause, &name(doc), || verdict(doc, docs, base, v10));
    if r.failures.len() > n && n < 30 {
        // report a smaller document that fails
        let f = |d: &V| d.get("@context").map_or(true, |c| util::context(&c.to_string()).is_ok()) && std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| verdict(d, docs, base, v10).is_err())).unwrap_or(true);
        let d = util::shrink(doc, &f);
        r.failures.pop();
        r.case(clause, &name(&d), || verdict(&d, docs, base, v10));
    }
}
pub fn run(r: &mut Run) {
    codes(r);
    for i in 0..r.n(5000, 60000) {
        let wild = if i % 3 == 0 { 6 } else { 0 };
        let v10 = i % 16 == 15;
        let base = *r.rng.pick(&[Some("http://base/d/doc"), Some("http://base/d/doc"), None]);
        let doc = { let mut d = Doc { r: &mut r.rng, v10, wild }; d.doc() };
        check(r, "documents expand as the algorithm says", &doc, &Remote::new(), base, v10);
        if i % 4 == 0 {
            let other = shuffled(&mut r.rng, &doc);
            r.case("with the ordered option, the order of the entries changes nothing", &format!("{doc} and {other}"), || {
                let o = || json_ld::Options { ordered: true, ..options(v10) };
                match (real(&doc, &Remote::new(), base, o()), real(&other, &Remote::new(), base, o())) {
                    (Ok(a), Ok(b)) => { let (a, b) = (sorted(&a).to_string(), sorted(&b).to_string()); if a == b { Ok(()) } else { Err((a, b)) } }
                    (Err(_), Err(_)) => Ok(()),
                    (a, b) => Err((format!("{a:?}"), format!("{b:?}"))),
                }
            });
        }
    }
}

/// the error code of each fault, alone in a document
fn codes(r: &mut Run) {
    let c = r#""@context":{"p":"http://e/p","val":"@value","id":"@id","idx":"@index","lst":"@list","lm":{"@id":"http://e/lm","@container":"@language"},"rv":{"@reverse":"http://e/r"},"ip":{"@id":"http://e/ip","@container":"@index","@index":"http://e/k"},"l":{"@id":"http://e/l","@container":"@list"}}"#;
    for (code, doc) in [
        ("invalid @id value", r#""@id":1"#), ("invalid @id value", r#""@id":null"#), ("invalid @id value", r#""@id":["x"]"#), ("invalid @id value", r#""p":{"@id":{}}"#),
        ("invalid type value", r#""@type":1"#), ("invalid type value", r#""@type":["a",{}]"#), ("invalid type value", r#""p":{"@type":null}"#),
        ("invalid typed value", r#""p":{"@value":"x","@type":"_:b"}"#), ("invalid typed value", r#""p":{"@value":"x","@type":["http://e/T","http://e/U"]}"#),
        ("invalid value object", r#""p":{"@value":"x","@id":"http://e/x"}"#), ("invalid value object", r#""p":{"@value":"x","p":"http://e/x"}"#), ("invalid value object", r#""p":{"@value":"x","@type":"http://e/T","@language":"en"}"#), ("invalid value object", r#""p":{"@value":"x","@type":"http://e/T","@direction":"ltr"}"#), ("invalid value object", r#""ip":{"k":{"@value":"x"}}"#), ("invalid value object", r#""ip":{"k":"x"}"#),
        ("invalid value object value", r#""p":{"@value":["x"]}"#), ("invalid value object value", r#""p":{"@value":{"a":"b"}}"#),
        ("invalid language-tagged string", r#""p":{"@value":"x","@language":1}"#), ("invalid language-tagged string", r#""p":{"@value":"x","@language":null}"#),
        ("invalid language-tagged value", r#""p":{"@value":1,"@language":"en"}"#), ("invalid language-tagged value", r#""p":{"@value":true,"@language":"en"}"#),
        ("invalid base direction", r#""p":{"@value":"x","@direction":"up"}"#), ("invalid base direction", r#""p":{"@value":"x","@direction":1}"#),
        ("invalid @index value", r#""@index":1"#), ("invalid @index value", r#""p":{"@value":"x","@index":["x"]}"#), ("invalid @index value", r#""p":{"@list":[],"@index":3}"#),
        ("invalid set or list object", r#""p":{"@list":[],"@id":"http://e/x"}"#), ("invalid set or list object", r#""p":{"@set":[],"p":1}"#), ("invalid set or list object", r#""p":{"@set":[],"@list":[]}"#),
        ("invalid reverse property map", r#""@reverse":{"@id":"http://e/x"}"#), ("invalid reverse property map", r#""@reverse":{"id":"http://e/x"}"#),
        ("invalid reverse property value", r#""@reverse":{"p":"x"}"#), ("invalid reverse property value", r#""rv":{"@list":[]}"#), ("invalid reverse property value", r#""rv":{"@value":"x"}"#), ("invalid reverse property value", r#""@reverse":{"l":[{"@id":"http://e/x"}]}"#),
        ("invalid @reverse value", r#""@reverse":"x""#), ("invalid @reverse value", r#""@reverse":[{}]"#), ("invalid @reverse value", r#""@reverse":null"#),
        ("colliding keywords", r#""@id":"http://e/a","id":"http://e/b""#), ("colliding keywords", r#""p":{"@value":"x","val":"y"}"#), ("colliding keywords", r#""@index":"a","idx":"b""#), ("colliding keywords", r#""p":{"@list":[],"lst":[]}"#), ("colliding keywords", r#""@id":"http://e/a","@nest":{"id":"http://e/b"}"#),
        ("invalid language map value", r#""lm":{"en":1}"#), ("invalid language map value", r#""lm":{"en":["x",{}]}"#),
        ("invalid @nest value", r#""@nest":"x""#), ("invalid @nest value", r#""@nest":[{},1]"#), ("invalid @nest value", r#""@nest":{"@value":"x"}"#), ("invalid @nest value", r#""@nest":{"val":"x"}"#),
        ("invalid @included value", r#""@included":"x""#), ("invalid @included value", r#""@included":[{"@value":"x"}]"#), ("invalid @included value", r#""@included":{"@list":[]}"#),
    ] {
        // at the top level, in an array, and deeper
        let doc = format!("{{{c},{doc}}}");
        let v: V = serde_json::from_str(&doc).unwrap();
        let mut inner = v.clone();
        let context = inner.as_object_mut().unwrap().remove("@context").unwrap();
        for d in [v.clone(), json!([v.clone()]), json!({"@context": context, "p": {"@id": "http://e/s", "p": [1, inner]}}), json!({"@context": context, "@graph": [inner]}), json!({"@context": context, "l": [inner]})] {
            let want = expand(&d, &Remote::new(), None, false);
            r.case("each fault has its error code", &d.to_string(), || {
                let got = real(&d, &Remote::new(), None, options(false)).map(|v| v.to_string());
                let got = match got { Ok(v) => v, Err(e) => e };
                let reference = match &want { Some(Err(e)) => e.clone(), _ => "no error".into() };
                if got == code && reference == code { Ok(()) } else { Err((code.to_string(), format!("{got} (algorithm: {reference})"))) }
            });
        }
    }
}

fn shuffled(r: &mut Rng, v: &V) -> V {
    match v {
        V::Object(o) => { let mut e: Vec<(String, V)> = o.iter().map(|(k, v)| (k.clone(), if k == "@context" { v.clone() } else { shuffled(r, v) })).collect(); crate::gen::shuffle(r, &mut e); V::Object(e.into_iter().collect()) }
        V::Array(a) => V::Array(a.iter().map(|v| shuffled(r, v)).collect()),
        v => v.clone(),
    }
}
fn sorted(v: &V) -> V {
    match v {
        V::Object(o) => { let mut e: Vec<(String, V)> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect(); e.sort_by(|a, b| a.0.cmp(&b.0)); V::Object(e.into_iter().collect()) }
        V::Array(a) => V::Array(a.iter().map(sorted).collect()),
        v => v.clone(),
    }
}
