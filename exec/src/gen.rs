//! Generated documents in expanded form, their canonical text, and rearrangements of them.
use crate::run::Rng;
use serde_json::{json, Map, Value as S};

pub struct Gen {
    /// blank node identifiers to draw from
    pub blanks: usize,
    /// whether nodes may go without identifier
    pub anonymous: bool,
    pub graphs: bool,
    pub lists: bool,
    pub reverse: bool,
    pub included: bool,
    pub index: bool,
    pub json: bool,
    /// whether property keys may be blank node identifiers
    pub blank_props: bool,
    pub types: bool,
}
impl Default for Gen {
    fn default() -> Self {
        Gen { blanks: 3, anonymous: true, graphs: true, lists: true, reverse: true, included: true, index: true, json: true, blank_props: true, types: true }
    }
}
pub fn jv(s: &S) -> json_syntax::Value {
    crate::util::j(&s.to_string())
}
impl Gen {
    pub fn iri(&self, r: &mut Rng) -> String {
        r.pick(&["http://a/1", "http://a/2", "http://b/x", "urn:z"]).to_string()
    }
    pub fn id(&self, r: &mut Rng) -> String {
        if self.blanks > 0 && r.chance(2, 5) { format!("_:b{}", r.below(self.blanks)) } else { self.iri(r) }
    }
    fn prop(&self, r: &mut Rng) -> String {
        if self.blank_props && r.chance(1, 8) { format!("_:b{}", r.below(self.blanks.max(1))) } else { r.pick(&["http://p/p", "http://p/q", "http://p/r"]).to_string() }
    }
    fn idx(&self, r: &mut Rng, o: &mut Map<String, S>) {
        if self.index && r.chance(1, 6) { o.insert("@index".into(), json!(r.pick(&["i", "k", ""]))); }
    }
    pub fn value(&self, r: &mut Rng) -> S {
        let mut o = Map::new();
        match r.below(if self.json { 8 } else { 7 }) {
            0 => { o.insert("@value".into(), json!(r.chance(1, 2))); }
            1 => { o.insert("@value".into(), json!(*r.pick(&[1, 2, -7, 1000000]))); if r.chance(1, 3) { o.insert("@type".into(), json!(self.iri(r))); } }
            2 | 3 => { o.insert("@value".into(), json!(r.pick(&["a", "b", "", "é\n"]))); if r.chance(1, 2) { o.insert("@type".into(), json!(self.iri(r))); } }
            4 => { o.insert("@value".into(), json!(r.pick(&["a", "b", ""]))); o.insert("@language".into(), json!(r.pick(&["en", "EN", "fr", "x_y"]))); if r.chance(1, 2) { o.insert("@direction".into(), json!(r.pick(&["ltr", "rtl"]))); } }
            5 => { o.insert("@value".into(), json!(r.pick(&["a", "b"]))); o.insert("@direction".into(), json!(r.pick(&["ltr", "rtl"]))); }
            6 => { o.insert("@value".into(), json!(r.pick(&["a", "b"]))); }
            _ => { o.insert("@value".into(), r.pick(&[json!(null), json!({"b": [1, {"c": null}], "a": "x"}), json!([]), json!("a"), json!([[1], true])]).clone()); o.insert("@type".into(), json!("@json")); }
        }
        self.idx(r, &mut o);
        S::Object(o)
    }
    pub fn node(&self, r: &mut Rng, depth: usize) -> S {
        let mut o = Map::new();
        if !self.anonymous || r.chance(2, 3) { o.insert("@id".into(), json!(self.id(r))); }
        if self.types && r.chance(1, 3) { let n = 1 + r.below(3); o.insert("@type".into(), S::Array((0..n).map(|_| json!(self.id(r))).collect())); }
        self.idx(r, &mut o);
        if depth > 0 {
            if self.graphs && r.chance(1, 7) { let n = r.below(3); o.insert("@graph".into(), S::Array((0..n).map(|_| self.object(r, depth - 1)).collect())); }
            if self.included && r.chance(1, 9) { let n = 1 + r.below(2); o.insert("@included".into(), S::Array((0..n).map(|_| self.node(r, depth - 1)).collect())); }
            if self.reverse && r.chance(1, 7) {
                let mut m = Map::new();
                for _ in 0..1 + r.below(2) { let n = 1 + r.below(2); m.insert(self.prop(r), S::Array((0..n).map(|_| self.node(r, depth - 1)).collect())); }
                o.insert("@reverse".into(), S::Object(m));
            }
            for _ in 0..r.below(3) { let n = 1 + r.below(3); let k = self.prop(r); o.insert(k, S::Array((0..n).map(|_| self.object(r, depth - 1)).collect())); }
        }
        S::Object(o)
    }
    pub fn object(&self, r: &mut Rng, depth: usize) -> S {
        match r.below(10) {
            0 | 1 | 2 | 3 => self.value(r),
            4 if self.lists && depth > 0 => {
                let n = r.below(4);
                let mut o = Map::new();
                o.insert("@list".into(), S::Array((0..n).map(|_| self.object(r, depth - 1)).collect()));
                self.idx(r, &mut o);
                S::Object(o)
            }
            _ => self.node(r, depth),
        }
    }
    pub fn doc(&self, r: &mut Rng, depth: usize) -> S {
        let n = 1 + r.below(3);
        S::Array((0..n).map(|_| self.node(r, depth)).collect())
    }
}
fn is_json_literal(o: &Map<String, S>) -> bool {
    o.contains_key("@value") && o.get("@type") == Some(&json!("@json"))
}
/// text that is the same exactly for documents that differ by the order of unordered things only
pub fn canon(v: &S) -> String {
    canon_in(v, "@graph")
}
pub fn canon_in(v: &S, key: &str) -> String {
    match v {
        S::Object(o) => {
            let lit = is_json_literal(o);
            let mut e: Vec<String> = o.iter().map(|(k, v)| {
                if k == "@value" && lit { format!("{k:?}:{v}") }
                else if k == "@language" { format!("{k:?}:{:?}", v.as_str().unwrap().to_ascii_lowercase()) }
                else { format!("{k:?}:{}", canon_in(v, k)) }
            }).collect();
            e.sort();
            format!("{{{}}}", e.join(","))
        }
        S::Array(a) => {
            let mut e: Vec<String> = a.iter().map(|v| canon_in(v, "")).collect();
            if key != "@list" { e.sort() }
            if key == "@graph" || key == "@included" { e.dedup() }
            format!("[{}]", e.join(","))
        }
        v => v.to_string(),
    }
}
pub fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j)
    }
}
/// the same document with everything unordered in another order
pub fn rearrange(r: &mut Rng, v: &S, key: &str) -> S {
    match v {
        S::Object(o) => {
            let lit = is_json_literal(o);
            let mut e: Vec<(String, S)> = o.iter().map(|(k, v)| (k.clone(), if lit { v.clone() } else { rearrange(r, v, k) })).collect();
            shuffle(r, &mut e);
            S::Object(e.into_iter().collect())
        }
        S::Array(a) => {
            let mut e: Vec<S> = a.iter().map(|v| rearrange(r, v, "")).collect();
            if key != "@list" { shuffle(r, &mut e) }
            S::Array(e)
        }
        v => v.clone(),
    }
}
/// one small change somewhere (which may happen to change nothing)
pub fn nudge(r: &mut Rng, v: &mut S, g: &Gen) {
    match v {
        S::Array(a) => {
            if a.is_empty() { return }
            let i = r.below(a.len());
            let prim = a[i].is_string();
            match r.below(6) {
                0 if a.len() > 1 => { a.remove(i); }
                1 => { let x = a[i].clone(); a.push(x) }
                2 if a.len() > 1 => { let j = r.below(a.len()); let x = a[j].clone(); a[i] = x }
                3 if a.len() > 1 => { let j = r.below(a.len()); a.swap(i, j) }
                _ if prim => a[i] = json!(g.id(r)),
                _ => nudge(r, &mut a[i], g),
            }
        }
        S::Object(o) => {
            if o.contains_key("@value") { let n = g.value(r); *v = n; return }
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() { return }
            let k = r.pick(&keys).clone();
            match k.as_str() {
                "@id" => { if r.chance(1, 3) { o.remove("@id"); } else { o.insert(k, json!(g.id(r))); } }
                "@index" => { if r.chance(1, 2) { o.remove("@index"); } else { o.insert(k, json!(*r.pick(&["i", "k"]))); } }
                _ => nudge(r, o.get_mut(&k).unwrap(), g),
            }
        }
        _ => (),
    }
}
/// the same document with blank node identifiers renamed
pub fn rename(v: &S, f: &dyn Fn(&str) -> String) -> S {
    let s = |t: &str| if t.starts_with("_:") { f(t) } else { t.to_string() };
    match v {
        S::Object(o) => {
            if o.contains_key("@value") { return v.clone() }
            S::Object(o.iter().map(|(k, v)| (s(k), if k == "@index" { v.clone() } else { rename(v, f) })).collect())
        }
        S::Array(a) => S::Array(a.iter().map(|v| rename(v, f)).collect()),
        S::String(t) => S::String(s(t)),
        v => v.clone(),
    }
}
