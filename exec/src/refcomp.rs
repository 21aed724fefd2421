//! An independent reading of the inverse context, IRI compaction, value compaction and compaction
//! algorithms of JSON-LD 1.1, over plain JSON in expanded form. Used to predict what the real code must do.
use crate::refctx::*;
use crate::refexp::{arr, is_graph_object};
use serde_json::{json, Map, Value as V};

#[derive(Clone, Copy)]
pub struct Flags { pub v10: bool, pub arrays: bool }
pub const UNSPECIFIED: &str = "unspecified";
pub struct Comp<'a, 'w> { pub w: &'a mut World<'w>, pub f: Flags }

type Obj = Map<String, V>;
/// the order of terms in the inverse context: shortest first, then by code points
fn sorted(c: &Ctx) -> Vec<(&String, &Def)> {
    let mut v: Vec<_> = c.terms.iter().filter(|(k, _)| *k != "@type").collect();
    v.sort_by(|a, b| a.0.len().cmp(&b.0.len()).then(a.0.cmp(b.0)));
    v
}
fn low(s: &Option<String>) -> Option<String> { s.as_ref().map(|s| s.to_ascii_lowercase()) }
/// "@none", "en", "en_rtl" or "_rtl"
fn langdir(l: &Option<String>, d: &Option<String>) -> String {
    match (low(l), d) { (None, None) => "@none".into(), (l, None) => l.unwrap(), (l, Some(d)) => format!("{}_{d}", l.unwrap_or_default()) }
}
/// under which keys of the inverse entry a term is found: (map, key)
fn keys(c: &Ctx, d: &Def) -> Vec<(&'static str, String)> {
    // (a reverse property never stands for the property itself)
    if d.reverse { return vec![("@type", "@reverse".into())] }
    let mut k = vec![("@any", "@none".to_string())];
    match (&d.typ, &d.language, &d.direction) {
        (Some(t), ..) if t == "@none" => { k.push(("@language", "@any".into())); k.push(("@type", "@any".into())); }
        (Some(t), ..) => k.push(("@type", t.clone())),
        (None, Some(l), Some(x)) => k.push(("@language", if l.is_none() && x.is_none() { "@null".into() } else { langdir(l, x) })),
        (None, Some(l), None) => k.push(("@language", match l { None => "@null".into(), l => langdir(l, &None) })),
        (None, None, Some(x)) => k.push(("@language", langdir(&None, x))),
        (None, None, None) => { k.push(("@language", langdir(&c.lang, &c.dir))); k.push(("@language", "@none".into())); k.push(("@type", "@none".into())); }
    }
    k
}
fn ckey(d: &Def) -> Vec<String> { d.container.iter().cloned().collect() }
/// term selection
pub fn select(c: &Ctx, var: &str, containers: &[&[&str]], map: &str, preferred: &[String]) -> Option<String> {
    let s = sorted(c);
    for k in containers {
        for p in preferred {
            for (t, d) in &s {
                if d.iri.as_deref() == Some(var) && ckey(d) == *k && keys(c, d).iter().any(|(m, x)| *m == map && x == p) { return Some(t.to_string()) }
            }
        }
    }
    None
}
fn authority(iri: &str) -> bool { iref::Iri::new(iri).is_ok_and(|i| i.authority().is_some()) }
pub fn add(o: &mut Obj, k: &str, v: V, as_array: bool) {
    if as_array && !o.get(k).is_some_and(|x| x.is_array()) {
        let old = o.remove(k);
        o.insert(k.into(), V::Array(old.into_iter().collect()));
    }
    match v {
        V::Array(a) => for x in a { add(o, k, x, false) },
        v => match o.get_mut(k) {
            None => { o.insert(k.into(), v); }
            Some(V::Array(a)) => a.push(v),
            Some(_) => { let old = o.remove(k).unwrap(); o.insert(k.into(), json!([old, v])); }
        },
    }
}
pub fn has(v: &V, k: &str) -> bool { v.get(k).is_some() }
impl<'a, 'w> Comp<'a, 'w> {
    fn process(&mut self, c: &Ctx, d: &Def, over: bool, propagate: bool) -> R<Ctx> {
        process(self.w, c, d.context.as_ref().unwrap(), &[], d.base_url.as_deref(), Opt { v10: self.f.v10, over, propagate })
    }
    fn kw(&self, c: &Ctx, k: &str) -> R<String> { self.iri(c, k, None, true, false) }
    pub fn iri(&self, c: &Ctx, var: &str, value: Option<&V>, vocab: bool, reverse: bool) -> R<String> {
        if vocab && c.terms.iter().any(|(k, d)| k != "@type" && d.iri.as_deref() == Some(var)) {
            let none = json!(null);
            let v = value.unwrap_or(&none);
            let mut cs: Vec<&[&str]> = vec![];
            let index = v.is_object() && has(v, "@index");
            if index && !is_graph_object(v) { cs.push(&["@index"]); cs.push(&["@index", "@set"]); }
            let mut map = "@language";
            let mut tl = "@null".to_string();
            if reverse { map = "@type"; tl = "@reverse".into(); cs.push(&["@set"]); }
            else if has(v, "@list") {
                if !index { cs.push(&["@list"]) }
                let list = v["@list"].as_array().unwrap();
                let (mut ct, mut cl): (Option<String>, Option<String>) = (None, None);
                if list.is_empty() { cl = Some(langdir(&c.lang, &c.dir)) }
                for i in list {
                    let (mut il, mut it) = ("@none".to_string(), "@none".to_string());
                    let s = |k: &str| i.get(k).and_then(|x| x.as_str()).map(String::from);
                    if has(i, "@value") {
                        if has(i, "@direction") || has(i, "@language") { il = langdir(&s("@language"), &s("@direction")) }
                        else if has(i, "@type") { it = s("@type").unwrap() }
                        else { il = "@null".into() }
                    } else { it = "@id".into() }
                    cl = Some(match cl { None => il, Some(l) if l != il && has(i, "@value") => "@none".into(), Some(l) => l });
                    ct = Some(match ct { None => it, Some(t) if t != it => "@none".into(), Some(t) => t });
                }
                let (cl, ct) = (cl.unwrap_or("@none".into()), ct.unwrap_or("@none".into()));
                if ct != "@none" { map = "@type"; tl = ct } else { tl = cl }
            } else if v.is_object() && is_graph_object(v) {
                let id = has(v, "@id");
                if index { cs.push(&["@graph", "@index"]); cs.push(&["@graph", "@index", "@set"]); }
                if id { cs.push(&["@graph", "@id"]); cs.push(&["@graph", "@id", "@set"]); }
                cs.push(&["@graph"]); cs.push(&["@graph", "@set"]); cs.push(&["@set"]);
                if !index { cs.push(&["@graph", "@index"]); cs.push(&["@graph", "@index", "@set"]); }
                if !id { cs.push(&["@graph", "@id"]); cs.push(&["@graph", "@id", "@set"]); }
                cs.push(&["@index"]); cs.push(&["@index", "@set"]);
                map = "@type"; tl = "@id".into();
            } else {
                if has(v, "@value") {
                    let s = |k: &str| v.get(k).and_then(|x| x.as_str()).map(String::from);
                    if (has(v, "@direction") || has(v, "@language")) && !index { tl = langdir(&s("@language"), &s("@direction")); cs.push(&["@language"]); cs.push(&["@language", "@set"]); }
                    else if let Some(t) = s("@type") { map = "@type"; tl = t }
                } else { map = "@type"; tl = "@id".into(); cs.push(&["@id"]); cs.push(&["@id", "@set"]); cs.push(&["@type"]); cs.push(&["@set", "@type"]); }
                cs.push(&["@set"]);
            }
            cs.push(&[]);
            if !self.f.v10 && !index { cs.push(&["@index"]); cs.push(&["@index", "@set"]); }
            if !self.f.v10 && v.as_object().is_some_and(|o| o.len() == 1 && has(v, "@value")) { cs.push(&["@language"]); cs.push(&["@language", "@set"]); }
            let mut p: Vec<String> = vec![];
            if tl == "@reverse" { p.push("@reverse".into()) }
            let id = v.get("@id").and_then(|i| i.as_str());
            if let (true, Some(i)) = (map == "@type" && (tl == "@id" || tl == "@reverse"), id) {
                let t = self.iri(c, i, None, true, false)?;
                let known = c.terms.get(&t).is_some_and(|d| d.iri.as_deref() == Some(i));
                for k in if known { ["@vocab", "@id", "@none"] } else { ["@id", "@vocab", "@none"] } { p.push(k.into()) }
            } else {
                p.push(tl.clone());
                p.push("@none".into());
                if has(v, "@list") && v["@list"] == json!([]) { map = "@any" }
            }
            p.push("@any".into());
            if map == "@language" { if let Some(i) = tl.rfind('_').filter(|i| matches!(&tl[i + 1..], "ltr" | "rtl")) { p.push(tl[i..].into()) } }
            if let Some(t) = select(c, var, &cs, map, &p) { return Ok(t) }
        }
        if let (true, Some(v)) = (vocab, &c.vocab) {
            if let Some(s) = var.strip_prefix(v.as_str()) { if !s.is_empty() && !c.terms.contains_key(s) { return Ok(s.into()) } }
        }
        let mut best: Option<String> = None;
        for (t, d) in &c.terms {
            let Some(i) = &d.iri else { continue };
            if !d.prefix || i == var { continue }
            let Some(s) = var.strip_prefix(i.as_str()) else { continue };
            let cand = format!("{t}:{s}");
            let usable = match c.terms.get(&cand) { None => true, Some(d) => d.iri.as_deref() == Some(var) && value.is_none() };
            if usable && best.as_ref().map_or(true, |b| (cand.len(), &cand) < (b.len(), b)) { best = Some(cand) }
        }
        if let Some(b) = best { return Ok(b) }
        if let (true, Some((scheme, _))) = (is_iri(var), var.split_once(':')) {
            if c.terms.get(scheme).is_some_and(|d| d.prefix) && !authority(var) { return Err("IRI confused with prefix".into()) }
        }
        if let (false, true, Some(b)) = (vocab, is_iri(var), &c.base) {
            let r = iref::Iri::new(var).unwrap().relative_to(iref::Iri::new(b).unwrap()).to_string();
            if resolve(&r, Some(b)).as_deref() == Some(var) { return Ok(if keyword_like(&r) { format!("./{r}") } else { r }) }
        }
        Ok(var.into())
    }
    pub fn value(&mut self, c: &Ctx, prop: Option<&str>, e: &V) -> R<V> {
        let mut c = c.clone();
        if let Some(d) = prop.and_then(|p| c.terms.get(p)).cloned() { if d.context.is_some() { c = self.process(&c, &d, true, true)?; } }
        let def = prop.and_then(|p| c.terms.get(p));
        let l = match def.and_then(|d| d.language.clone()) { Some(l) => l, None => c.lang.clone() };
        let d = match def.and_then(|d| d.direction.clone()) { Some(l) => l, None => c.dir.clone() };
        let typ = def.and_then(|d| d.typ.clone());
        let keep = has(e, "@index") && !def.is_some_and(|d| d.container.contains("@index"));
        let s = |k: &str| e.get(k).and_then(|x| x.as_str()).map(String::from);
        if !keep {
            if has(e, "@type") { if s("@type") == typ { return Ok(e["@value"].clone()) } }
            else if typ.is_none() && (!e["@value"].is_string() || low(&s("@language")) == low(&l) && s("@direction") == d) { return Ok(e["@value"].clone()) }
        }
        let mut r = Map::new();
        for (k, v) in e.as_object().unwrap() {
            if k == "@index" && !keep { continue }
            let v = if k == "@type" { json!(self.iri(&c, v.as_str().unwrap(), None, true, false)?) } else { v.clone() };
            r.insert(self.kw(&c, k)?, v);
        }
        Ok(V::Object(r))
    }
    pub fn many(&mut self, c: &Ctx, ts: &Ctx, prop: Option<&str>, items: &[V]) -> R<V> {
        let mut r = vec![];
        for i in items { let x = self.element(c, ts, prop, i)?; if !x.is_null() { r.push(x) } }
        let keep = prop.and_then(|p| c.terms.get(p)).is_some_and(|d| d.container.contains("@list") || d.container.contains("@set"));
        if r.len() == 1 && !matches!(prop, Some("@graph" | "@set")) && !keep && self.f.arrays { return Ok(r.pop().unwrap()) }
        Ok(V::Array(r))
    }
    fn element(&mut self, active: &Ctx, ts: &Ctx, prop: Option<&str>, e: &V) -> R<V> {
        if has(e, "@value") { return self.value(active, prop, e) }
        let o = e.as_object().unwrap();
        let mut c = active.clone();
        // a node that is just a reference, whatever its index
        let single = has(e, "@id") && o.keys().all(|k| k == "@id" || k == "@index");
        if let (false, Some(p)) = (single, &active.previous) { c = (**p).clone() }
        let mut list = false;
        if let Some(d) = prop.and_then(|p| ts.terms.get(p)).cloned() {
            if d.context.is_some() { c = self.process(&c, &d, true, true)? }
            list = d.container.contains("@list");
        }
        let in_index = |c: &Ctx| prop.and_then(|p| c.terms.get(p)).is_some_and(|d| d.container.contains("@index"));
        let mut r = Map::new();
        if let Some(l) = o.get("@list") {
            if list { return self.many(&c, &c, prop, l.as_array().unwrap()) }
            self.property(&c, &mut r, "@list", &arr(l), false)?;
            if let (Some(i), false) = (o.get("@index"), in_index(&c)) { r.insert(self.kw(&c, "@index")?, i.clone()); }
            return Ok(V::Object(r))
        }
        let types: Vec<String> = o.get("@type").map(arr).unwrap_or_default().iter().map(|t| t.as_str().unwrap().to_string()).collect();
        let mut ct = vec![];
        for t in &types { ct.push(self.iri(ts, t, None, true, false)?) }
        let plain = ct.clone();
        ct.sort();
        for t in &ct { if let Some(d) = ts.terms.get(t).cloned() { if d.context.is_some() { c = self.process(&c, &d, false, false)? } } }
        if let Some(i) = o.get("@id") {
            let i = i.as_str().unwrap();
            if single {
                match prop.and_then(|p| c.terms.get(p)).and_then(|d| d.typ.as_deref()) {
                    Some("@id") => return Ok(json!(self.iri(&c, i, None, false, false)?)),
                    Some("@vocab") => return Ok(json!(self.iri(&c, i, None, true, false)?)),
                    _ => (),
                }
            }
            r.insert(self.kw(&c, "@id")?, json!(self.iri(&c, i, None, false, false)?));
        }
        if !types.is_empty() {
            let v = if plain.len() == 1 { json!(plain[0]) } else { json!(plain) };
            let alias = self.kw(&c, "@type")?;
            let set = !self.f.v10 && c.terms.get(&alias).is_some_and(|d| d.container.contains("@set"));
            add(&mut r, &alias, v, set || !self.f.arrays);
        }
        if let Some(rev) = o.get("@reverse").and_then(|r| r.as_object()).filter(|r| !r.is_empty()) {
            let mut m = Map::new();
            for (k, v) in rev { self.property(&c, &mut m, k, &arr(v), true)?; }
            let mut left = Map::new();
            for (k, v) in m {
                match c.terms.get(&k) {
                    Some(d) if d.reverse => add(&mut r, &k, v, d.container.contains("@set") || !self.f.arrays),
                    _ => { left.insert(k, v); }
                }
            }
            if !left.is_empty() { r.insert(self.kw(&c, "@reverse")?, V::Object(left)); }
        }
        if let (Some(i), false) = (o.get("@index"), in_index(&c)) { r.insert(self.kw(&c, "@index")?, i.clone()); }
        if let Some(g) = o.get("@graph") { self.property(&c, &mut r, "@graph", &arr(g), false)?; }
        for (k, v) in o { if !k.starts_with('@') { self.property(&c, &mut r, k, &arr(v), false)?; } }
        if let Some(g) = o.get("@included") { self.property(&c, &mut r, "@included", &arr(g), false)?; }
        Ok(V::Object(r))
    }
    fn place<'r>(&self, c: &Ctx, r: &'r mut Obj, p: &str) -> R<&'r mut Obj> {
        let Some(n) = c.terms.get(p).and_then(|d| d.nest.clone()) else { return Ok(r) };
        if n != "@nest" && c.terms.get(&n).and_then(|d| d.iri.as_deref()) != Some("@nest") { return Err("invalid @nest value".into()) }
        Ok(r.entry(n).or_insert_with(|| json!({})).as_object_mut().unwrap())
    }
    /// takes the first value of `key` if it is a string; everything else stays
    fn first(item: &mut V, key: &str) -> Option<String> {
        let o = item.as_object_mut()?;
        let v = o.remove(key)?;
        let mut a = arr(&v);
        if !a.first().is_some_and(|x| x.is_string()) { o.insert(key.into(), v); return None }
        let k = a.remove(0).as_str().unwrap().to_string();
        for x in a { add(o, key, x, false) }
        Some(k)
    }
    fn property(&mut self, c: &Ctx, r: &mut Obj, prop: &str, values: &[V], inside_reverse: bool) -> R<()> {
        if values.is_empty() {
            let p = self.iri(c, prop, Some(&json!([])), true, inside_reverse)?;
            add(self.place(c, r, &p)?, &p, json!([]), true);
        }
        for e in values {
            let p = self.iri(c, prop, Some(e), true, inside_reverse)?;
            let def = c.terms.get(&p).cloned();
            let inn = |k: &str| def.as_ref().is_some_and(|d| d.container.contains(k));
            let as_array = inn("@set") || p == "@graph" || p == "@list" || !self.f.arrays;
            self.place(c, r, &p)?;
            let index = e.get("@index").cloned();
            let (into, key, item): (bool, String, V);
            if let Some(l) = e.get("@list") {
                let mut x = self.many(c, c, Some(&p), &arr(l))?;
                if !x.is_array() { x = json!([x]) }
                if inn("@list") { self.place(c, r, &p)?.insert(p.clone(), x); continue }
                let mut m = Map::new();
                m.insert(self.kw(c, "@list")?, x);
                // an index map holds lists and graphs by index too
                let keyed = inn("@index") && def.as_ref().unwrap().index.is_none();
                if let (Some(i), false) = (&index, keyed) { m.insert(self.kw(c, "@index")?, i.clone()); }
                let k = match (&index, keyed) { (Some(i), true) => i.as_str().unwrap().to_string(), _ => self.kw(c, "@none")? };
                (into, key, item) = (inn("@index"), k, V::Object(m));
            } else if is_graph_object(e) {
                let x = self.many(c, c, Some(&p), &arr(&e["@graph"]))?;
                let id = e.get("@id").and_then(|i| i.as_str());
                if inn("@graph") && inn("@id") {
                    let k = match id { Some(i) => self.iri(c, i, None, false, false)?, None => self.kw(c, "@none")? };
                    (into, key, item) = (true, k, x);
                } else if inn("@graph") && inn("@index") && id.is_none() {
                    (into, key, item) = (true, index.and_then(|i| i.as_str().map(String::from)).unwrap_or("@none".into()), x);
                } else if inn("@graph") && id.is_none() {
                    let x = match x { V::Array(a) if a.len() > 1 => { let mut m = Map::new(); m.insert(self.kw(c, "@included")?, V::Array(a)); V::Object(m) } x => x };
                    (into, key, item) = (false, String::new(), x);
                } else {
                    let mut m = Map::new();
                    m.insert(self.kw(c, "@graph")?, x);
                    if let Some(i) = id { m.insert(self.kw(c, "@id")?, json!(self.iri(c, i, None, false, false)?)); }
                    let by_index = inn("@index");
                    let keyed = by_index && def.as_ref().unwrap().index.is_none();
                    if let (Some(i), false) = (&index, keyed) { m.insert(self.kw(c, "@index")?, i.clone()); }
                    let k = match (&index, keyed) { (Some(i), true) => i.as_str().unwrap().to_string(), _ => self.kw(c, "@none")? };
                    (into, key, item) = (by_index, k, V::Object(m));
                }
            } else {
                let mut x = self.element(c, c, Some(&p), e)?;
                if inn("@graph") || !["@language", "@index", "@id", "@type"].iter().any(|k| inn(k)) { (into, key, item) = (false, String::new(), x); }
                else {
                    let k = if inn("@language") && has(e, "@value") {
                        x = e["@value"].clone();
                        e.get("@language").and_then(|l| l.as_str()).map(String::from)
                    } else if inn("@language") { None }
                    else if inn("@index") {
                        match def.as_ref().and_then(|d| d.index.clone()) {
                            None => index.and_then(|i| i.as_str().map(String::from)),
                            Some(k) => {
                                // whether the index is expanded before it is compacted depends on the edition
                                if self.iri(c, &k, None, true, false).map_or(true, |t| t != k) { return Err(UNSPECIFIED.into()) }
                                Self::first(&mut x, &k)
                            }
                        }
                    } else if inn("@id") {
                        let k = self.kw(c, "@id")?;
                        x.as_object_mut().and_then(|o| o.remove(&k)).and_then(|k| k.as_str().map(String::from))
                    } else {
                        let k = self.kw(c, "@type")?;
                        let f = Self::first(&mut x, &k);
                        let id = self.kw(c, "@id")?;
                        if x.as_object().is_some_and(|o| o.len() == 1 && o.contains_key(&id)) { x = self.element(c, c, Some(&p), &json!({"@id": e["@id"]}))? }
                        f
                    };
                    let k = match k { Some(k) => k, None => self.kw(c, "@none")? };
                    (into, key, item) = (true, k, x);
                }
            }
            let o = self.place(c, r, &p)?;
            if into {
                let m = o.entry(p.clone()).or_insert_with(|| json!({})).as_object_mut().ok_or("the reference put something else into a map")?;
                add(m, &key, item, as_array)
            } else { add(o, &p, item, as_array) }
        }
        Ok(())
    }
}
/// the compacted document, without the context
pub fn compact(expanded: &V, c: &Ctx, docs: &Remote, f: Flags) -> R<V> {
    let mut w = World::new(docs);
    let mut k = Comp { w: &mut w, f };
    Ok(match k.many(c, c, None, &arr(expanded))? {
        V::Array(a) if a.is_empty() => json!({}),
        V::Array(a) => { let mut m = Map::new(); m.insert(k.kw(c, "@graph")?, V::Array(a)); V::Object(m) }
        o => o,
    })
}
