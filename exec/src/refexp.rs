//! An independent reading of the expansion and value expansion algorithms of JSON-LD 1.1, over plain
//! JSON. Used to predict what the real code must do.
use crate::refctx::*;
use serde_json::{json, Map, Value as V};

fn err<T>(s: &str) -> R<T> { Err(s.to_string()) }
pub fn arr(v: &V) -> Vec<V> { match v { V::Array(a) => a.clone(), v => vec![v.clone()] } }
fn kw(v: &str) -> bool { is_keyword(v) }

pub struct Exp<'a, 'w> { pub w: &'a mut World<'w>, pub base: Option<&'a str>, pub v10: bool,
    /// something the specification leaves in the result that is no part of expanded form was met
    pub odd: bool }

fn add(o: &mut Map<String, V>, k: &str, v: V) {
    let e = o.entry(k.to_string()).or_insert_with(|| json!([]));
    if let V::Array(a) = e { match v { V::Array(b) => a.extend(b), v => a.push(v) } }
}
pub fn is_graph_object(v: &V) -> bool {
    v.as_object().is_some_and(|o| o.contains_key("@graph") && o.keys().all(|k| matches!(k.as_str(), "@graph" | "@id" | "@index" | "@context")))
}

impl<'a, 'w> Exp<'a, 'w> {
    fn opt(&self) -> Opt { Opt { v10: self.v10, over: false, propagate: true } }
    fn process(&mut self, c: &Ctx, local: &V, base: Option<&str>, over: bool, propagate: bool) -> R<Ctx> {
        let o = Opt { over, propagate, ..self.opt() };
        process(self.w, c, local, &[], base, o)
    }
    pub fn value(&mut self, c: &Ctx, prop: Option<&str>, value: &V) -> R<V> {
        let def = prop.and_then(|p| c.terms.get(p));
        let typ = def.and_then(|d| d.typ.as_deref());
        if let (Some("@id"), V::String(s)) = (typ, value) { return Ok(json!({"@id": expand_iri(c, s, true, false)})) }
        if let (Some("@vocab"), V::String(s)) = (typ, value) { return Ok(json!({"@id": expand_iri(c, s, true, true)})) }
        let mut r = Map::new();
        r.insert("@value".into(), value.clone());
        match typ {
            Some(t) if !matches!(t, "@id" | "@vocab" | "@none") => { r.insert("@type".into(), json!(t)); }
            _ => if value.is_string() {
                let l = match def.and_then(|d| d.language.clone()) { Some(l) => l, None => c.lang.clone() };
                let d = match def.and_then(|d| d.direction.clone()) { Some(l) => l, None => c.dir.clone() };
                if let Some(l) = l { r.insert("@language".into(), json!(l)); }
                if let Some(d) = d { r.insert("@direction".into(), json!(d)); }
            }
        }
        Ok(V::Object(r))
    }
    pub fn element(&mut self, active: &Ctx, prop: Option<&str>, e: &V, from_map: bool) -> R<V> {
        if e.is_null() { return Ok(V::Null) }
        let def = prop.and_then(|p| active.terms.get(p)).cloned();
        let scoped = def.as_ref().and_then(|d| d.context.clone());
        let scoped_base = def.as_ref().and_then(|d| d.base_url.clone());
        let free = prop.is_none() || prop == Some("@graph");
        match e {
            V::Array(a) => {
                let mut r = vec![];
                for i in a {
                    let mut x = self.element(active, prop, i, from_map)?;
                    if def.as_ref().is_some_and(|d| d.container.contains("@list")) && x.is_array() { x = json!({"@list": x}) }
                    match x { V::Array(b) => r.extend(b), V::Null => (), x => r.push(x) }
                }
                Ok(V::Array(r))
            }
            V::Object(o) => {
                let mut c = active.clone();
                let has_value = o.keys().any(|k| expand_iri(active, k, false, true).as_deref() == Some("@value"));
                let only_id = o.len() == 1 && o.keys().all(|k| expand_iri(active, k, false, true).as_deref() == Some("@id"));
                if let Some(p) = &active.previous { if !from_map && !has_value && !only_id { c = (**p).clone() } }
                if let Some(s) = scoped { c = self.process(&c, &s, scoped_base.as_deref(), true, true)? }
                if let Some(l) = o.get("@context") { let b = self.base.map(String::from); c = self.process(&c, l, b.as_deref(), false, true)? }
                let type_scoped = c.clone();
                let mut keys: Vec<&String> = o.keys().collect();
                keys.sort();
                let mut input_type = None;
                for k in &keys {
                    if expand_iri(&c, k, false, true).as_deref() != Some("@type") { continue }
                    let vs = arr(&o[*k]);
                    if input_type.is_none() { input_type = Some(vs.last().and_then(|v| v.as_str()).map(String::from)) }
                }
                for k in &keys {
                    if expand_iri(&type_scoped, k, false, true).as_deref() != Some("@type") { continue }
                    let mut vs: Vec<String> = arr(&o[*k]).iter().filter_map(|v| v.as_str().map(String::from)).collect();
                    vs.sort();
                    for t in vs {
                        if let Some(d) = type_scoped.terms.get(&t) {
                            if let Some(l) = &d.context {
                                let b = c.terms.get(&t).map_or(d.base_url.clone(), |d| d.base_url.clone());
                                c = self.process(&c, l, b.as_deref(), false, false)?
                            }
                        }
                    }
                }
                let input_type = input_type.flatten().and_then(|t| expand_iri(&c, &t, false, true));
                let mut r = Map::new();
                self.entries(&c, &type_scoped, prop, o, input_type.as_deref(), &mut r)?;
                // what the result may be
                if let Some(v) = r.get("@value").cloned() {
                    if r.keys().any(|k| !matches!(k.as_str(), "@direction" | "@index" | "@language" | "@type" | "@value")) { return err("invalid value object") }
                    let t = r.get("@type").cloned();
                    if t.is_some() && (r.contains_key("@language") || r.contains_key("@direction")) { return err("invalid value object") }
                    if !v.is_string() && t != Some(json!("@json")) && r.contains_key("@direction") { self.odd = true }
                    if t == Some(json!("@json")) { }
                    else if v.is_null() { return Ok(V::Null) }
                    else if !v.is_string() && r.contains_key("@language") { return err("invalid language-tagged value") }
                    else if t.is_some_and(|t| !t.as_str().is_some_and(is_iri)) { return err("invalid typed value") }
                } else if let Some(t) = r.get("@type").cloned() {
                    r.insert("@type".into(), V::Array(arr(&t)));
                }
                if r.contains_key("@set") || r.contains_key("@list") {
                    if r.keys().any(|k| !matches!(k.as_str(), "@set" | "@list" | "@index")) || r.contains_key("@set") && r.contains_key("@list") { return err("invalid set or list object") }
                    if let Some(s) = r.get("@set") { return self.free(s.clone(), free) }
                }
                if r.len() == 1 && r.contains_key("@language") { return Ok(V::Null) }
                self.free(V::Object(r), free)
            }
            e => {
                if free { return Ok(V::Null) }
                let c = match scoped { Some(s) => self.process(active, &s, scoped_base.as_deref(), false, true)?, None => active.clone() };
                self.value(&c, prop, e)
            }
        }
    }
    fn free(&self, v: V, free: bool) -> R<V> {
        if let (V::Object(o), true) = (&v, free) {
            if o.is_empty() || o.contains_key("@value") || o.contains_key("@list") || o.len() == 1 && o.contains_key("@id") { return Ok(V::Null) }
        }
        Ok(v)
    }
    fn entries(&mut self, c: &Ctx, type_scoped: &Ctx, prop: Option<&str>, o: &Map<String, V>, input_type: Option<&str>, r: &mut Map<String, V>) -> R<()> {
        let mut nests = vec![];
        let valueish = o.keys().any(|k| expand_iri(c, k, false, true).as_deref() == Some("@value"));
        for (key, value) in o {
            if key == "@context" { continue }
            let Some(p) = expand_iri(c, key, false, true) else { continue };
            if !p.contains(':') && !kw(&p) { continue }
            if kw(&p) {
                if prop == Some("@reverse") { return err("invalid reverse property map") }
                if r.contains_key(&p) && p == "@reverse" { self.odd = true }
                if r.contains_key(&p) && p != "@included" && p != "@type" || self.v10 && r.contains_key(&p) { return err("colliding keywords") }
                if (p == "@language" || p == "@direction") && !valueish && !(o.len() == 1 && p == "@language" && value.is_string()) { self.odd = true }
                let text = |e: &str| value.as_str().map(String::from).ok_or_else(|| e.to_string());
                match p.as_str() {
                    "@id" => { let s = text("invalid @id value")?; r.insert(p, json!(expand_iri(c, &s, true, false))); }
                    "@type" => {
                        let vs = arr(value);
                        if vs.iter().any(|v| !v.is_string()) { return err("invalid type value") }
                        let x: Vec<V> = vs.iter().map(|v| json!(expand_iri(type_scoped, v.as_str().unwrap(), true, true))).collect();
                        if x.iter().any(|t| t.as_str().map_or(true, is_keyword)) && !valueish { self.odd = true }
                        match r.get_mut("@type") {
                            Some(t) => { let mut a = arr(t); a.extend(x); *t = V::Array(a) }
                            None => { r.insert(p, if value.is_array() { V::Array(x) } else { x[0].clone() }); }
                        }
                    }
                    "@graph" => { let x = self.element(c, Some("@graph"), value, false)?; r.insert(p, V::Array(arr(&x).into_iter().filter(|x| !x.is_null()).collect())); }
                    "@included" => {
                        if self.v10 { continue }
                        let x = self.element(c, Some("@included"), value, false)?;
                        for i in arr(&x) { if !i.is_object() || ["@value", "@list", "@set"].iter().any(|k| i.get(k).is_some()) { return err("invalid @included value") } add(r, &p, i) }
                        r.entry(p).or_insert_with(|| json!([]));
                    }
                    "@value" => {
                        if input_type != Some("@json") && (value.is_array() || value.is_object()) { return err("invalid value object value") }
                        r.insert(p, value.clone());
                    }
                    "@language" => { r.insert(p, json!(text("invalid language-tagged string")?)); }
                    "@direction" => { if self.v10 { self.odd = true; continue } if *value != json!("ltr") && *value != json!("rtl") { return err("invalid base direction") } r.insert(p, value.clone()); }
                    "@index" => { r.insert(p, json!(text("invalid @index value")?)); }
                    "@list" => {
                        if prop.is_none() || prop == Some("@graph") { continue }
                        let x = self.element(c, prop, value, false)?;
                        r.insert(p, V::Array(arr(&x).into_iter().filter(|x| !x.is_null()).collect()));
                    }
                    "@set" => { let x = self.element(c, prop, value, false)?; r.insert(p, x); }
                    "@reverse" => {
                        if !value.is_object() { return err("invalid @reverse value") }
                        let x = self.element(c, Some("@reverse"), value, false)?;
                        let V::Object(mut x) = x else { continue };
                        if let Some(V::Object(d)) = x.remove("@reverse") { for (k, v) in d { add(r, &k, v) } }
                        if !x.is_empty() {
                            let V::Object(m) = r.entry("@reverse").or_insert_with(|| json!({})) else { unreachable!() };
                            for (k, v) in x {
                                m.entry(k.clone()).or_insert_with(|| json!([]));
                                for i in arr(&v) { if i.get("@value").is_some() || i.get("@list").is_some() { return err("invalid reverse property value") } add(m, &k, i) }
                            }
                        }
                    }
                    "@nest" => nests.push(key),
                    _ => (),
                }
                continue;
            }
            let def = c.terms.get(key).cloned().unwrap_or_default();
            let has = |k: &str| def.container.contains(k);
            let mut x = if def.typ.as_deref() == Some("@json") { json!({"@value": value, "@type": "@json"}) }
            else if has("@language") && value.is_object() {
                let dir = match &def.direction { Some(d) => d.clone(), None => c.dir.clone() };
                let mut out = vec![];
                for (l, lv) in value.as_object().unwrap() {
                    for i in arr(lv) {
                        if i.is_null() { continue }
                        if !i.is_string() { return err("invalid language map value") }
                        let mut v = Map::new();
                        v.insert("@value".into(), i);
                        if expand_iri(c, l, false, true).as_deref() != Some("@none") { v.insert("@language".into(), json!(l)); }
                        if let Some(d) = &dir { v.insert("@direction".into(), json!(d)); }
                        out.push(V::Object(v));
                    }
                }
                V::Array(out)
            } else if (has("@index") || has("@type") || has("@id")) && value.is_object() {
                let index_key = def.index.clone().unwrap_or("@index".into());
                let mut out = vec![];
                for (index, iv) in value.as_object().unwrap() {
                    let mut mc = c.clone();
                    if has("@id") || has("@type") { if let Some(p) = &c.previous { mc = (**p).clone() } }
                    if has("@type") {
                        if let Some(d) = mc.terms.get(index).cloned() { if let Some(l) = &d.context { mc = self.process(&mc, l, d.base_url.as_deref(), false, true)? } }
                    }
                    let xi = expand_iri(c, index, false, true);
                    let none = xi.as_deref() == Some("@none");
                    let items = self.element(&mc, Some(key), &V::Array(arr(iv)), true)?;
                    for mut item in arr(&items) {
                        if has("@graph") && !is_graph_object(&item) { item = json!({"@graph": [item]}) }
                        let io = item.as_object_mut().unwrap();
                        if has("@index") && index_key != "@index" && !none {
                            let re = self.value(c, Some(&index_key), &json!(index))?;
                            let Some(k) = expand_iri(c, &index_key, false, true) else { continue };
                            let mut vs = vec![re];
                            if let Some(old) = io.get(&k) { vs.extend(arr(old)) }
                            io.insert(k, V::Array(vs));
                            if io.contains_key("@value") { return err("invalid value object") }
                            if io.contains_key("@list") { self.odd = true }
                        } else if has("@index") && !io.contains_key("@index") && !none { io.insert("@index".into(), json!(index)); }
                        else if has("@id") && (io.contains_key("@value") || io.contains_key("@list")) { self.odd = true }
                        else if has("@type") && !none && (io.contains_key("@value") || io.contains_key("@list")) { self.odd = true }
                        else if has("@id") && !io.contains_key("@id") && !none {
                            if xi.is_none() { self.odd = true }
                             io.insert("@id".into(), json!(expand_iri(c, index, true, false))); }
                        else if has("@type") && !none {
                            if xi.as_deref().map_or(true, is_keyword) { self.odd = true }
                            let mut ts = vec![json!(xi)];
                            if let Some(t) = io.get("@type") { ts.extend(arr(t)) }
                            io.insert("@type".into(), V::Array(ts));
                        }
                        out.push(item);
                    }
                }
                V::Array(out)
            } else { self.element(c, Some(key), value, false)? };
            if x.is_null() { continue }
            if has("@list") && x.get("@list").is_none() { x = json!({"@list": arr(&x)}) }
            if has("@graph") && !has("@id") && !has("@index") { x = V::Array(arr(&x).into_iter().map(|e| json!({"@graph": [e]})).collect()) }
            if def.reverse {
                let V::Object(m) = r.entry("@reverse").or_insert_with(|| json!({})) else { unreachable!() };
                for i in arr(&x) { if i.get("@value").is_some() || i.get("@list").is_some() { return err("invalid reverse property value") } add(m, &p, i) }
                if !m.contains_key(&p) { m.insert(p, json!([])); }
            } else { add(r, &p, V::Array(arr(&x))) }
        }
        for key in nests {
            for nested in arr(&o[key]) {
                let Some(n) = nested.as_object() else { return err("invalid @nest value") };
                let d = c.terms.get(key).cloned();
                let c2 = match d.as_ref().and_then(|d| d.context.clone()) { Some(s) => self.process(c, &s, d.unwrap().base_url.as_deref(), true, true)?, None => c.clone() };
                if n.keys().any(|k| expand_iri(&c2, k, false, true).as_deref() == Some("@value")) { return err("invalid @nest value") }
                if n.keys().any(|k| matches!(expand_iri(&c2, k, false, true).as_deref(), Some("@list" | "@set"))) { self.odd = true }
                self.entries(&c2, type_scoped, prop, n, input_type, r)?;
            }
        }
        Ok(())
    }
}
/// the expanded document; nothing if it holds something no part of expanded form
pub fn expand(doc: &V, docs: &Remote, base: Option<&str>, v10: bool) -> Option<R<V>> {
    let mut w = World::new(docs);
    let c = Ctx { base: base.map(String::from), orig_base: base.map(String::from), ..Default::default() };
    let mut e = Exp { w: &mut w, base, v10, odd: false };
    let r = e.element(&c, None, doc, false);
    if e.odd { return None }
    Some(r.map(|r| match r {
        V::Null => json!([]),
        V::Object(o) if o.len() == 1 && o.contains_key("@graph") => o["@graph"].clone(),
        V::Array(a) => V::Array(a),
        o => json!([o]),
    }))
}
