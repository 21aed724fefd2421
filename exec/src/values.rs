use crate::run::Run;
use crate::util::*;
use json_ld_core::object::value::{EntryRef, Literal, TypeRef};
use json_ld_core::{Direction, LangStr, LangString, LenientLangTagBuf, Object, Value};
use json_ld_core::object::TryFromJson;
use json_ld_syntax::IntoJsonWithContext;
use json_syntax::Value as J;

fn tag(s: &str) -> LenientLangTagBuf { LenientLangTagBuf::new(s.to_string()).0 }
type Parts = (String, Option<String>, Option<&'static str>);
fn d(x: Direction) -> &'static str { match x { Direction::Ltr => "ltr", Direction::Rtl => "rtl" } }
fn parts(s: &LangString) -> Parts {
    (s.as_str().to_string(), s.language().map(|t| t.as_str().to_string()), s.direction().map(d))
}
fn key(e: &EntryRef<iref::IriBuf>) -> String {
    match e { EntryRef::Value(_) => "@value", EntryRef::Type(_) => "@type", EntryRef::Language(_) => "@language", EntryRef::Direction(_) => "@direction" }.to_string()
}

pub fn run(r: &mut Run) {
    let langs: [Option<&str>; 4] = [None, Some("en"), Some("fr-CA"), Some("not a tag")];
    let dirs = [None, Some(Direction::Ltr), Some(Direction::Rtl)];
    for text in ["", "hello", "é\n\"x"] {
        for l in langs { for dr in dirs {
            let name = format!("{text:?} @language={l:?} @direction={:?}", dr.map(d));
            let want: Parts = (text.to_string(), l.map(String::from), dr.map(d));
            let some = l.is_some() || dr.is_some();
            let mk = || LangString::new(text.into(), l.map(tag), dr);
            r.eq("a language string needs a language or a direction", &name, some, || mk().is_ok());
            r.eq("LangStr needs a language or a direction", &name, some, || {
                let t = l.map(tag);
                LangStr::new(text, t.as_ref().map(|t| t.as_lenient_lang_tag_ref()), dr).is_ok()
            });
            if !some { continue }
            r.eq("the parts of a language string are the given ones", &name, want.clone(), || parts(&mk().unwrap()));
            r.eq("parts()", &name, want.clone(), || { let s = mk().unwrap(); let (a, b, c) = s.parts(); (a.to_string(), b.map(|t| t.as_str().to_string()), c.map(|x| d(*x))) });
            r.eq("into_parts()", &name, want.clone(), || { let (a, b, c) = mk().unwrap().into_parts(); (a.to_string(), b.map(|t| t.as_str().to_string()), c.map(d)) });
            r.eq("as_lang_str()", &name, want.clone(), || { let s = mk().unwrap(); let t = s.as_lang_str(); (t.as_str().to_string(), t.language().map(|t| t.as_str().to_string()), t.direction().map(d)) });
            for l2 in langs { for d2 in dirs {
                let n2 = format!("{name} <- language {l2:?} direction {:?}", d2.map(d));
                let w = if l2.is_some() || dr.is_some() { (true, (text.to_string(), l2.map(String::from), dr.map(d))) } else { (false, want.clone()) };
                r.eq("set_language keeps a language or a direction", &n2, w, || { let mut s = mk().unwrap(); let b = s.set_language(l2.map(tag)).is_ok(); (b, parts(&s)) });
                let w = if l.is_some() || d2.is_some() { (true, (text.to_string(), l.map(String::from), d2.map(d))) } else { (false, want.clone()) };
                r.eq("set_direction keeps a language or a direction", &n2, w, || { let mut s = mk().unwrap(); let b = s.set_direction(d2).is_ok(); (b, parts(&s)) });
                let w = if l2.is_some() || d2.is_some() { (true, (text.to_string(), l2.map(String::from), d2.map(d))) } else { (false, want.clone()) };
                r.eq("set keeps a language or a direction", &n2, w, || { let mut s = mk().unwrap(); let b = s.set(l2.map(tag), d2).is_ok(); (b, parts(&s)) });
            } }
        } }
    }
    // value objects, read from and written to JSON
    let vals = ["null", "true", "false", "0", "-1.5e3", "\"\"", "\"a\"", "{}", "[]", "[1,{\"a\":null}]", "{\"@value\":1}"];
    let types = [None, Some("\"@json\""), Some("\"http://x.y/t\""), Some("\"rel\""), Some("1"), Some("\"@id\"")];
    let ls = [None, Some("\"en\""), Some("\"not a tag\""), Some("null"), Some("3")];
    let ds = [None, Some("\"ltr\""), Some("\"rtl\""), Some("\"up\""), Some("null")];
    let extras = ["", "\"@index\":\"i\"", "\"x\":1", "\"@id\":\"http://a.b/\"", "\"@type\":\"http://x.y/u\"", "\"@language\":\"de\""];
    for v in vals { for t in types { for l in ls { for dr in ds { for x in extras {
        let mut e: Vec<String> = vec![];
        if let Some(t) = t { e.push(format!("\"@type\":{t}")) }
        if let Some(l) = l { e.push(format!("\"@language\":{l}")) }
        if let Some(z) = dr { e.push(format!("\"@direction\":{z}")) }
        e.push(format!("\"@value\":{v}"));
        if !x.is_empty() { e.push(x.to_string()) }
        let text = format!("{{{}}}", e.join(","));
        let vj = j(v);
        let scalar = !matches!(vj, J::Array(_) | J::Object(_));
        let extra_is_bad = !(x.is_empty() || (x.starts_with("\"@index") ) || (x.starts_with("\"@type") && t.is_none()) || (x.starts_with("\"@language") && l.is_none()));
        let t2 = if x.starts_with("\"@type") && t.is_none() { Some("\"http://x.y/u\"") } else { t };
        let l2 = if x.starts_with("\"@language") && l.is_none() { Some("\"de\"") } else { l };
        let good = !extra_is_bad && match t2 {
            Some("\"@json\"") => l2.is_none() && dr.is_none(),
            Some("\"http://x.y/t\"") | Some("\"http://x.y/u\"") => l2.is_none() && dr.is_none() && scalar,
            Some(_) => false,
            None if l2.is_some() || dr.is_some() => matches!(vj, J::String(_)) && l2.map_or(true, |l| l.starts_with('"')) && dr.map_or(true, |d| d == "\"ltr\"" || d == "\"rtl\""),
            None => scalar,
        };
        let read = || json_ld_core::Indexed::<Object>::try_from_json_in(&mut (), j(&text)).ok();
        r.eq("a value object is read exactly when it is well formed", &text, good, || read().is_some());
        if !good { continue }
        r.eq("a value object reads back as it was written", &text, canon(&j(&text)), || canon(&read().unwrap().into_json_with(&())));
        r.case("the accessors of a value object agree with its entries", &text, || {
            let o = read().unwrap();
            let v = o.as_value().ok_or(("a value".to_string(), "not a value".to_string()))?;
            let mut want = vec!["@value".to_string()];
            if t2.is_some() { want.push("@type".into()) }
            if l2.is_some() { want.push("@language".into()) }
            if dr.is_some() { want.push("@direction".into()) }
            let got: Vec<String> = v.entries().map(|e| key(&e)).collect();
            let mut back: Vec<String> = v.entries().rev().map(|e| key(&e)).collect();
            back.reverse();
            let ends = { let mut it = v.entries(); let a = it.next_back().map(|e| key(&e)); let n = it.len(); let b = it.next().map(|e| key(&e)); (a, n, b) };
            let wends = (want.last().cloned(), want.len() - 1, if want.len() > 1 { want.first().cloned() } else { None });
            let keys_ok = v.entries().all(|e| e.key().as_str() == key(&e) && e.key().into_str() == key(&e) && e.key().into_keyword().into_str() == key(&e));
            let unq = |s: Option<&str>| s.map(|s| s.trim_matches('"').to_string());
            let facts = (
                v.typ().map(|t| match t { TypeRef::Json => "@json".to_string(), TypeRef::Id(i) => i.to_string() }),
                v.language().map(|l| l.as_str().to_string()),
                v.direction().map(d).map(String::from),
                if t2 == Some("\"@json\"") { None } else { v.as_str().map(String::from) },
                v.as_bool(), v.as_number().map(|n| n.as_str().to_string()), v.literal_type().map(|t| t.to_string()),
                v.entries().len(),
            );
            let lit = t2 != Some("\"@json\"");
            let want_facts = (
                unq(t2), unq(l2), unq(dr),
                match &vj { J::String(s) if lit => Some(s.to_string()), _ => None },
                match &vj { J::Boolean(b) if lit => Some(*b), _ => None },
                match &vj { J::Number(n) if lit => Some(n.as_str().to_string()), _ => None },
                if lit { unq(t2) } else { None },
                want.len(),
            );
            if got == want && back == want && ends == wends && keys_ok && facts == want_facts { Ok(()) } else {
                Err((format!("{want:?} {wends:?} {want_facts:?}"), format!("{got:?} {back:?} {ends:?} {keys_ok} {facts:?}")))
            }
        });
        r.case("changing the literal type affects literals only", &text, || {
            let o = read().unwrap();
            let v = o.as_value().unwrap().clone();
            let islit = matches!(v, Value::Literal(..));
            let mut w = v.clone();
            let old = w.set_literal_type(Some(iri("http://n.m/")));
            let mut m = v.clone();
            m.map_literal_type(|_| Some(iri("http://n.m/")));
            let ok = if islit { w.literal_type().map(|t| t.as_str()) == Some("http://n.m/") && old.as_ref() == v.literal_type() && w.as_literal().unwrap().0 == v.as_literal().unwrap().0 && m == w } else { w == v && old.is_none() && m == v };
            if ok { Ok(()) } else { Err(("the type replaced iff a literal".into(), format!("{w:?}"))) }
        });
    } } } } }
    r.eq("null()", "", "{\"@value\":null}".to_string(), || canon(&Value::<iref::IriBuf>::null().into_json_with(&())));
    for v in vals {
        let vj = j(v);
        let scalar = !matches!(vj, J::Array(_) | J::Object(_));
        r.eq("a literal is read from scalars and written unchanged", v, if scalar { Some(canon(&vj)) } else { None }, || Literal::try_from(j(v)).ok().map(|l| canon(&l.into_json())));
    }
}
