//! Conversions and shortcuts shared by the executable contracts.
use json_syntax::{Parse, Print, Value as J};
use json_ld_core::{Loader, RemoteDocument};
use std::collections::BTreeMap;
use iref::IriBuf;

pub fn j(s: &str) -> J {
    J::parse_str(s).unwrap_or_else(|e| panic!("bad test input {s}: {e}")).0
}
pub fn show(v: &J) -> String {
    v.compact_print().to_string()
}
/// entries sorted, so that two JSON values are equal up to the order of object entries
pub fn canon(v: &J) -> String {
    fn go(v: &serde_json::Value) -> String {
        match v {
            serde_json::Value::Object(o) => {
                let mut e: Vec<String> = o.iter().map(|(k, v)| format!("{:?}:{}", k, go(v))).collect();
                e.sort();
                format!("{{{}}}", e.join(","))
            }
            serde_json::Value::Array(a) => format!("[{}]", a.iter().map(go).collect::<Vec<_>>().join(",")),
            v => v.to_string(),
        }
    }
    go(&serde_json::from_str(&show(v)).unwrap())
}
pub fn iri(s: &str) -> IriBuf {
    IriBuf::new(s.to_string()).unwrap()
}
pub type Docs = BTreeMap<IriBuf, RemoteDocument>;
pub fn docs(d: &[(&str, &str)]) -> Docs {
    d.iter().map(|(u, t)| (iri(u), RemoteDocument::new(Some(iri(u)), None, j(t)))).collect()
}
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
pub fn context(s: &str) -> Result<json_ld_syntax::context::Context, String> {
    use json_ld_syntax::TryFromJson;
    json_ld_syntax::context::Context::try_from_json(j(s)).map_err(|e| e.code().to_string())
}
/// processed context, or the error code
pub fn process(ctx: &str, loader: &impl Loader, base: Option<&str>) -> Result<json_ld_core::Context, String> {
    process_on(&json_ld_core::Context::default(), ctx, loader, base, Default::default())
}
pub fn process_on(active: &json_ld_core::Context, ctx: &str, loader: &impl Loader, base: Option<&str>, o: json_ld_context_processing::Options) -> Result<json_ld_core::Context, String> {
    use json_ld_context_processing::Process;
    let c = context(ctx)?;
    let r = block(c.process_full(&mut (), active, loader, base.map(iri), o, ())).map_err(|e| e.code().to_string());
    r.map(|p| p.into_processed())
}
/// expanded form as JSON, or the error code
pub fn expand(doc: &str, loader: &impl Loader, base: Option<&str>) -> Result<J, String> {
    expand_opt(doc, loader, base, Default::default())
}
pub fn expand_doc(doc: &str, loader: &impl Loader, base: Option<&str>, o: json_ld::Options) -> Result<json_ld::ExpandedDocument, String> {
    use json_ld::JsonLdProcessor;
    let d = RemoteDocument::new(base.map(iri), None, j(doc));
    block(d.expand_using(loader, o)).map_err(|e| e.code().to_string())
}
pub fn expand_opt(doc: &str, loader: &impl Loader, base: Option<&str>, o: json_ld::Options) -> Result<J, String> {
    use json_ld_syntax::IntoJsonWithContext;
    expand_doc(doc, loader, base, o).map(|e| J::Array(e.into_objects().into_iter().map(|x| x.into_json_with(&())).collect()))
}
/// a smaller JSON value on which `fails` still holds
pub fn shrink(v: &serde_json::Value, fails: &dyn Fn(&serde_json::Value) -> bool) -> serde_json::Value {
    use serde_json::Value as S;
    fn smaller(v: &S) -> Vec<S> {
        let mut out = vec![];
        match v {
            S::Object(o) => {
                for k in o.keys() { let mut p = o.clone(); p.remove(k); out.push(S::Object(p)); }
                for (_, x) in o { if x.is_object() || x.is_array() { out.push(x.clone()) } }
                for (k, x) in o { for y in smaller(x) { let mut p = o.clone(); p.insert(k.clone(), y); out.push(S::Object(p)); } }
            }
            S::Array(a) => {
                if a.len() == 1 { out.push(a[0].clone()) }
                for i in 0..a.len() { let mut b = a.clone(); b.remove(i); out.push(S::Array(b)); }
                for i in 0..a.len() { for y in smaller(&a[i]) { let mut b = a.clone(); b[i] = y; out.push(S::Array(b)); } }
            }
            S::String(s) if !s.is_empty() && s != "a" && !s.starts_with('@') => out.push(S::String("a".into())),
            _ => (),
        }
        out
    }
    let mut v = v.clone();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(5);
    'again: loop {
        let n = v.to_string().len();
        for c in smaller(&v) {
            if std::time::Instant::now() > end { break 'again }
            let m = c.to_string().len();
            if (m < n || m == n && c != v) && fails(&c) { v = c; continue 'again }
        }
        break;
    }
    v
}
