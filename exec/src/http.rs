//! The HTTP loader against a server on the loopback interface.
use crate::run::Run;
use crate::util::{self, iri};
use iref::{Iri, IriBuf, IriRefBuf};
use json_ld::loader::reqwest::{Error, Options, ReqwestLoader};
use json_ld::{Loader, LoadError, Profile, RemoteDocument};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
struct Page { status: u16, headers: Vec<(String, String)>, body: Vec<u8> }
#[derive(Default)]
struct Site { pages: HashMap<String, Page>, asked: Vec<(String, String)> }
/// a server that answers the pages it is given and notes what is asked (path and Accept header)
struct Server { port: u16, site: Arc<Mutex<Site>> }
impl Server {
    fn start() -> Server {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let site: Arc<Mutex<Site>> = Default::default();
        let s = site.clone();
        std::thread::spawn(move || for c in l.incoming() {
            let Ok(mut c) = c else { continue };
            let s = s.clone();
            std::thread::spawn(move || {
                let _ = c.set_read_timeout(Some(std::time::Duration::from_secs(20)));
                let mut buf = vec![];
                let mut chunk = [0; 4096];
                while !buf.windows(4).any(|w| w == b"\r\n\r\n") { match c.read(&mut chunk) { Ok(0) | Err(_) => return, Ok(n) => buf.extend(&chunk[..n]) } }
                let t = String::from_utf8_lossy(&buf).into_owned();
                let path = t.split_whitespace().nth(1).unwrap_or("").to_string();
                let accept = t.lines().filter_map(|l| l.split_once(':')).filter(|l| l.0.eq_ignore_ascii_case("accept")).map(|l| l.1.trim().to_string()).collect::<Vec<_>>().join(" | ");
                let page = { let mut s = s.lock().unwrap(); s.asked.push((path.clone(), accept)); s.pages.get(&path).cloned() }.unwrap_or(Page { status: 404, ..Default::default() });
                let mut o = format!("HTTP/1.1 {} X\r\nConnection: close\r\nContent-Length: {}\r\n", page.status, page.body.len()).into_bytes();
                for (k, v) in &page.headers { o.extend(format!("{k}: {v}\r\n").bytes()) }
                o.extend(b"\r\n");
                o.extend(&page.body);
                let _ = c.write_all(&o);
            });
        });
        Server { port, site }
    }
    fn url(&self, p: &str) -> String { format!("http://127.0.0.1:{}{p}", self.port) }
}
/// a media type with its parameters, read on its own terms: `type/subtype(;name=value)*`
fn media(t: &str) -> Option<(String, Vec<(String, String)>)> {
    let mut rest = t;
    let cut = |s: &str, stop: &[char]| -> usize { s.find(stop).unwrap_or(s.len()) };
    let n = cut(rest, &[';']);
    let kind = rest[..n].to_string();
    rest = &rest[n..];
    let mut p = vec![];
    while let Some(r) = rest.strip_prefix(';') {
        let r = r.trim_start_matches(' ');
        let (k, r) = r.split_once('=')?;
        let v;
        if let Some(q) = r.strip_prefix('"') { let (a, b) = q.split_once('"')?; v = a.to_string(); rest = b } else { let n = cut(r, &[';']); v = r[..n].to_string(); rest = &r[n..] }
        p.push((k.to_string(), v));
    }
    let (a, b) = kind.split_once('/')?;
    if a.is_empty() || b.is_empty() || !rest.is_empty() || kind.contains(' ') { return None }
    Some((kind, p))
}
fn json_type(k: &str) -> bool { k == "application/json" || k.ends_with("+json") }
/// the links of a header: what is between the angle brackets, and the parameters
fn links(h: &str) -> Vec<(String, HashMap<String, String>)> {
    let mut out = vec![];
    let mut c = h.chars().peekable();
    loop {
        while matches!(c.peek(), Some(' ' | '\t' | ',')) { c.next(); }
        if c.next() != Some('<') { return out }
        let mut href = String::new();
        loop { match c.next() { Some('>') => break, Some(x) => href.push(x), None => return out } }
        let mut params = HashMap::new();
        loop {
            while matches!(c.peek(), Some(' ' | '\t')) { c.next(); }
            match c.peek() { None | Some(',') => break, Some(';') => { c.next(); } Some(_) => return out }
            while matches!(c.peek(), Some(' ' | '\t')) { c.next(); }
            let mut k = String::new();
            loop { match c.next() { Some('=') => break, Some(x) => k.push(x), None => return out } }
            let mut v = String::new();
            if c.peek() == Some(&'"') { c.next(); loop { match c.next() { Some('"') => break, Some(x) => v.push(x), None => return out } } }
            else { while let Some(x) = c.peek() { if ";, \t".contains(*x) { break } v.push(*x); c.next(); } }
            params.insert(k, v);
        }
        if IriRefBuf::new(href.clone()).is_err() { return out }
        out.push((href, params));
    }
}
fn resolve(href: &str, base: &str) -> String { IriRefBuf::new(href.to_string()).unwrap().resolved(Iri::new(base).unwrap()).to_string() }
/// the answer the pages give for a URL
fn expected(s: &Server, pages: &HashMap<String, Page>, url: &str, max: usize) -> String {
    let mut url = url.to_string();
    let mut jumps = 0;
    'link: loop {
        if jumps > max { return format!("error for {url}: too many redirections") }
        let asked = url.clone();
        let mut hops = 0;
        let page = loop {
            let p = url.strip_prefix(&s.url("")).unwrap().split('#').next().unwrap().to_string();
            let page = pages.get(&p).cloned().unwrap_or(Page { status: 404, ..Default::default() });
            match (page.status, page.headers.iter().find(|h| h.0 == "Location")) {
                (301 | 302 | 303 | 307 | 308, Some((_, l))) => { hops += 1; if hops > 10 { return format!("error for {asked}: http") } url = resolve(l, &url) }
                _ => break page,
            }
        };
        if page.status != 200 { return format!("error for {url}: status {}", page.status) }
        let types: Vec<_> = page.headers.iter().filter(|h| h.0 == "Content-Type").filter_map(|h| media(&h.1)).collect();
        let all: Vec<_> = page.headers.iter().filter(|h| h.0 == "Link").flat_map(|h| links(&h.1)).collect();
        let Some((kind, params)) = types.into_iter().find(|t| json_type(&t.0)) else {
            for (href, p) in &all {
                if p.get("rel").map(|x| x.as_str()) == Some("alternate") && p.get("type").map(|x| x.as_str()) == Some("application/ld+json") { url = resolve(href, &url); jumps += 1; continue 'link }
            }
            return format!("error for {url}: content type");
        };
        let mut context = None;
        if kind != "application/ld+json" {
            for (href, p) in &all {
                if p.get("rel").map(|x| x.as_str()) == Some("http://www.w3.org/ns/json-ld#context") { if context.is_some() { return format!("error for {url}: several contexts") } context = Some(resolve(href, &url)) }
            }
        }
        let mut profiles: Vec<String> = params.iter().rev().find(|p| p.0 == "profile").map(|p| p.1.split(' ').filter(|x| Iri::new(x).is_ok()).map(|x| x.to_string()).collect()).unwrap_or_default();
        profiles.sort();
        profiles.dedup();
        return match std::str::from_utf8(&page.body).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(t).ok().map(|_| t)) {
            None => format!("error for {url}: parse"),
            Some(t) => format!("{url} as {kind} context {context:?} profiles {profiles:?}: {}", util::canon(&util::j(t))),
        };
    }
}
fn shown(r: &Result<RemoteDocument, LoadError>) -> String {
    match r {
        Ok(d) => {
            let mut p: Vec<String> = d.profile.iter().map(|p| p.iri().to_string()).collect();
            p.sort();
            format!("{} as {} context {:?} profiles {p:?}: {}", d.url.as_ref().map(|u| u.to_string()).unwrap_or_default(), d.content_type.as_ref().map(|m| m.to_string()).unwrap_or_default(), d.context_url.as_ref().map(|u| u.to_string()), util::canon(&d.document))
        }
        Err(e) => format!("error for {}: {}", e.target, match e.cause.downcast_ref::<Error>() {
            Some(Error::QueryFailed(c)) => format!("status {}", c.as_u16()),
            Some(Error::InvalidContentType) => "content type".into(),
            Some(Error::MultipleContextLinkHeaders) => "several contexts".into(),
            Some(Error::TooManyRedirections) => "too many redirections".into(),
            Some(Error::Parse(_)) => "parse".into(),
            Some(Error::Reqwest(_)) | None => "http".into(),
        }),
    }
}
fn page(status: u16, headers: &[(&str, &str)], body: &str) -> Page { Page { status, headers: headers.iter().map(|h| (h.0.to_string(), h.1.to_string())).collect(), body: body.as_bytes().to_vec() } }
const TYPES: &[&str] = &[
    "application/ld+json", "application/json", "application/activity+json", "text/html", "text/plain; charset=utf-8", "application/json; charset=utf-8", "application/ld+json;profile=http://www.w3.org/ns/json-ld#expanded",
    "application/ld+json; profile=\"http://www.w3.org/ns/json-ld#flattened http://a/p\"", "application/ld+json; charset=\"utf-8\"; profile=\"http://a/p\"; q=1", "application/json; profile=\"relative http://a/p http://a/p\"", "application/vnd.x+json; profile=\"http://www.w3.org/ns/json-ld#context\"",
    "application/xml", "application/jsonx", "application/x-json", "image/svg+xml", "application/json; profile=http://a/p;profile=http://a/q", "nonsense", "application/ld+json; profile=\"http://a/p", "application/ld+json; x", "application/json; profile=\"\"", "application/xhtml+xml; profile=\"application/ld+json\"",
];
const LINKS: &[&str] = &[
    "<ctx>; rel=\"http://www.w3.org/ns/json-ld#context\"", "</a/ctx>; rel=\"http://www.w3.org/ns/json-ld#context\"; type=\"application/ld+json\"", "<http://other/ctx>;rel=\"http://www.w3.org/ns/json-ld#context\"", "<x>; rel=\"stylesheet\"", "<data.jsonld>; rel=\"alternate\"; type=\"application/ld+json\"",
    "<data.jsonld>; type=\"application/ld+json\"; rel=\"alternate\"; title=\"a, b; c\"", "<data.html>; rel=\"alternate\"; type=\"text/html\"", "<data.jsonld>; rel=alternate; type=\"application/ld+json\"", "<x>; rel=\"stylesheet\", <data.jsonld>; rel=\"alternate\"; type=\"application/ld+json\"",
    "<x>;rel=next,<ctx?a,b>;rel=\"http://www.w3.org/ns/json-ld#context\"", "<ctx> ; rel=\"http://www.w3.org/ns/json-ld#context\"", "<ctx>; rel=\"http://www.w3.org/ns/json-ld#context\", <ctx2>; rel=\"http://www.w3.org/ns/json-ld#context\"", "ctx; rel=\"alternate\"", "<ctx; rel=\"http://www.w3.org/ns/json-ld#context\"",
    "<>; rel=\"http://www.w3.org/ns/json-ld#context\"", "<ctx>", "<a b>; rel=\"http://www.w3.org/ns/json-ld#context\"", "<ctx>; rel=\"http://www.w3.org/ns/json-ld#context", "<ctx>; rel", "<../up/data>; rel=\"alternate\"; type=\"application/ld+json\"", "<data.jsonld>; rel=\"Alternate\"; type=\"application/ld+json\"",
    "<data.jsonld>; rev=\"alternate\"; type=\"application/ld+json\"", "<ctx>; rel=\"http://www.w3.org/ns/json-ld#context\"; anchor=\"#x\", <x>; rel=next", "<x>\t;\trel=next\t,\t<data.jsonld>;\trel=alternate; type=\"application/ld+json\"",
];
const BODIES: &[&str] = &["{}", r#"{"@id":"a","b":[1,"é"]}"#, "[1,", "", "null", "{} x"];
pub fn run(r: &mut Run) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let s = Server::start();
    let load = |l: &ReqwestLoader, u: &str| { let u: IriBuf = iri(u); rt.block_on(l.load(&u)) };
    let plain = ReqwestLoader::new();
    let mut sites: Vec<(String, HashMap<String, Page>, usize)> = vec![];
    let one = |p: Page| -> HashMap<String, Page> { [("/d/x".to_string(), p), ("/d/data.jsonld".into(), page(200, &[("Content-Type", "application/ld+json")], r#"{"the":"alternate"}"#)), ("/up/data".into(), page(200, &[("Content-Type", "application/json"), ("Link", LINKS[0])], r#"{"up":1}"#))].into() };
    for (k, t) in TYPES.iter().enumerate() { for b in BODIES { for status in [200, 203, 204, 404, 500] { if status == 200 || k < 2 && *b == "{}" { sites.push(("/d/x".into(), one(page(status, &[("Content-Type", t)], b)), 8)) } } } }
    for t in TYPES { for l in LINKS { sites.push(("/d/x".into(), one(page(200, &[("Content-Type", t), ("Link", l)], "{}")), 8)); } }
    for t in &TYPES[..4] { for l in LINKS { for m in LINKS { sites.push(("/d/x".into(), one(page(200, &[("Link", l), ("Content-Type", t), ("Link", m)], "{}")), 8)); } } }
    for t in TYPES { for u in TYPES { sites.push(("/d/x".into(), one(page(200, &[("Content-Type", t), ("Content-Type", u), ("Link", LINKS[1])], "{}")), 8)); } }
    sites.push(("/d/x".into(), one(page(200, &[("Link", LINKS[4])], "{}")), 8));
    sites.push(("/d/x".into(), HashMap::new(), 8));
    // chains of links and of redirections
    for (n, max) in [(0, 8), (1, 8), (8, 8), (9, 8), (12, 8), (0, 0), (1, 0), (2, 1), (2, 2), (3, 2)] {
        for hop in ["link", "301", "302", "307", "308", "mixed"] {
            let mut p = HashMap::new();
            for k in 0..n {
                let to = format!("/c{}/n", k + 1);
                let link = format!("<..{to}>; rel=\"alternate\"; type=\"application/ld+json\"");
                let code = hop.parse().unwrap_or(302);
                p.insert(format!("/c{k}/n"), if hop == "link" || hop == "mixed" && k % 2 == 0 { page(200, &[("Content-Type", "text/html"), ("Link", &link)], "x") } else { page(code, &[("Location", &to)], "") });
            }
            p.insert(format!("/c{n}/n"), page(200, &[("Content-Type", "application/json"), ("Link", LINKS[0]), ("Link", LINKS[4])], "{}"));
            sites.push(("/c0/n".into(), p, max));
        }
    }
    if !r.thorough { let keep: Vec<bool> = sites.iter().enumerate().map(|(k, _)| k < 700 || k + 80 > sites.len() || k % 3 == 0).collect(); let mut k = 0; sites.retain(|_| { k += 1; keep[k - 1] }); }
    for (path, pages, max) in sites {
        let url = s.url(&path);
        { let mut x = s.site.lock().unwrap(); x.pages = pages.clone(); x.asked.clear(); }
        let own;
        let l = if max == 8 { &plain } else { own = ReqwestLoader::new_using(Options { max_redirections: max, ..Default::default() }); &own };
        let port = s.port.to_string();
        let mut v: Vec<String> = pages.iter().map(|(p, g)| format!("{p} {} {:?} {}", g.status, g.headers, String::from_utf8_lossy(&g.body))).collect();
        v.sort();
        let want = expected(&s, &pages, &url, max).replace(&port, "PORT");
        r.eq("the loader gives the document the server's answers lead to", &format!("{path} ({max}) from {}", v.join(" || ")), want, || shown(&load(l, &url)).replace(&port, "PORT"));
    }
    // what is asked
    for profiles in [&[][..], &["http://www.w3.org/ns/json-ld#expanded"], &["http://a/p"], &["http://a/p", "http://www.w3.org/ns/json-ld#flattened", "http://a/q"]] {
        { let mut x = s.site.lock().unwrap(); x.pages = one(page(200, &[("Content-Type", "application/json")], "{}")); x.asked.clear(); }
        let l = ReqwestLoader::new_using(Options { request_profile: profiles.iter().map(|p| Profile::new(Iri::new(p).unwrap())).collect(), ..Default::default() });
        let want = format!("application/ld+json{}, application/json", if profiles.is_empty() { String::new() } else { format!("; profile=\"{}\"", profiles.join(" ")) });
        r.eq("the request accepts JSON-LD with the profiles asked, and JSON", &format!("{profiles:?}"), vec![("/d/x".to_string(), want)], || { let _ = load(&l, &s.url("/d/x")); s.site.lock().unwrap().asked.clone() });
    }
    { let mut x = s.site.lock().unwrap(); x.pages = one(page(200, &[("Content-Type", "application/json")], "{}")); x.asked.clear(); }
    for u in ["/d/x#frag", "/d/x"] { let url = s.url(u); r.eq("without redirection the URL stays the one asked", u, Some(url.clone()), || load(&plain, &url).ok().and_then(|d| d.url).map(|u| u.to_string())) }
    r.eq("a server that does not answer is an error for the URL", "", "error for http://127.0.0.1:1/x: http".to_string(), || shown(&load(&plain, "http://127.0.0.1:1/x")));
}
