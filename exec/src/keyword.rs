use crate::run::Run;
use json_ld_syntax::context::definition::{Key, KeyOrKeyword, KeyOrKeywordRef, KeyRef, TypeContainer, Version};
use json_ld_syntax::context::term_definition::{Id, IdRef, Nest, Type, TypeKeyword};
use json_ld_syntax::{is_keyword, is_keyword_like, ContainerKind, Direction, ExpandableRef, Keyword};
use std::str::FromStr;

pub const KEYWORDS: [(&str, Keyword); 23] = [
    ("@base", Keyword::Base), ("@container", Keyword::Container), ("@context", Keyword::Context), ("@direction", Keyword::Direction),
    ("@graph", Keyword::Graph), ("@id", Keyword::Id), ("@import", Keyword::Import), ("@included", Keyword::Included),
    ("@index", Keyword::Index), ("@json", Keyword::Json), ("@language", Keyword::Language), ("@list", Keyword::List),
    ("@nest", Keyword::Nest), ("@none", Keyword::None), ("@prefix", Keyword::Prefix), ("@propagate", Keyword::Propagate),
    ("@protected", Keyword::Protected), ("@reverse", Keyword::Reverse), ("@set", Keyword::Set), ("@type", Keyword::Type),
    ("@value", Keyword::Value), ("@version", Keyword::Version), ("@vocab", Keyword::Vocab),
];
const CONTAINERS: [(&str, ContainerKind); 7] = [
    ("@graph", ContainerKind::Graph), ("@id", ContainerKind::Id), ("@index", ContainerKind::Index), ("@language", ContainerKind::Language),
    ("@list", ContainerKind::List), ("@set", ContainerKind::Set), ("@type", ContainerKind::Type),
];
const TYPES: [(&str, TypeKeyword); 4] = [("@id", TypeKeyword::Id), ("@json", TypeKeyword::Json), ("@none", TypeKeyword::None), ("@vocab", TypeKeyword::Vocab)];

/// "@" 1*ALPHA
pub fn like(s: &str) -> bool {
    let mut c = s.chars();
    let v: Vec<char> = match c.next() { Some('@') => c.collect(), _ => return false };
    !v.is_empty() && v.iter().all(|c| c.is_ascii_alphabetic())
}
fn find<T: Copy>(t: &[(&str, T)], s: &str) -> Option<T> {
    t.iter().find(|(x, _)| *x == s).map(|(_, k)| *k)
}

pub fn run(r: &mut Run) {
    let mut pool: Vec<String> = vec![];
    for (s, _) in KEYWORDS {
        pool.push(s.into());
        pool.push(s[1..].into());
        pool.push(s.to_uppercase());
        pool.push(format!("{s}s"));
        pool.push(format!("{s} "));
        pool.push(format!(" {s}"));
        pool.push(format!("@{s}"));
        pool.push(s[..s.len() - 1].into());
        let mut t: Vec<char> = s.chars().collect();
        t.swap(1, 2);
        pool.push(t.into_iter().collect());
    }
    for s in ["", "@", "@@", "@a", "@Z", "@aZ", "@1", "@a1", "a@", "@é", "é", "@ab@", "@a-b", "ltr", "rtl", "LTR", "1.1", "1.0", "1.10", "set", "@[", "@`", "@{", "@a[", "@zA", "@preserve", "@default", "@embed", "@any", "foo", "foo:bar", "_:b", "http://a.b/c", "@az09", "@\u{212a}"] {
        pool.push(s.into());
    }
    let alphabet: Vec<char> = "@@@abzAZ[`{09 é:".chars().collect();
    for _ in 0..r.n(2000, 40000) {
        let n = r.rng.below(6);
        pool.push((0..n).map(|_| *r.rng.pick(&alphabet)).collect());
    }
    for s in &pool {
        let k = find(&KEYWORDS, s);
        r.eq("a string is recognised as the keyword it spells", s, k, || Keyword::try_from(s.as_str()).ok());
        r.eq("is_keyword", s, k.is_some(), || is_keyword(s));
        r.eq("keyword-like is @ followed by letters", s, like(s), || is_keyword_like(s));
        r.eq("container kinds are recognised by their keyword", s, find(&CONTAINERS, s), || ContainerKind::try_from(s.as_str()).ok());
        r.eq("type keywords are recognised", s, find(&TYPES, s), || TypeKeyword::try_from(s.as_str()).ok());
        r.eq("directions are recognised", s, match s.as_str() { "ltr" => Some(Direction::Ltr), "rtl" => Some(Direction::Rtl), _ => None }, || Direction::try_from(s.as_str()).ok());
        r.eq("version", s, s == "1.1", || Version::from_str(s).is_ok());
        r.eq("type container", s, s == "@set", || TypeContainer::from_str(s).is_ok());
        r.eq("term definition @id keeps text and recognises keywords", s, (s.clone(), k, k.is_some(), like(s), s.clone(), s.clone()), || {
            let i = Id::from(s.clone());
            (i.as_str().to_string(), i.as_keyword(), i.is_keyword(), i.is_keyword_like(), i.as_id_ref().as_str().to_string(), i.clone().into_string())
        });
        r.eq("term definition @id reference", s, (s.clone(), k.is_some(), like(s)), || {
            let i = IdRef::from(s.as_str());
            (i.as_str().to_string(), i.is_keyword(), i.is_keyword_like())
        });
        r.eq("term definition @type keeps text and recognises keywords", s, (s.clone(), find(&TYPES, s), s.clone()), || {
            let i = Type::from(s.clone());
            (i.as_str().to_string(), i.as_keyword(), i.clone().into_string())
        });
        let nest_ok = s == "@nest" || k.is_none();
        r.eq("@nest accepts @nest and terms only", s, if nest_ok { Some(s.clone()) } else { None }, || Nest::try_from(s.clone()).ok().map(|n| n.as_str().to_string()));
        r.eq("@nest keyword is the keyword", s, nest_ok.then_some(s == "@nest"), || Nest::try_from(s.clone()).ok().map(|n| n == Nest::Nest));
        r.eq("keys", s, (s.clone(), s.is_empty(), like(s), s.clone(), s.is_empty(), like(s), s.clone()), || {
            let k = Key::from(s.clone());
            let kr = KeyRef::from(s.as_str());
            (k.as_str().to_string(), k.is_empty(), k.is_keyword_like(), kr.as_str().to_string(), kr.is_empty(), kr.is_keyword_like(), kr.to_owned().into_string())
        });
        r.eq("key or keyword", s, (s.clone(), k, k.is_some(), s.is_empty()), || {
            let kk = KeyOrKeywordRef::from(s.as_str());
            let o = kk.to_owned();
            (kk.as_str().to_string(), o.as_keyword(), matches!(kk, KeyOrKeywordRef::Keyword(_)), o.is_empty())
        });
        r.eq("key or keyword projections", s, (k.is_none(), k.is_none(), k, s.clone()), || {
            let o = KeyOrKeywordRef::from(s.as_str()).to_owned();
            (o.as_key().is_some(), o.clone().into_key().is_some(), o.clone().into_keyword(), o.as_str().to_string())
        });
        r.eq("expandable strings", s, (k, s.clone()), || match ExpandableRef::from(s.as_str()) {
            ExpandableRef::Keyword(k) => (Some(k), k.into_str().to_string()),
            ExpandableRef::String(t) => (None, t.to_string()),
        });
        r.eq("expandable from key or keyword", s, (k, s.clone()), || {
            let o = KeyOrKeywordRef::from(s.as_str()).to_owned();
            let x = match ExpandableRef::from(&o) {
                ExpandableRef::Keyword(k) => (Some(k), k.into_str().to_string()),
                ExpandableRef::String(t) => (None, t.to_string()),
            };
            x
        });
    }
    for (s, k) in KEYWORDS {
        r.eq("a keyword's text parses back to it", s, (s.to_string(), s.to_string(), Some(k)), || (k.into_str().to_string(), k.to_string(), Keyword::try_from(k.into_str()).ok()));
        r.eq("keyword to container kind", s, find(&CONTAINERS, s), || ContainerKind::try_from(k).ok());
        r.eq("keyword to type keyword", s, find(&TYPES, s), || TypeKeyword::try_from(k).ok());
        r.eq("keyword as key", s, s.to_string(), || KeyOrKeyword::Keyword(k).as_str().to_string());
    }
    for (s, c) in CONTAINERS {
        r.eq("container kind text", s, (s.to_string(), s, s, s), || (c.as_str().to_string(), c.keyword().into_str(), c.into_keyword().into_str(), Keyword::from(c).into_str()));
    }
    for (s, c) in TYPES {
        r.eq("type keyword text", s, (s, s, s, s, s), || (c.as_str(), c.into_str(), c.keyword().into_str(), c.into_keyword().into_str(), Keyword::from(c).into_str()));
    }
    for (s, d) in [("ltr", Direction::Ltr), ("rtl", Direction::Rtl)] {
        r.eq("direction text", s, (s, s, s.to_string()), || (d.as_str(), d.into_str(), d.to_string()));
    }
    r.eq("version text", "1.1", ("1.1", "1.1".to_string()), || (Version::V1_1.into_str(), Version::V1_1.into_json_number().as_str().to_string()));
    r.eq("type container text", "@set", ("@set", "@set"), || (TypeContainer::Set.as_str(), TypeContainer::Set.into_str()));
    // equality follows the text
    let short: Vec<String> = pool.iter().take(120).cloned().collect();
    for a in &short {
        for b in &short {
            let t = format!("{a:?} / {b:?}");
            r.eq("equality of ids, types and keys is equality of text", &t, (a == b, a == b, a == b), || {
                (Id::from(a.clone()) == Id::from(b.clone()), Type::from(a.clone()) == Type::from(b.clone()),
                 KeyOrKeywordRef::from(a.as_str()).to_owned() == KeyOrKeywordRef::from(b.as_str()).to_owned())
            });
            if let (Ok(x), Ok(y)) = (Nest::try_from(a.clone()), Nest::try_from(b.clone())) {
                r.eq("equality of nests is equality of text", &t, a == b, || x == y);
            }
        }
    }
}
