use crate::run::Run;
use json_ld_core::{Container, ContainerKind as K};
use json_ld_syntax::{Container as Syn, Nullable};
use std::collections::BTreeSet;

const KINDS: [K; 7] = [K::Graph, K::Id, K::Index, K::Language, K::List, K::Set, K::Type];

fn name(k: K) -> &'static str {
    match k {
        K::Graph => "@graph", K::Id => "@id", K::Index => "@index", K::Language => "@language",
        K::List => "@list", K::Set => "@set", K::Type => "@type",
    }
}
type S = BTreeSet<&'static str>;
/// the combinations JSON-LD 1.1 allows
fn valid(s: &S) -> bool {
    let mut t = s.clone();
    if t.contains("@list") {
        return t.len() == 1;
    }
    t.remove("@set");
    let v: Vec<_> = t.into_iter().collect();
    matches!(v.as_slice(), [] | [_] | ["@graph", "@id"] | ["@graph", "@index"])
}
fn set_of(c: &Container) -> S {
    c.as_slice().iter().map(|k| name(*k)).collect()
}

pub fn run(r: &mut Run) {
    // every sequence of kinds up to length 4 (all reachable containers, every insertion order)
    let depth = r.n(4, 6);
    let mut todo: Vec<(Vec<K>, S)> = vec![(vec![], S::new())];
    while let Some((seq, set)) = todo.pop() {
        let text = format!("[{}]", seq.iter().map(|k| name(*k)).collect::<Vec<_>>().join(","));
        let mut c = Container::new();
        let mut ok = true;
        for k in &seq {
            ok &= c.add(*k);
        }
        let (c, ok) = (c, ok);
        r.eq("adding the kinds one by one yields their set", &text, (true, set.clone()), || (ok, set_of(&c)));
        r.eq("slice has no duplicates and len agrees", &text, (set.len(), set.len(), set.is_empty()), || (c.as_slice().len(), c.len(), c.is_empty()));
        r.eq("iter agrees", &text, set.clone(), || c.iter().map(|k| name(*k)).collect());
        for k in KINDS {
            let t = format!("{text} ? {}", name(k));
            r.eq("contains is membership", &t, set.contains(name(k)), || c.contains(k));
            let mut next = set.clone();
            next.insert(name(k));
            let t = format!("{text} + {}", name(k));
            let expect = if valid(&next) { Some(next.clone()) } else { None };
            r.eq("with inserts or refuses", &t, expect.clone(), || c.with(k).map(|d| set_of(&d)));
            r.eq("add reports and updates", &t, (expect.is_some(), expect.clone().unwrap_or(set.clone())), || {
                let mut d = c;
                let b = d.add(k);
                (b, set_of(&d))
            });
            let mut s2 = seq.clone();
            s2.push(k);
            r.eq("building from a list of kinds", &t, expect.clone(), || Container::from(s2.iter()).ok().map(|d| set_of(&d)));
            r.eq("reading the array form", &t, expect.clone(), || {
                Container::from_syntax(Nullable::Some(&Syn::Many(s2.clone()))).ok().map(|d| set_of(&d))
            });
            if valid(&next) && s2.len() <= depth {
                todo.push((s2, next));
            }
        }
        r.case("written form denotes the same set and reads back", &text, || {
            let w = c.into_syntax();
            let ws: S = match &w {
                None => S::new(),
                Some(Syn::One(k)) => [name(*k)].into_iter().collect(),
                Some(Syn::Many(v)) => v.iter().map(|k| name(*k)).collect(),
            };
            let n = match &w { None => 0, Some(Syn::One(_)) => 1, Some(Syn::Many(v)) => v.len() };
            let back = match &w { None => Container::from_syntax(Nullable::Null), Some(x) => Container::from_syntax(Nullable::Some(x)) };
            match back {
                Ok(b) if b == c && ws == set && n == set.len() => Ok(()),
                b => Err((format!("{set:?}"), format!("written {ws:?} ({n} entries), read back {:?}", b.ok()))),
            }
        });
    }
    for k in KINDS {
        r.eq("a single kind converts to its singleton", name(k), [name(k)].into_iter().collect::<S>(), || set_of(&Container::from(std::iter::once(&k)).ok().unwrap()));
        r.eq("a single kind converts to its singleton (From)", name(k), [name(k)].into_iter().collect::<S>(), || set_of(&<Container as From<K>>::from(k)));
        r.eq("a single kind reads to its singleton", name(k), Some([name(k)].into_iter().collect::<S>()), || {
            Container::from_syntax(Nullable::Some(&Syn::One(k))).ok().map(|c| set_of(&c))
        });
    }
    r.eq("null reads as the empty container", "null", Some(S::new()), || Container::from_syntax(Nullable::Null).ok().map(|c| set_of(&c)));
    r.eq("the @type container is @set", "set", ["@set"].into_iter().collect::<S>(), || {
        set_of(&<Container as From<json_ld_syntax::context::definition::TypeContainer>>::from(json_ld_syntax::context::definition::TypeContainer::Set))
    });
}
