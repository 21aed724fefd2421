use crate::gen::{canon, canon_in, jv, nudge, rearrange, rename, shuffle, Gen};
use crate::run::Run;
use json_ld_core::object::node::Multiset;
use json_ld_core::object::MappedEq;
use json_ld_core::{ExpandedDocument, IndexedObject, TryFromJson};
use rdf_types::{BlankId, BlankIdBuf};
use iref::IriBuf;
use serde_json::Value as S;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
type Obj = IndexedObject<IriBuf, BlankIdBuf>;
pub fn obj(v: &S) -> Obj {
    Obj::try_from_json_in(&mut (), jv(v)).unwrap_or_else(|e| panic!("refused: {e:?}"))
}
pub fn doc(v: &S) -> ExpandedDocument {
    ExpandedDocument::try_from_json_in(&mut (), jv(v)).unwrap_or_else(|e| panic!("refused: {e:?}"))
}

pub fn run(r: &mut Run) {
    let g = Gen::default();
    for _ in 0..r.n(500, 6000) {
        let d = r.rng.below(4);
        let a = g.object(&mut r.rng, d);
        let b = rearrange(&mut r.rng, &a, "");
        let mut c = rearrange(&mut r.rng, &a, "");
        for _ in 0..1 + r.rng.below(2) { nudge(&mut r.rng, &mut c, &g) }
        let t = format!("{a} / {b}");
        r.eq("order does not matter to equality", &t, (true, true), || (obj(&a) == obj(&b), obj(&b) == obj(&a)));
        r.eq("order does not matter to hashing", &t, h(&obj(&a)), || h(&obj(&b)));
        r.eq("order does not matter to membership", &t, (true, 1), || {
            let s: HashSet<Obj> = [obj(&a), obj(&b)].into_iter().collect();
            (s.contains(&obj(&b)), s.len())
        });
        let t = format!("{a} / {c}");
        let same = canon_in(&a, "") == canon_in(&c, "");
        r.eq("equal exactly when the same up to order", &t, (same, same), || (obj(&a) == obj(&c), obj(&c) == obj(&a)));
        if same {
            r.eq("equal objects hash alike", &t, h(&obj(&a)), || h(&obj(&c)));
        }
        // renaming blank nodes
        let k = 1 + r.rng.below(3);
        let f = move |s: &str| { let n: usize = s[3..].parse().unwrap_or(0); format!("_:b{}", (n + k) % 4) };
        let x = rename(&c, &f);
        let table: Vec<(BlankIdBuf, BlankIdBuf)> = (0..4).map(|i| { let s = format!("_:b{i}"); (BlankIdBuf::new(s.clone()).unwrap(), BlankIdBuf::new(f(&s)).unwrap()) }).collect();
        let m = |b: &BlankIdBuf| -> &BlankIdBuf { let _: &BlankId = b; &table.iter().find(|(x, _)| x == b).unwrap().1 };
        r.eq("equality under a renaming is equality of the renamed", &format!("{a} / {x} / +{k}"), same, || obj(&a).mapped_eq(&obj(&x), m));
    }
    for _ in 0..r.n(200, 2500) {
        let a = g.doc(&mut r.rng, 3);
        let b = rearrange(&mut r.rng, &a, "@graph");
        let mut c = b.clone();
        nudge(&mut r.rng, &mut c, &g);
        r.eq("documents are equal up to order", &format!("{a} / {b}"), (true, true), || (doc(&a) == doc(&b), doc(&b) == doc(&a)));
        let same = canon(&a) == canon(&c);
        r.eq("documents are equal exactly when the same up to order", &format!("{a} / {c}"), (same, same), || (doc(&a) == doc(&c), doc(&c) == doc(&a)));
    }
    // multisets of small numbers
    for _ in 0..r.n(1500, 20000) {
        let n = { let m = if r.rng.chance(1, 4) { 40 } else { 7 }; r.rng.below(m) };
        let a: Vec<u8> = (0..n).map(|_| r.rng.below(4) as u8).collect();
        let mut b = a.clone();
        shuffle(&mut r.rng, &mut b);
        if r.rng.chance(1, 2) && !b.is_empty() { let i = r.rng.below(b.len()); b[i] = r.rng.below(4) as u8 }
        let t = format!("{a:?} / {b:?}");
        let (mut x, mut y) = (a.clone(), b.clone());
        x.sort();
        y.sort();
        let ma: Multiset<u8> = a.iter().copied().collect();
        let mb: Multiset<u8> = b.iter().copied().collect();
        r.eq("multisets are equal exactly when they have the same members as often", &t, (x == y, x == y), || (ma == mb, mb == ma));
        if x == y { r.eq("equal multisets hash alike", &t, h(&ma), || h(&mb)); }
        r.eq("a multiset keeps every member", &t, (a.len(), a.is_empty(), a.clone()), || (ma.len(), ma.is_empty(), ma.iter().copied().collect::<Vec<_>>()));
        let mut u: Multiset<u8> = Multiset::new();
        let mut o: Vec<u8> = vec![];
        for v in &a {
            let fresh = !o.contains(v);
            if fresh { o.push(*v) }
            r.eq("insert_unique inserts exactly what is not there", &format!("{a:?} at {v}"), fresh, || u.insert_unique(*v));
        }
        r.eq("insert_unique leaves one of each", &t, o.clone(), || u.iter().copied().collect::<Vec<_>>());
        for v in 0..4u8 {
            r.eq("contains", &format!("{a:?} {v}"), a.contains(&v), || ma.contains(&v));
        }
        r.eq("the hash of a set does not depend on order", &t, x == y, || {
            let f = |s: &[u8]| { let mut q = DefaultHasher::new(); json_ld_core::utils::hash_set(s.iter(), &mut q); q.finish() };
            f(&a) == f(&b)
        });
        r.eq("the hash of a map does not depend on order", &t, x == y, || {
            let f = |s: &[u8]| { let mut q = DefaultHasher::new(); json_ld_core::utils::hash_map(s.iter().map(|v| (v, v)), &mut q); q.finish() };
            f(&a) == f(&b)
        });
    }
}
