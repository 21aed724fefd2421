use crate::run::Run;
use json_ld_syntax::{LenientLangTag, LenientLangTagBuf};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| if b.is_ascii_uppercase() { b + 32 } else { b }).collect()
}
fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

pub fn run(r: &mut Run) {
    let mut pool: Vec<String> = ["", "a", "A", "b", "B", "en", "EN", "eN", "En", "en-US", "EN-us", "en_US", "e", "é", "É", "@", "`", "[", "{", "z", "Z",
        "en-", "en-u", "zh-Hant", "ZH-hANT", "i-klingon", "x-private", "\u{0}", "ß", "SS", "ſ", "K", "k", "en\u{300}", "ena", "enA", "ENa", "aZ", "Az", "az-AZ-Latn", "AZ-az-lATN"]
        .iter().map(|s| s.to_string()).collect();
    let extra = r.n(40, 300);
    let alphabet: Vec<char> = "aAbBzZ-_09@[`{éÉ ".chars().collect();
    for _ in 0..extra {
        let n = r.rng.below(7);
        let s: String = (0..n).map(|_| *r.rng.pick(&alphabet)).collect();
        let t: String = s.chars().map(|c| if c.is_ascii_alphabetic() && r.rng.chance(1, 2) { ((c as u8) ^ 0x20) as char } else { c }).collect();
        pool.push(s);
        pool.push(t);
    }
    for a in &pool {
        let la = LenientLangTag::new(a).0;
        let ba = LenientLangTagBuf::new(a.clone()).0;
        r.eq("a tag keeps its text", a, (a.clone(), a.clone(), a.clone(), a.clone(), a.clone()), || {
            (la.as_str().to_string(), ba.as_str().to_string(), ba.to_string(), ba.clone().into_string(), LenientLangTagBuf::from(a.clone()).as_str().to_string())
        });
        r.eq("to_owned keeps the text", a, a.as_bytes().to_vec(), || la.to_owned().as_bytes().to_vec());
        r.eq("well-formedness is reported consistently", a, (true, true, true, true), || {
            let wf = langtag::LangTag::new(a).is_ok();
            (la.is_well_formed() == wf, la.as_well_formed().is_some() == wf, LenientLangTag::new(a).1.is_none() == wf, LenientLangTagBuf::new(a.clone()).1.is_none() == wf && ba.clone().into_well_formed().is_ok() == wf)
        });
    }
    for a in &pool {
        for b in &pool {
            let (x, y) = (lower(a), lower(b));
            let t = format!("{a:?} / {b:?}");
            let la = LenientLangTag::new(a).0;
            let lb = LenientLangTag::new(b).0;
            let ba = LenientLangTagBuf::from(a.clone());
            let bb = LenientLangTagBuf::from(b.clone());
            r.eq("equal iff same up to ASCII case", &t, (x == y, x == y), || (la == lb, ba == bb));
            r.eq("comparison ignores ASCII case", &t, true, || {
                let (l, m) = (String::from_utf8(x.clone()).unwrap(), String::from_utf8(y.clone()).unwrap());
                la.cmp(lb) == LenientLangTag::new(&l).0.cmp(LenientLangTag::new(&m).0)
            });
            r.eq("comparison is antisymmetric", &t, la.cmp(lb), || lb.cmp(la).reverse());
            r.eq("owned and partial comparisons agree", &t, (la.cmp(lb), Some(la.cmp(lb)), Some(la.cmp(lb))), || (ba.cmp(&bb), la.partial_cmp(lb), ba.partial_cmp(&bb)));
            r.eq("equal iff ordering says equal", &t, la == lb, || la.cmp(lb) == Ordering::Equal);
            if x == y {
                r.eq("equal tags hash alike", &t, (true, true, true), || (h(la) == h(lb), h(&ba) == h(&bb), h(la) == h(&bb)));
            }
        }
    }
    let small: Vec<&String> = pool.iter().take(r.n(40, 90)).collect();
    for a in &small {
        for b in &small {
            for c in &small {
                let (x, y, z) = (LenientLangTag::new(a).0, LenientLangTag::new(b).0, LenientLangTag::new(c).0);
                if x.cmp(y) != Ordering::Greater && y.cmp(z) != Ordering::Greater {
                    r.holds("comparison is transitive", &format!("{a:?} / {b:?} / {c:?}"), || x.cmp(z) != Ordering::Greater);
                }
            }
        }
    }
    // collections keyed by tags
    let mut map = std::collections::HashMap::new();
    let mut tree = std::collections::BTreeMap::new();
    let mut oracle = std::collections::HashMap::new();
    for (i, a) in pool.iter().enumerate() {
        map.insert(LenientLangTagBuf::from(a.clone()), i);
        tree.insert(LenientLangTagBuf::from(a.clone()), i);
        oracle.insert(lower(a), i);
    }
    for a in &pool {
        let e = oracle.get(&lower(a)).copied();
        r.eq("maps keyed by tags find the entry whatever the case", a, (e, e), || (map.get(LenientLangTag::new(a).0).copied(), tree.get(LenientLangTag::new(a).0).copied()));
    }
}
