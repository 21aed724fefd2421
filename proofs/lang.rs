#![allow(warnings)]
use vstd::prelude::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
verus! {
//@ vacuity-decls

// ---- specification ------------------------------------------------------------------------
/// ASCII lower-casing of one byte
pub open spec fn low(c: u8) -> u8 { if 0x41 <= c && c <= 0x5a { (c + 0x20) as u8 } else { c } }
pub open spec fn lows(s: Seq<u8>) -> Seq<u8> { s.map_values(|c: u8| low(c)) }
/// language tags are equal iff their lower-cased bytes are
pub open spec fn tag_eq(a: Seq<u8>, b: Seq<u8>) -> bool { lows(a) == lows(b) }
/// the order: lexicographic on lower-cased bytes, a proper prefix being the greater
pub open spec fn tag_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() == 0 { Ordering::Equal } else { Ordering::Greater }
    } else if b.len() == 0 {
        Ordering::Less
    } else if low(a[0]) < low(b[0]) { Ordering::Less }
    else if low(a[0]) > low(b[0]) { Ordering::Greater }
    else { tag_cmp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal }
}

// laws: tag_cmp is a total order whose equality is tag_eq; tag_eq is an equivalence
proof fn law_eq_equivalence(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures tag_eq(a, a), tag_eq(a, b) == tag_eq(b, a), tag_eq(a, b) && tag_eq(b, c) ==> tag_eq(a, c),
{}
proof fn law_cmp_equal(a: Seq<u8>, b: Seq<u8>)
    ensures tag_cmp(a, b) == Ordering::Equal <==> tag_eq(a, b),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        let ta = a.subrange(1, a.len() as int);
        let tb = b.subrange(1, b.len() as int);
        law_cmp_equal(ta, tb);
        if tag_eq(a, b) {
            assert(lows(a)[0] == lows(b)[0]);
            assert forall|i: int| 0 <= i < ta.len() implies lows(ta)[i] == lows(tb)[i] by { assert(lows(a)[i + 1] == lows(b)[i + 1]); }
            assert(lows(a).len() == lows(b).len());
            assert(lows(ta) =~= lows(tb));
        }
        if tag_cmp(a, b) == Ordering::Equal {
            assert(lows(ta) == lows(tb));
            assert(lows(ta).len() == ta.len() && lows(tb).len() == tb.len());
            assert forall|i: int| 0 <= i < a.len() implies lows(a)[i] == lows(b)[i] by { if i > 0 { assert(lows(ta)[i - 1] == lows(tb)[i - 1]); } }
            assert(lows(a) =~= lows(b));
        }
    } else {
        if a.len() == 0 && b.len() == 0 { assert(lows(a) =~= lows(b)); }
        if tag_eq(a, b) { assert(lows(a).len() == lows(b).len()); }
    }
}
proof fn law_cmp_antisym(a: Seq<u8>, b: Seq<u8>)
    ensures tag_cmp(b, a) == rev(tag_cmp(a, b)),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 { law_cmp_antisym(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)); }
}
proof fn law_cmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures
        tag_cmp(a, b) == Ordering::Less && tag_cmp(b, c) == Ordering::Less ==> tag_cmp(a, c) == Ordering::Less,
        tag_cmp(a, b) == Ordering::Equal ==> tag_cmp(a, c) == tag_cmp(b, c),
        tag_cmp(b, c) == Ordering::Equal ==> tag_cmp(a, c) == tag_cmp(a, b),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        law_cmp_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
    }
}
/// peeling a common (case-insensitively) equal prefix does not change the comparison
proof fn peel(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), forall|j: int| 0 <= j < i ==> low(a[j]) == low(b[j]),
    ensures tag_cmp(a, b) == tag_cmp(a.subrange(i, a.len() as int), b.subrange(i, b.len() as int)),
    decreases i,
{
    if i > 0 {
        assert(low(a[0]) == low(b[0]));
        let ta = a.subrange(1, a.len() as int);
        let tb = b.subrange(1, b.len() as int);
        peel(ta, tb, i - 1);
        assert(ta.subrange(i - 1, ta.len() as int) =~= a.subrange(i, a.len() as int));
        assert(tb.subrange(i - 1, tb.len() as int) =~= b.subrange(i, b.len() as int));
    } else {
        assert(a.subrange(0, a.len() as int) =~= a);
        assert(b.subrange(0, b.len() as int) =~= b);
    }
}

// ---- hashing: a hasher is modelled by the sequence of bytes fed to it ----------------------
#[verifier::external_trait_specification]
pub trait ExHasher {
    type ExternalTraitSpecificationFor: std::hash::Hasher;
}
pub uninterp spec fn fed<H: Hasher>(h: H) -> Seq<u8>;
pub assume_specification<H: Hasher> [<u8 as Hash>::hash] (b: &u8, state: &mut H)
    ensures fed(*final(state)) == fed(*old(state)).push(*b);

// ---- assumed contracts (std) ---------------------------------------------------------------
pub assume_specification [u8::is_ascii_uppercase] (c: &u8) -> (r: bool)
    ensures r == (0x41 <= *c && *c <= 0x5a);

// ---- functions under contract --------------------------------------------------------------
//@ extract fn into_smallcase from crates/syntax/src/utils.rs
//@ ret r
//@ spec
    ensures r == low(c),
//@ end

//@ extract fn case_insensitive_eq from crates/syntax/src/utils.rs
//@ ret r
//@ spec
    ensures r == tag_eq(a@, b@),
//@ start
    proof {
        assert(lows(a@).len() == a@.len() && lows(b@).len() == b@.len());
        if a@.len() == b@.len() && (forall|j: int| 0 <= j < a@.len() ==> low(a@[j]) == low(b@[j])) { assert(lows(a@) =~= lows(b@)); }
        if tag_eq(a@, b@) { assert forall|j: int| 0 <= j < a@.len() implies low(a@[j]) == low(b@[j]) by { assert(lows(a@)[j] == lows(b@)[j]); } }
    }
//@ loop 0
    invariant
        a@.len() == b@.len(),
        forall|j: int| 0 <= j < i ==> low(a@[j]) == low(b@[j]),
        tag_eq(a@, b@) ==> forall|j: int| 0 <= j < a@.len() ==> low(a@[j]) == low(b@[j]),
//@ end

//@ extract fn case_insensitive_hash from crates/syntax/src/utils.rs
//@ spec
    ensures fed(*final(hasher)) == fed(*old(hasher)) + lows(bytes@),
//@ start
    let ghost h0 = fed(*hasher);
//@ loop 0 iter it
//@ loop 0
    invariant fed(*hasher) == h0 + lows(bytes@.subrange(0, it.index@)),
//@ loop 0 body-start
    let ghost k = it.index@;
//@ loop 0 body-end
    proof { assert(lows(bytes@.subrange(0, k + 1)) =~= lows(bytes@.subrange(0, k)).push(low(bytes@[k]))); }
//@ end

//@ extract fn case_insensitive_cmp from crates/syntax/src/utils.rs
//@ ret r
//@ spec
    ensures r == tag_cmp(a@, b@),
//@ loop 0
    invariant
        0 <= i <= a@.len(), i <= b@.len(),
        forall|j: int| 0 <= j < i ==> low(a@[j]) == low(b@[j]),
    decreases a@.len() - i,
//@ loop 0 body-start
    proof {
        peel(a@, b@, i as int);
        let ta = a@.subrange(i as int, a@.len() as int);
        let tb = b@.subrange(i as int, b@.len() as int);
        if i < a@.len() && i < b@.len() { assert(ta[0] == a@[i as int] && tb[0] == b@[i as int]); }
    }
//@ end

// ---- the two tag types: wrappers around a string ------------------------------------------
// `LenientLangTag(str)` / `LenientLangTagBuf(String)` are unsized / transmuted in the repository; here they are
// opaque and only `as_bytes` / `as_lenient_lang_tag_ref` are assumed (they expose the wrapped string's bytes).
#[verifier::external_body]
pub struct LenientLangTag { x: u8 }
#[verifier::external_body]
pub struct LenientLangTagBuf { x: String }
uninterp spec fn tag_bytes(t: LenientLangTag) -> Seq<u8>;
uninterp spec fn buf_bytes(t: LenientLangTagBuf) -> Seq<u8>;
impl LenientLangTag {
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == tag_bytes(*self),
    { unimplemented!() }
//@ extract fn impl PartialEq for LenientLangTag > eq from crates/syntax/src/lang.rs
//@ ret r
//@ spec
    ensures r == tag_eq(tag_bytes(*self), tag_bytes(*other)),
//@ end
//@ extract fn impl PartialOrd for LenientLangTag > partial_cmp from crates/syntax/src/lang.rs
//@ ret r
//@ spec
    ensures r == Some(tag_cmp(tag_bytes(*self), tag_bytes(*other))),
//@ end
//@ extract fn impl Ord for LenientLangTag > cmp from crates/syntax/src/lang.rs
//@ ret r
//@ spec
    ensures r == tag_cmp(tag_bytes(*self), tag_bytes(*other)),
//@ end
//@ extract fn impl Hash for LenientLangTag > hash from crates/syntax/src/lang.rs
//@ spec
    ensures fed(*final(state)) == fed(*old(state)) + lows(tag_bytes(*self)),
//@ end
}
impl LenientLangTagBuf {
    #[verifier::external_body]
    fn as_lenient_lang_tag_ref(&self) -> (r: &LenientLangTag)
        ensures tag_bytes(*r) == buf_bytes(*self),
    { unimplemented!() }
//@ extract fn impl PartialEq for LenientLangTagBuf > eq from crates/syntax/src/lang.rs
//@ ret r
//@ spec
    ensures r == tag_eq(buf_bytes(*self), buf_bytes(*other)),
//@ end
//@ extract fn impl PartialOrd for LenientLangTagBuf > partial_cmp from crates/syntax/src/lang.rs
//@ ret r
//@ spec
    ensures r == Some(tag_cmp(buf_bytes(*self), buf_bytes(*other))),
//@ end
//@ extract fn impl Ord for LenientLangTagBuf > cmp from crates/syntax/src/lang.rs
//@ ret r
//@ spec
    ensures r == tag_cmp(buf_bytes(*self), buf_bytes(*other)),
//@ end
//@ extract fn impl Hash for LenientLangTagBuf > hash from crates/syntax/src/lang.rs
//@ spec
    ensures fed(*final(state)) == fed(*old(state)) + lows(buf_bytes(*self)),
//@ end
}
}
fn main() {}
