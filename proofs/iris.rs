#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use std::hash::Hash;
pub mod warning { pub use super::Handler; }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
//@ extract enum ExpandableRef from crates/syntax/src/expandable.rs
//@ end
//@ extract enum Action from crates/context-processing/src/algorithm/iri.rs
//@ end
//@ extract struct RejectVocab from crates/context-processing/src/algorithm/iri.rs
//@ end
//@ extract struct MalformedIri from crates/context-processing/src/algorithm/iri.rs
//@ end
pub struct InvalidIri<T>(pub T);
pub struct InvalidBlankId<T>(pub T);
pub struct InvalidCompactIri<T>(pub T);
#[verifier::external_body] pub struct Iri { x: u8 }
#[verifier::external_body] pub struct IriBuf { x: u8 }
#[verifier::external_body] pub struct IriRef { x: u8 }
#[verifier::external_body] pub struct BlankId { x: u8 }
#[verifier::external_body] pub struct CompactIri { x: u8 }
#[verifier::external_body] pub struct Loader { x: u8 }
pub uninterp spec fn kw(k: Keyword) -> Seq<char>;
/// proved in keyword.rs: at sign followed by ASCII letters
pub uninterp spec fn kw_like(s: Seq<char>) -> bool;
#[verifier::external_body]
fn is_keyword_like(s: &str) -> (r: bool) ensures r == kw_like(s@) { unimplemented!() }
pub uninterp spec fn iri_text(i: Iri) -> Seq<char>;
pub uninterp spec fn ref_text(i: IriRef) -> Seq<char>;
pub uninterp spec fn buf_text(i: IriBuf) -> Seq<char>;
pub uninterp spec fn blank_text(i: BlankId) -> Seq<char>;
pub uninterp spec fn compact_text(i: CompactIri) -> Seq<char>;
/// the grammars of RFC 3987 and of blank node labels
pub uninterp spec fn is_iri(s: Seq<char>) -> bool;
pub uninterp spec fn is_ref(s: Seq<char>) -> bool;
pub uninterp spec fn is_blank(s: Seq<char>) -> bool;
/// reference resolution of RFC 3986, section 5.2
pub uninterp spec fn resolved(base: Seq<char>, r: Seq<char>) -> Seq<char>;
impl Iri {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<&Iri, InvalidIri<&str>>) ensures r is Ok == is_iri(s@), r matches Ok(i) ==> iri_text(*i) == s@ { unimplemented!() }
}
impl IriBuf {
    #[verifier::external_body]
    pub fn as_iri(&self) -> (r: &Iri) ensures iri_text(*r) == buf_text(*self) { unimplemented!() }
}
impl IriRef {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<&IriRef, InvalidIri<&str>>) ensures r is Ok == is_ref(s@), r matches Ok(i) ==> ref_text(*i) == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn resolved(&self, base: &Iri) -> (r: IriBuf) ensures buf_text(r) == resolved(iri_text(*base), ref_text(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_iri(&self) -> (r: Option<&Iri>) ensures r is Some == is_iri(ref_text(*self)), r matches Some(i) ==> iri_text(*i) == ref_text(*self) { unimplemented!() }
}
impl BlankId {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<&BlankId, InvalidBlankId<&str>>) ensures r is Ok == is_blank(s@), r matches Ok(i) ==> blank_text(*i) == s@ { unimplemented!() }
}
/// rdf_types vocabularies: an index denotes the IRI or blank node label it was inserted with
pub trait Vocabulary {
    type Iri;
    type BlankId;
    spec fn text(&self, i: Self::Iri) -> Seq<char>;
    spec fn label(&self, i: Self::BlankId) -> Seq<char>;
    fn iri(&self, id: &Self::Iri) -> (r: Option<&Iri>) ensures r is Some, iri_text(*r->0) == self.text(*id);
}
pub trait VocabularyMut: Vocabulary {
    fn insert(&mut self, iri: &Iri) -> (r: Self::Iri)
        ensures final(self).text(r) == iri_text(*iri);
    fn insert_blank_id(&mut self, b: &BlankId) -> (r: Self::BlankId)
        ensures final(self).label(r) == blank_text(*b);
}
pub trait Handler<N, W> {
    fn handle(&mut self, vocabulary: &N, warning: W);
}
//@ extract struct Environment from crates/core/src/lib.rs
//@ end
/// rdf_types::Id
pub enum ValidId<I, B> { Iri(I), Blank(B) }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
//@ extract enum Term from crates/core/src/term.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
/// derived; cloning an index gives the same index
impl<T: Clone, B: Clone> Clone for Term<T, B> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct Str<'a>(pub &'a str);
impl<'a> Str<'a> {
    pub fn as_str(&self) -> (r: &'a str) ensures r == self.0 { self.0 }
}
/// `x.with(vocabulary).as_str()` (contextual crate; the text itself is proved below from `as_ref_with`)
impl<T, B> Term<T, B> {
    #[verifier::external_body]
    pub fn with<'a, N: Vocabulary<Iri = T, BlankId = B>>(&'a self, v: &'a N) -> (r: Str<'a>) ensures r.0@ == term_text(*v, *self) { unimplemented!() }
}
impl<T, B> Id<T, B> {
    #[verifier::external_body]
    pub fn with<'a, N: Vocabulary<Iri = T, BlankId = B>>(&'a self, v: &'a N) -> (r: Str<'a>) ensures r.0@ == id_text(*v, *self) { unimplemented!() }
}
pub open spec fn id_text<N: Vocabulary>(v: N, i: Id<N::Iri, N::BlankId>) -> Seq<char> {
    match i { Id::Valid(ValidId::Iri(i)) => v.text(i), Id::Valid(ValidId::Blank(b)) => v.label(b), Id::Invalid(s) => s@ }
}
pub open spec fn term_text<N: Vocabulary>(v: N, t: Term<N::Iri, N::BlankId>) -> Seq<char> {
    match t { Term::Null => ""@, Term::Id(i) => id_text(v, i), Term::Keyword(k) => kw(k) }
}

// ---- active contexts (their accessors are proved in defs.rs) ---------------------------------------
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Context<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct TermDefinitionRef<T, B> { x: core::marker::PhantomData<(T, B)> }
/// the two fields of a normal term definition that matter here
pub struct NormalTermDefinition<T, B> { pub value: Option<Term<T, B>>, pub prefix: bool }
pub struct Key { x: String }
pub uninterp spec fn key_text(k: Key) -> Seq<char>;
impl Key {
    #[verifier::external_body]
    pub fn from(s: String) -> (r: Self) ensures key_text(r) == s@ { unimplemented!() }
}
pub uninterp spec fn def<T, B>(c: Context<T, B>, s: Seq<char>) -> Option<TermDefinitionRef<T, B>>;
pub uninterp spec fn ndef<T, B>(c: Context<T, B>, s: Seq<char>) -> Option<NormalTermDefinition<T, B>>;
pub uninterp spec fn dvalue<T, B>(d: TermDefinitionRef<T, B>) -> Option<Term<T, B>>;
pub uninterp spec fn cvocab<T, B>(c: Context<T, B>) -> Option<Term<T, B>>;
pub uninterp spec fn cbase<T, B>(c: Context<T, B>) -> Option<T>;
impl<T, B> TermDefinitionRef<T, B> {
    #[verifier::external_body]
    pub fn value(&self) -> (r: Option<&Term<T, B>>) ensures r is Some == dvalue(*self) is Some, r is Some ==> *r->0 == dvalue(*self)->0 { unimplemented!() }
}
impl<T, B> Context<T, B> {
    #[verifier::external_body]
    pub fn get(&self, s: &str) -> (r: Option<TermDefinitionRef<T, B>>) ensures r == def(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_normal(&self, s: &Key) -> (r: Option<&NormalTermDefinition<T, B>>)
        ensures r is Some == ndef(*self, key_text(*s)) is Some, r is Some ==> *r->0 == ndef(*self, key_text(*s))->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vocabulary(&self) -> (r: Option<&Term<T, B>>) ensures r is Some == cvocab(*self) is Some, r is Some ==> *r->0 == cvocab(*self)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn base_iri(&self) -> (r: Option<&T>) ensures r is Some == cbase(*self) is Some, r is Some ==> *r->0 == cbase(*self)->0 { unimplemented!() }
}

// ---- strings ---------------------------------------------------------------------------------------
/// byte offset of the first colon is positive
pub open spec fn colon(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { -1 } else if s[0] == ':' { 0 } else { let i = colon(s.skip(1)); if i < 0 { -1 } else { i + 1 } } }
/// stands for `s.find(':')`: the byte offset of the first colon, zero exactly when the text starts with it
#[verifier::external_body]
fn vx_find_colon(s: &str) -> (r: Option<usize>)
    ensures r is Some == (colon(s@) >= 0), r is Some ==> (r->0 == 0) == (colon(s@) == 0)
{ s.find(':') }
/// stands for `s.split_once(':')`
#[verifier::external_body]
fn vx_split_colon<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some == (colon(s@) >= 0), r is Some ==> (r->0).0@ == s@.take(colon(s@)) && (r->0).1@ == s@.skip(colon(s@) + 1)
{ s.split_once(':') }
pub open spec fn slashes(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '/' && s[1] == '/' }
#[verifier::external_body]
fn vx_starts_with_slashes(s: &str) -> (r: bool) ensures r == slashes(s@) { s.starts_with("//") }
#[verifier::external_body]
fn vx_until(s: &CompactIri, i: usize) -> (r: &str)
    requires colon(compact_text(*s)) >= 0, i == colon_bytes(compact_text(*s)),
    ensures r@ == compact_text(*s).take(colon(compact_text(*s)))
{ unimplemented!() }
#[verifier::external_body]
fn vx_after(s: &CompactIri, i: usize) -> (r: &str)
    requires colon(compact_text(*s)) >= 0, i == colon_bytes(compact_text(*s)) + 1,
    ensures r@ == compact_text(*s).skip(colon(compact_text(*s)) + 1)
{ unimplemented!() }
/// byte offset of the first colon
pub uninterp spec fn colon_bytes(s: Seq<char>) -> int;
/// prefix and suffix
pub open spec fn is_compact(s: Seq<char>) -> bool { colon(s) > 0 && s.take(colon(s)) != "_"@ && !kw_like(s.take(colon(s))) && !slashes(s.skip(colon(s) + 1)) }
proof fn colon_len(s: Seq<char>) ensures colon(s) < s.len() || s.len() == 0, s.len() == 0 ==> colon(s) < 0 decreases s.len() { if s.len() > 0 { colon_len(s.skip(1)); } }
//@ extract fn split_compact_iri from crates/context-processing/src/algorithm/iri.rs
//@ ret r
//@ subst pub(super) fn => fn
//@ subst value.split_once(':') => vx_split_colon(value)
//@ subst suffix.starts_with("//") => vx_starts_with_slashes(suffix)
//@ subst prefix.is_empty() => vx_is_empty(prefix)
//@ start
    proof { colon_len(value@); }
//@ spec
    ensures r is Some == is_compact(value@), r is Some ==> (r->0).0@ == value@.take(colon(value@)) && (r->0).1@ == value@.skip(colon(value@) + 1),
//@ end
#[verifier::external_body]
fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn is_compact_iri(s: Seq<char>) -> bool { colon(s) >= 0 && s.take(colon(s)) != "_"@ && !slashes(s.skip(colon(s) + 1)) && is_ref(s) }
impl CompactIri {
    #[verifier::external_body]
    pub unsafe fn new_unchecked(s: &str) -> (r: &Self) ensures compact_text(*r) == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, c: char) -> (r: Option<usize>)
        ensures c == ':' ==> (r is Some) == (colon(compact_text(*self)) >= 0) && (r is Some ==> r->0 == colon_bytes(compact_text(*self)) && r->0 < usize::MAX) { unimplemented!() }
//@ extract fn impl CompactIri > new from crates/syntax/src/compact_iri.rs
//@ ret r
//@ subst s.split_once(':') => vx_split_colon(s)
//@ subst suffix.starts_with("//") => vx_starts_with_slashes(suffix)
//@ spec
    ensures r is Ok == is_compact_iri(s@), r matches Ok(c) ==> compact_text(*c) == s@,
//@ end
//@ extract fn impl CompactIri > prefix from crates/syntax/src/compact_iri.rs
//@ ret r
//@ subst &self[0..i] => vx_until(self, i)
//@ spec
    requires is_compact_iri(compact_text(*self)),
    ensures r@ == compact_text(*self).take(colon(compact_text(*self))),
//@ end
//@ extract fn impl CompactIri > suffix from crates/syntax/src/compact_iri.rs
//@ ret r
//@ subst &self[i + 1..] => vx_after(self, i + 1)
//@ spec
    requires is_compact_iri(compact_text(*self)),
    ensures r@ == compact_text(*self).skip(colon(compact_text(*self)) + 1),
//@ end
}

// ---- IRI expansion (JSON-LD 1.1 API, section 5.2), as a function of texts -----------------------------
pub enum M { Null, Keyword(Keyword), Iri(Seq<char>), Blank(Seq<char>), Invalid(Seq<char>) }
pub open spec fn meaning_id<N: Vocabulary>(v: N, i: Id<N::Iri, N::BlankId>) -> M {
    match i { Id::Valid(ValidId::Iri(i)) => M::Iri(v.text(i)), Id::Valid(ValidId::Blank(b)) => M::Blank(v.label(b)), Id::Invalid(s) => M::Invalid(s@) }
}
pub open spec fn meaning<N: Vocabulary>(v: N, t: Term<N::Iri, N::BlankId>) -> M {
    match t { Term::Null => M::Null, Term::Keyword(k) => M::Keyword(k), Term::Id(i) => meaning_id(v, i) }
}
/// what a text identifies
pub open spec fn identifies(s: Seq<char>) -> M { if is_iri(s) { M::Iri(s) } else if is_blank(s) { M::Blank(s) } else { M::Invalid(s) } }
pub open spec fn resolution(base: Option<Seq<char>>, r: Seq<char>) -> Option<Seq<char>> {
    match base { Some(b) => Some(resolved(b, r)), None => if is_iri(r) { Some(r) } else { None } }
}
pub open spec fn base_text<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>) -> Option<Seq<char>> { match cbase(c) { Some(b) => Some(v.text(b)), None => None } }
pub open spec fn by_base<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, s: Seq<char>, document_relative: bool) -> M {
    if document_relative && is_ref(s) && resolution(base_text(v, c), s) is Some { M::Iri(resolution(base_text(v, c), s)->0) } else { M::Invalid(s) }
}
pub open spec fn by_vocab<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, s: Seq<char>, document_relative: bool, vocab: Option<Action>) -> Result<Option<M>, ()> {
    match (vocab, cvocab(c)) {
        (Some(Action::Keep), Some(Term::Id(m))) => Ok(Some(identifies(id_text(v, m) + s))),
        (Some(Action::Drop), Some(Term::Id(m))) => Ok(None),
        (Some(Action::Reject), Some(Term::Id(m))) => Err(()),
        (Some(_), Some(_)) => Ok(Some(M::Invalid(s))),
        _ => Ok(Some(by_base(v, c, s, document_relative))),
    }
}
pub open spec fn prefix_of<N: Vocabulary>(c: Context<N::Iri, N::BlankId>, s: Seq<char>) -> Option<Term<N::Iri, N::BlankId>> {
    if is_compact(s) { match ndef(c, s.take(colon(s))) { Some(d) => if d.prefix { d.value } else { None }, None => None } } else { None }
}
pub open spec fn expanded<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, s: Seq<char>, document_relative: bool, vocab: Option<Action>) -> Result<Option<M>, ()> {
    let d = match def(c, s) { Some(d) => dvalue(d), None => None };
    if kw_like(s) { Ok(Some(M::Null)) }
    else if (d is Some && d->0 is Keyword) { Ok(Some(M::Keyword(d->0->Keyword_0))) }
    else if vocab is Some && def(c, s) is Some { Ok(Some(match d { Some(t) => meaning(v, t), None => M::Null })) }
    else if colon(s) > 0 {
        if is_blank(s) { Ok(Some(M::Blank(s))) }
        else if s == "_:"@ { Ok(Some(M::Invalid(s))) }
        else if prefix_of::<N>(c, s) is Some { Ok(Some(identifies(term_text(v, prefix_of::<N>(c, s)->0) + s.skip(colon(s) + 1)))) }
        else if is_iri(s) { Ok(Some(M::Iri(s))) }
        else { by_vocab(v, c, s, document_relative, vocab) }
    } else { by_vocab(v, c, s, document_relative, vocab) }
}
pub open spec fn expanded_value<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, x: Nullable<ExpandableRef>, document_relative: bool, vocab: Option<Action>) -> Result<Option<M>, ()> {
    match x {
        Nullable::Null => Ok(Some(M::Null)),
        Nullable::Some(ExpandableRef::Keyword(k)) => Ok(Some(M::Keyword(k))),
        Nullable::Some(ExpandableRef::String(s)) => expanded(v, c, s@, document_relative, vocab),
    }
}
pub open spec fn meant<N: Vocabulary>(v: N, r: Result<Option<Term<N::Iri, N::BlankId>>, RejectVocab>) -> Result<Option<M>, ()> {
    match r { Ok(Some(t)) => Ok(Some(meaning(v, t))), Ok(None) => Ok(None), Err(_) => Err(()) }
}

impl<I, B> Id<I, B> {
//@ extract fn impl Id > iri from crates/core/src/id.rs
//@ ret r
//@ spec
    ensures r == Id::<I, B>::Valid(ValidId::Iri(iri)),
//@ end
//@ extract fn impl Id > blank from crates/core/src/id.rs
//@ ret r
//@ spec
    ensures r == Id::<I, B>::Valid(ValidId::Blank(b)),
//@ end
//@ extract fn impl Id > from_string_in from crates/core/src/id.rs
//@ ret r
//@ subst vocabulary: &mut impl VocabularyMut<Iri = I, BlankId = B> => vocabulary: &mut VxV
//@ subst from_string_in( => from_string_in<VxV: VocabularyMut<Iri = I, BlankId = B>>(
//@ spec
    ensures meaning_id(*final(vocabulary), r) == identifies(s@),
//@ end
}
impl<I, B> Term<I, B> {
//@ extract fn impl Term > is_keyword from crates/core/src/term.rs
//@ ret r
//@ spec
    ensures r == (*self is Keyword),
//@ end
}
impl<T, B> From<T> for Term<T, B> {
//@ extract fn impl From<T> for Term > from from crates/core/src/term.rs
//@ ret r
//@ end
}
impl<T, B> vstd::std_specs::convert::FromSpecImpl<T> for Term<T, B> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(i: T) -> Self { Term::Id(Id::Valid(ValidId::Iri(i))) }
}
//@ extract fn resolve_iri from crates/context-processing/src/algorithm/mod.rs
//@ ret r
//@ subst vocabulary: &mut impl IriVocabularyMut<Iri = I> => vocabulary: &mut VxV
//@ subst resolve_iri<I>( => resolve_iri<I, VxV: VocabularyMut<Iri = I>>(
//@ desugar option.map
//@ spec
    ensures
        r is Some == resolution(match base_iri { Some(b) => Some(old(vocabulary).text(*b)), None => None }, ref_text(*iri_ref)) is Some,
        r is Some ==> final(vocabulary).text(r->0) == resolution(match base_iri { Some(b) => Some(old(vocabulary).text(*b)), None => None }, ref_text(*iri_ref))->0,
        r is None ==> *final(vocabulary) == *old(vocabulary),
//@ end
//@ extract fn invalid_iri_simple from crates/context-processing/src/algorithm/iri.rs
//@ ret r
//@ spec
    ensures r == Term::<N::Iri, N::BlankId>::Id(Id::Invalid(value)),
//@ end
//@ extract fn expand_iri_simple from crates/context-processing/src/algorithm/iri.rs
//@ ret r
//@ subst IriExpansionResult<N> => Result<Option<Term<N::Iri, N::BlankId>>, RejectVocab>
//@ subst super::resolve_iri => resolve_iri
//@ subst value.find(':').map(|i| i > 0).unwrap_or(false) => match vx_find_colon(value) { Some(i) => i > 0, None => false }
//@ spec
    ensures meant(*final(env).vocabulary, r) == expanded_value(*old(env).vocabulary, *active_context, value, document_relative, vocab),
//@ end
/// without vocabulary relative expansion there always is a result (cited by expansion.rs)
proof fn always_something<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, s: Seq<char>, document_relative: bool)
    ensures expanded(v, c, s, document_relative, None) matches Ok(Some(_))
{}
}
fn main() {}
