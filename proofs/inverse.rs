#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use std::hash::Hash;
use std::cmp::Ordering;
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Container from crates/core/src/container.rs
//@ end
//@ extract enum TypeContainer from crates/syntax/src/context/definition/type_.rs
//@ end
#[verifier::external_body] pub struct LenientLangTagBuf { x: u8 }
#[verifier::external_body] pub struct LenientLangTag { x: u8 }
#[verifier::external_body] pub struct SynContext { x: u8 }
#[verifier::external_body] pub struct Index { x: u8 }
#[verifier::external_body] pub struct Nest { x: u8 }
#[verifier::external_body] pub struct Key { x: u8 }
impl Key {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Term<T, B> { x: core::marker::PhantomData<(T, B)> }
impl<T: Clone, B: Clone> Term<T, B> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ extract enum Type from crates/core/src/ty.rs
//@ subst Type<I = IriBuf> => Type<I>
//@ end
impl<I: Clone> Type<I> {
    /// derived
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// a language tag, its case left out: what its equality and hash look at
pub uninterp spec fn tag(t: LenientLangTag) -> Seq<char>;
pub uninterp spec fn tag_buf(t: LenientLangTagBuf) -> Seq<char>;
impl LenientLangTagBuf {
    #[verifier::external_body]
    pub fn as_lenient_lang_tag_ref(&self) -> (r: &LenientLangTag) ensures tag(*r) == tag_buf(*self) { unimplemented!() }
}
pub type LD = Nullable<(Option<Seq<char>>, Option<Direction>)>;
pub open spec fn otag(l: Option<&LenientLangTag>) -> Option<Seq<char>> { match l { Some(l) => Some(tag(*l)), None => None } }
pub open spec fn ld(n: Nullable<(Option<&LenientLangTag>, Option<Direction>)>) -> LD {
    match n { Nullable::Null => Nullable::Null, Nullable::Some((l, d)) => Nullable::Some((otag(l), d)) }
}
/// stands for `lang_dir.map(|(l, d)| (l.map(|l| l.to_owned()), d))`
#[verifier::external_body]
fn vx_owned(n: Nullable<(Option<&LenientLangTag>, Option<Direction>)>) -> (r: LangDir) ensures r.norm() == ld(n) { unimplemented!() }
/// std::collections::HashMap, seen as a map from what the equality and hash of the keys look at
pub trait Norm { type N; spec fn norm(self) -> Self::N; }
impl<T> Norm for Type<T> { type N = Type<T>; open spec fn norm(self) -> Type<T> { self } }
impl<T, B> Norm for Term<T, B> { type N = Term<T, B>; open spec fn norm(self) -> Term<T, B> { self } }
impl Norm for Container { type N = Container; open spec fn norm(self) -> Container { self } }
impl Norm for LangDir { type N = LD; open spec fn norm(self) -> LD {
    match self { Nullable::Null => Nullable::Null, Nullable::Some((l, d)) => Nullable::Some((match l { Some(l) => Some(tag_buf(l)), None => None }, d)) } } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K: Norm, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::N, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K::N, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(k.norm()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some == self.m().contains_key(k.norm()), r is Some ==> *r->0 == self.m()[k.norm()] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).m().contains_key(k.norm()) && *v == old(self).m()[k.norm()] && final(self).m() == old(self).m().insert(k.norm(), *final(v)),
            None => !old(self).m().contains_key(k.norm()) && *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k.norm(), v) { unimplemented!() }
    /// `entry(k).or_insert_with(f)`
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures r.key == k.norm(), *r.map == *old(self), *final(r.map) == *final(self) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K: Norm, V> { pub map: &'a mut HashMap<K, V>, pub key: K::N }
impl<'a, K: Norm, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(()),
        ensures
            old(self.map).m().contains_key(self.key) ==> *r == old(self.map).m()[self.key],
            !old(self.map).m().contains_key(self.key) ==> f.ensures((), *r),
            final(self.map).m() == old(self.map).m().insert(self.key, *final(r)),
    { unimplemented!() }
}
//@ extract struct TypeTermDefinition from crates/core/src/context/definition.rs
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct NormalTermDefinition from crates/core/src/context/definition.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ subst json_ld_syntax::context::Context => SynContext
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum BindingRef from crates/core/src/context/definition.rs
//@ end
//@ extract enum BindingTerm from crates/core/src/context/definition.rs
//@ end
impl<'a, T, B> BindingRef<'a, T, B> {
//@ extract fn impl BindingRef > term from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == (match *self { BindingRef::Normal(k, _) => BindingTerm::Normal(k), BindingRef::Type(_) => BindingTerm::Type }),
//@ end
}
pub uninterp spec fn key_text(k: Key) -> Seq<char>;
pub open spec fn term_text(t: BindingTerm) -> Seq<char> { match t { BindingTerm::Normal(k) => key_text(*k), BindingTerm::Type => "@type"@ } }
impl Key {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == key_text(*self) { unimplemented!() }
}
impl<'a> BindingTerm<'a> {
//@ extract fn impl BindingTerm > as_str from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r@ == term_text(*self),
//@ end
}
/// active contexts (accessors proved in defs.rs)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Context<T, B> { x: core::marker::PhantomData<(T, B)> }
pub uninterp spec fn clang<T, B>(c: Context<T, B>) -> Option<Seq<char>>;
pub uninterp spec fn cdir<T, B>(c: Context<T, B>) -> Option<Direction>;
pub uninterp spec fn normal<T, B>(c: Context<T, B>) -> Map<Key, NormalTermDefinition<T, B>>;
impl<T, B> Context<T, B> {
    #[verifier::external_body]
    pub fn default_language(&self) -> (r: Option<&LenientLangTag>) ensures otag(r) == clang(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn default_base_direction(&self) -> (r: Option<Direction>) ensures r == cdir(*self) { unimplemented!() }
}
/// the bindings are those of the context, each term once
pub open spec fn lists<T, B>(bs: Seq<BindingRef<'_, T, B>>, c: Context<T, B>) -> bool {
    &&& forall|i: int| 0 <= i < bs.len() && bs[i] is Normal ==> normal(c).contains_key(*(#[trigger] bs[i])->Normal_0) && normal(c)[*bs[i]->Normal_0] == *bs[i]->Normal_1
    &&& forall|k: Key| normal(c).contains_key(k) ==> #[trigger] listed(bs, k)
}
pub open spec fn listed<T, B>(bs: Seq<BindingRef<'_, T, B>>, k: Key) -> bool { exists|i: int| 0 <= i < bs.len() && #[trigger] bs[i] is Normal && *bs[i]->Normal_0 == k }
/// stands for `context.definitions().iter().collect()` (the iterator is proved in defs.rs)
#[verifier::external_body]
fn vx_definitions<T, B>(c: &Context<T, B>) -> (r: Vec<BindingRef<'_, T, B>>) ensures lists(r@, *c) { unimplemented!() }
/// the byte length, and the order, of texts
pub uninterp spec fn bytes(s: Seq<char>) -> usize;
pub uninterp spec fn order(a: Seq<char>, b: Seq<char>) -> Ordering;
#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures r == bytes(s@) { s.len() }
#[verifier::external_body]
fn vx_cmp_len(a: usize, b: usize) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { a.cmp(&b) }
#[verifier::external_body]
fn vx_cmp(a: &str, b: &str) -> (r: Ordering) ensures r == order(a@, b@) { a.cmp(b) }
/// shorter terms first, then the lexicographically least
pub open spec fn by_length(a: Seq<char>, b: Seq<char>) -> Ordering {
    if bytes(a) < bytes(b) { Ordering::Less } else if bytes(a) > bytes(b) { Ordering::Greater } else { order(a, b) }
}
pub open spec fn sorted<T, B>(bs: Seq<BindingRef<'_, T, B>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < bs.len() ==> by_length(btext(#[trigger] bs[i]), btext(#[trigger] bs[j])) != Ordering::Greater
}
pub open spec fn btext<T, B>(b: BindingRef<'_, T, B>) -> Seq<char> { match b { BindingRef::Normal(k, _) => key_text(*k), BindingRef::Type(_) => "@type"@ } }
/// slice::sort_by, for a comparison that decides `by_length`
#[verifier::external_body]
fn vx_sort_by<'a, T, B, F: Fn(&BindingRef<'a, T, B>, &BindingRef<'a, T, B>) -> Ordering>(v: &mut Vec<BindingRef<'a, T, B>>, f: F)
    requires
        forall|a: &BindingRef<'a, T, B>, b: &BindingRef<'a, T, B>| #[trigger] f.requires((a, b)),
        forall|a: &BindingRef<'a, T, B>, b: &BindingRef<'a, T, B>, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == by_length(btext(*a), btext(*b)),
    ensures
        sorted(final(v)@), forall|c: Context<T, B>| lists(old(v)@, c) ==> #[trigger] lists(final(v)@, c),
{ unimplemented!() }

// ---- the inverse context (JSON-LD 1.1 API, section 4.3) ----------------------------------------------
#[verifier::reject_recursive_types(T)]
//@ extract enum TypeSelection from crates/core/src/context/inverse.rs
//@ subst <T = IriBuf> => <T>
//@ end
#[verifier::reject_recursive_types(T)]
//@ extract struct InverseType from crates/core/src/context/inverse.rs
//@ end
//@ extract type LangDir from crates/core/src/context/inverse.rs
//@ end
//@ extract struct InverseLang from crates/core/src/context/inverse.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum LangSelection from crates/core/src/context/inverse.rs
//@ end
#[verifier::reject_recursive_types(T)]
//@ extract struct InverseContainer from crates/core/src/context/inverse.rs
//@ end
//@ extract struct Any from crates/core/src/context/inverse.rs
//@ end
#[verifier::reject_recursive_types(T)]
//@ extract struct InverseDefinition from crates/core/src/context/inverse.rs
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct InverseContext from crates/core/src/context/inverse.rs
//@ end
#[verifier::reject_recursive_types(T)]
//@ extract enum Selection from crates/core/src/context/inverse.rs
//@ end
impl<T> TypeSelection<T> {
    /// derived
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// what a term may be wanted for: a reverse property, a type mapping, a language mapping, or anything at all
pub enum Sel<T> { Reverse, AnyType, Type(Type<T>), AnyLang, Lang(LD), Property }
pub open spec fn tsel<T>(s: TypeSelection<T>) -> Sel<T> { match s { TypeSelection::Reverse => Sel::Reverse, TypeSelection::Any => Sel::AnyType, TypeSelection::Type(t) => Sel::Type(t) } }
pub open spec fn lsel<T>(s: LangSelection) -> Sel<T> { match s { LangSelection::Any => Sel::AnyLang, LangSelection::Lang(l) => Sel::Lang(ld(l)) } }
pub open spec fn wanted<T>(s: Selection<T>) -> Seq<Sel<T>> {
    match s { Selection::Any => seq![Sel::Property], Selection::Type(v) => v@.map_values(|t| tsel(t)), Selection::Lang(v) => v@.map_values(|t| lsel(t)) }
}
/// language and direction of a definition without type mapping
pub open spec fn mapping(l: Option<Nullable<LenientLangTagBuf>>, d: Option<Nullable<Direction>>) -> LD {
    let lang = match l { Some(Nullable::Some(l)) => Some(tag_buf(l)), _ => None };
    let dir = match d { Some(Nullable::Some(d)) => Some(d), _ => None };
    if l is Some && lang is None && dir is None { Nullable::Null } else { Nullable::Some((lang, dir)) }
}
pub open spec fn stands_for<T, B>(c: Context<T, B>, d: NormalTermDefinition<T, B>, s: Sel<T>) -> bool {
    if d.reverse_property { s is Reverse } else {
        match s {
            Sel::Reverse => false,
            Sel::Property => true,
            Sel::AnyType | Sel::AnyLang => d.typ == Some(Type::<T>::None),
            Sel::Type(t) => match d.typ { Some(u) => u == t && !(u is None), None => t is None && d.language is None && d.direction is None },
            Sel::Lang(l) => d.typ is None && (
                if d.language is None && d.direction is None { l == Nullable::Some((clang(c), cdir(c))) || l == Nullable::Some((None::<Seq<char>>, None::<Direction>)) }
                else { l == mapping(d.language, d.direction) }),
        }
    }
}
pub open spec fn hit<T, B>(c: Context<T, B>, b: BindingRef<'_, T, B>, var: Term<T, B>, container: Container, s: Sel<T>) -> bool {
    b is Normal && b->Normal_1.value == Some(var) && b->Normal_1.container == container && stands_for(c, *b->Normal_1, s)
}
pub open spec fn first<T, B>(c: Context<T, B>, bs: Seq<BindingRef<'_, T, B>>, var: Term<T, B>, container: Container, s: Sel<T>) -> Option<Key> decreases bs.len() {
    if bs.len() == 0 { None } else {
        match first(c, bs.drop_last(), var, container, s) { Some(k) => Some(k), None => if hit(c, bs.last(), var, container, s) { Some(*bs.last()->Normal_0) } else { None } }
    }
}
/// the definition of a term that fits
pub open spec fn fits<T, B>(c: Context<T, B>, k: Key, var: Term<T, B>, container: Container, s: Sel<T>) -> bool {
    normal(c).contains_key(k) && normal(c)[k].value == Some(var) && normal(c)[k].container == container && stands_for(c, normal(c)[k], s)
}
/// the shortest, and then least, term that fits
pub open spec fn best<T, B>(c: Context<T, B>, r: Option<Key>, var: Term<T, B>, container: Container, s: Sel<T>) -> bool {
    match r {
        Some(k) => fits(c, k, var, container, s) && forall|o: Key| #[trigger] fits(c, o, var, container, s) ==> o == k || by_length(key_text(k), key_text(o)) != Ordering::Greater,
        None => forall|o: Key| !#[trigger] fits(c, o, var, container, s),
    }
}
proof fn first_is_best<T, B>(c: Context<T, B>, bs: Seq<BindingRef<'_, T, B>>, var: Term<T, B>, container: Container, s: Sel<T>)
    requires lists(bs, c), sorted(bs),
    ensures best(c, first(c, bs, var, container, s), var, container, s),
{
    first_index(c, bs, var, container, s);
    let r = first(c, bs, var, container, s);
    assert forall|o: Key| #[trigger] fits(c, o, var, container, s) implies r is Some && (o == r->0 || by_length(key_text(r->0), key_text(o)) != Ordering::Greater) by {
        assert(listed(bs, o));
        let j = choose|i: int| 0 <= i < bs.len() && #[trigger] bs[i] is Normal && *bs[i]->Normal_0 == o;
        assert(hit(c, bs[j], var, container, s));
    }
}
proof fn first_index<T, B>(c: Context<T, B>, bs: Seq<BindingRef<'_, T, B>>, var: Term<T, B>, container: Container, s: Sel<T>)
    ensures match first(c, bs, var, container, s) {
        Some(k) => exists|i: int| 0 <= i < bs.len() && #[trigger] hit(c, bs[i], var, container, s) && *bs[i]->Normal_0 == k && forall|j: int| 0 <= j < i ==> !#[trigger] hit(c, bs[j], var, container, s),
        None => forall|i: int| 0 <= i < bs.len() ==> !#[trigger] hit(c, bs[i], var, container, s),
    }
    decreases bs.len()
{
    if bs.len() > 0 {
        first_index(c, bs.drop_last(), var, container, s);
        let p = bs.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] bs[i] == p[i] by {}
        match first(c, p, var, container, s) {
            Some(k) => {
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] hit(c, p[i], var, container, s) && *p[i]->Normal_0 == k && forall|j: int| 0 <= j < i ==> !#[trigger] hit(c, p[j], var, container, s);
                assert(hit(c, bs[i], var, container, s));
                assert forall|j: int| 0 <= j < i implies !#[trigger] hit(c, bs[j], var, container, s) by { assert(!hit(c, p[j], var, container, s)); }
            }
            None => {
                assert forall|i: int| 0 <= i < p.len() implies !#[trigger] hit(c, bs[i], var, container, s) by { assert(!hit(c, p[i], var, container, s)); }
                if hit(c, bs.last(), var, container, s) { assert(hit(c, bs[bs.len() - 1], var, container, s)); }
            }
        }
    }
}
pub open spec fn at<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn slot<T>(i: InverseContainer<T>, s: Sel<T>) -> Option<Key> {
    match s {
        Sel::Reverse => i.typ.reverse, Sel::AnyType => i.typ.any, Sel::Type(t) => at(i.typ.map.m(), t),
        Sel::AnyLang => i.language.any, Sel::Lang(l) => at(i.language.map.m(), l), Sel::Property => i.any.none,
    }
}
pub open spec fn slot_in<T>(d: InverseDefinition<T>, container: Container, s: Sel<T>) -> Option<Key> {
    if d.map.m().contains_key(container) { slot(d.map.m()[container], s) } else { None }
}
pub open spec fn looked<T, B>(i: InverseContext<T, B>, var: Term<T, B>, container: Container, s: Sel<T>) -> Option<Key> {
    if i.map.m().contains_key(var) { slot_in(i.map.m()[var], container, s) } else { None }
}
/// term selection (section 6.3): the first container, and for it the first preferred value, under which there is a term
pub open spec fn preferred<T>(d: InverseDefinition<T>, container: Container, ps: Seq<Sel<T>>) -> Option<Key> decreases ps.len() {
    if ps.len() == 0 { None } else { match slot_in(d, container, ps[0]) { Some(k) => Some(k), None => preferred(d, container, ps.skip(1)) } }
}
pub open spec fn selected<T>(d: InverseDefinition<T>, cs: Seq<Container>, ps: Seq<Sel<T>>) -> Option<Key> decreases cs.len() {
    if cs.len() == 0 { None } else { match preferred(d, cs[0], ps) { Some(k) => Some(k), None => selected(d, cs.skip(1), ps) } }
}
proof fn nothing_there<T>(d: InverseDefinition<T>, container: Container, ps: Seq<Sel<T>>)
    ensures !d.map.m().contains_key(container) ==> preferred(d, container, ps) is None
    decreases ps.len()
{ if ps.len() > 0 { nothing_there(d, container, ps.skip(1)); } }
pub open spec fn und_o<T>(n: Option<&T>) -> Option<T> { match n { None => None, Some(t) => Some(*t) } }
impl<T> InverseType<T> {
//@ extract fn impl InverseType > select from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures und_o(r) == (match selection { TypeSelection::Reverse => self.reverse, TypeSelection::Any => self.any, TypeSelection::Type(t) => at(self.map.m(), t) }),
//@ end
//@ extract fn impl InverseType > set_any from crates/core/src/context/inverse.rs
//@ spec
    ensures *final(self) == (InverseType { any: if old(self).any is Some { old(self).any } else { Some(*term) }, ..*old(self) }),
//@ end
//@ extract fn impl InverseType > set_none from crates/core/src/context/inverse.rs
//@ spec
    ensures final(self).reverse == old(self).reverse, final(self).any == old(self).any,
        final(self).map.m() == (if old(self).map.m().contains_key(Type::<T>::None) { old(self).map.m() } else { old(self).map.m().insert(Type::<T>::None, *term) }),
//@ end
//@ extract fn impl InverseType > set from crates/core/src/context/inverse.rs
//@ spec
    ensures final(self).reverse == old(self).reverse, final(self).any == old(self).any,
        final(self).map.m() == (if old(self).map.m().contains_key(*ty) { old(self).map.m() } else { old(self).map.m().insert(*ty, *term) }),
//@ end
}
impl InverseLang {
//@ extract fn impl InverseLang > select from crates/core/src/context/inverse.rs
//@ ret r
//@ subst ~ lang_dir.map(|(l, d)| (l.map(|l| l.to_owned()), d)) => vx_owned(lang_dir)
//@ spec
    ensures und_o(r) == (match selection { LangSelection::Any => self.any, LangSelection::Lang(l) => at(self.map.m(), ld(l)) }),
//@ end
//@ extract fn impl InverseLang > set_any from crates/core/src/context/inverse.rs
//@ spec
    ensures *final(self) == (InverseLang { any: if old(self).any is Some { old(self).any } else { Some(*term) }, ..*old(self) }),
//@ end
//@ extract fn impl InverseLang > set_none from crates/core/src/context/inverse.rs
//@ spec
    ensures final(self).any == old(self).any,
        final(self).map.m() == (if old(self).map.m().contains_key(NONE()) { old(self).map.m() } else { old(self).map.m().insert(NONE(), *term) }),
//@ end
//@ extract fn impl InverseLang > set from crates/core/src/context/inverse.rs
//@ subst ~ lang_dir.map(|(l, d)| (l.map(|l| l.to_owned()), d)) => vx_owned(lang_dir)
//@ closure 2 (k: Key)
    ensures k == *term
//@ spec
    ensures final(self).any == old(self).any,
        final(self).map.m() =~= (if old(self).map.m().contains_key(ld(lang_dir)) { old(self).map.m() } else { old(self).map.m().insert(ld(lang_dir), *term) }),
//@ end
}
pub open spec fn NONE() -> LD { Nullable::Some((None, None)) }
impl Any {
//@ extract fn impl Any > set_none from crates/core/src/context/inverse.rs
//@ spec
    ensures *final(self) == (Any { none: if old(self).none is Some { old(self).none } else { Some(*term) } }),
//@ end
}
impl<T> InverseContainer<T> {
//@ extract fn impl InverseContainer > new from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures forall|s: Sel<T>| slot(r, s) is None,
//@ end
}
impl<T> InverseDefinition<T> {
//@ extract fn impl InverseDefinition > new from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures r.map.m() == Map::<Container, InverseContainer<T>>::empty(),
//@ end
//@ extract fn impl InverseDefinition > get from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures und_o(r) == at(self.map.m(), *container),
//@ end
//@ extract fn impl InverseDefinition > contains from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures r == self.map.m().contains_key(*container),
//@ end
//@ extract fn impl InverseDefinition > reference_mut from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    requires insert.requires(()),
    ensures
        old(self).map.m().contains_key(*container) ==> *r == old(self).map.m()[*container],
        !old(self).map.m().contains_key(*container) ==> insert.ensures((), *r),
        final(self).map.m() =~= old(self).map.m().insert(*container, *final(r)),
//@ end
//@ extract fn impl InverseDefinition > select from crates/core/src/context/inverse.rs
//@ ret r
//@ loop 0 iter it
//@ loop 0
    invariant it.seq().len() == containers@.len(), forall|i: int| 0 <= i < containers@.len() ==> *#[trigger] it.seq()[i] == containers@[i],
        selected(*self, containers@, wanted(*selection)) == selected(*self, containers@.skip(it.index@), wanted(*selection)),
//@ loop 0 body-start
    proof { assert(containers@.skip(it.index@)[0] == *container); assert(containers@.skip(it.index@).skip(1) =~= containers@.skip(it.index@ + 1)); }
    let ghost ws = wanted(*selection);
    let ghost rest = containers@.skip(it.index@);
    proof { assert(ws.skip(0) =~= ws); assert(forall|q: Seq<Sel<T>>| q.len() == 0 ==> #[trigger] preferred(*self, *container, q) is None); nothing_there(*self, *container, ws); }
//@ loop 0 body-end
    proof { if *selection is Any { assert(ws.skip(1).len() == 0); assert(preferred(*self, *container, ws.skip(1)) is None); } assert(preferred(*self, *container, ws) is None); }
//@ loop 1 iter jt
//@ loop 1
    invariant jt.seq().len() == preferred_values@.len(), forall|i: int| 0 <= i < preferred_values@.len() ==> *#[trigger] jt.seq()[i] == preferred_values@[i],
        selected(*self, containers@, ws) == selected(*self, rest, ws), rest.len() > 0, rest[0] == *container, ws == wanted(*selection), *selection == Selection::Type(*preferred_values), at(self.map.m(), *container) == Some(*type_lang_map),
        preferred(*self, *container, ws) == preferred(*self, *container, ws.skip(jt.index@)),
//@ loop 1 body-start
    proof { assert(ws.skip(jt.index@)[0] == tsel(*item)); assert(ws.skip(jt.index@).skip(1) =~= ws.skip(jt.index@ + 1)); }
//@ loop 2 iter kt
//@ loop 2
    invariant kt.seq().len() == preferred_values@.len(), forall|i: int| 0 <= i < preferred_values@.len() ==> *#[trigger] kt.seq()[i] == preferred_values@[i],
        selected(*self, containers@, ws) == selected(*self, rest, ws), rest.len() > 0, rest[0] == *container, ws == wanted(*selection), *selection == Selection::<T>::Lang(*preferred_values), at(self.map.m(), *container) == Some(*type_lang_map),
        preferred(*self, *container, ws) == preferred(*self, *container, ws.skip(kt.index@)),
//@ loop 2 body-start
    proof { assert(ws.skip(kt.index@)[0] == lsel::<T>(*item)); assert(ws.skip(kt.index@).skip(1) =~= ws.skip(kt.index@ + 1)); }
//@ start
    proof { assert(containers@.skip(0) =~= containers@); }
//@ spec
    ensures und_o(r) == selected(*self, containers@, wanted(*selection)),
//@ end
}
impl<T: Hash + Eq, B: Hash + Eq> InverseContext<T, B> {
//@ extract fn impl InverseContext > new from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures r.map.m() == Map::<Term<T, B>, InverseDefinition<T>>::empty(),
//@ end
//@ extract fn impl InverseContext > contains from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures r == self.map.m().contains_key(*term),
//@ end
//@ extract fn impl InverseContext > insert from crates/core/src/context/inverse.rs
//@ spec
    ensures final(self).map.m() == old(self).map.m().insert(term, value),
//@ end
//@ extract fn impl InverseContext > get from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures und_o(r) == at(self.map.m(), *term),
//@ end
//@ extract fn impl InverseContext > reference_mut from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    requires insert.requires(()),
    ensures
        old(self).map.m().contains_key(*term) ==> *r == old(self).map.m()[*term],
        !old(self).map.m().contains_key(*term) ==> insert.ensures((), *r),
        final(self).map.m() =~= old(self).map.m().insert(*term, *final(r)),
//@ end
//@ extract fn impl InverseContext > select from crates/core/src/context/inverse.rs
//@ ret r
//@ spec
    ensures und_o(r) == (match at(self.map.m(), *var) { Some(d) => selected(d, containers@, wanted(*selection)), None => None }),
//@ end
}
impl<'a, T: Clone + Hash + Eq, B: Clone + Hash + Eq> InverseContext<T, B> {
//@ extract fn impl From<&'a Context<T, B>> for InverseContext > from from crates/core/src/context/inverse.rs
//@ ret result
//@ rename invert
//@ subst context.definitions().iter().collect() => vx_definitions(context)
//@ subst definitions.sort_by( => vx_sort_by(&mut definitions, 
//@ subst a.len().cmp(&b.len()) => vx_cmp_len(vx_len(a), vx_len(b))
//@ subst a.cmp(b) => vx_cmp(a, b)
//@ subst if ord == Ordering::Equal => if matches!(ord, Ordering::Equal)
//@ closure 0 (o: Ordering)
    ensures o == by_length(btext(*a), btext(*b))
//@ before "for binding in definitions"
    let ghost bs = definitions@;
    assert(bs.take(0) =~= Seq::empty());
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == bs, forall|var: Term<T, B>, container: Container, s: Sel<T>| #[trigger] looked(result, var, container, s) == first(*context, bs.take(it.index@), var, container, s),
        it.index@ == bs.len() ==> bs.take(it.index@) =~= bs,
//@ loop 0 body-start
    let ghost before = result;
    let ghost i0 = it.index@;
    proof { assert(bs.take(i0 + 1).drop_last() =~= bs.take(i0)); assert(bs.take(i0 + 1).last() == bs[i0]); }
//@ before "let container_map ="
    assert(*var == bs[i0]->Normal_1.value->0);
//@ before "let type_lang_map"
    assert(!before.map.m().contains_key(*var) ==> container_map.map.m() == Map::<Container, InverseContainer<T>>::empty());
//@ before "let type_map"
    assert(!before.map.m().contains_key(*var) ==> forall|s: Sel<T>| slot(*type_lang_map, s) is None);
    assert(forall|s: Sel<T>| slot(*type_lang_map, s) == #[trigger] looked(before, *var, *container, s));
//@ loop 0 body-end
    proof {
        if bs[i0] is Normal && bs[i0]->Normal_1.value is Some {
            let d = *bs[i0]->Normal_1;
            let v = d.value->0;
            assert(result.map.m().contains_key(v)); assert(result.map.m()[v].map.m().contains_key(d.container));
            let ic = result.map.m()[v].map.m()[d.container];
            assert(d.reverse_property ==> ic.typ.any == looked(before, v, d.container, Sel::AnyType));
            assert(d.reverse_property ==> ic.any.none == looked(before, v, d.container, Sel::Property));
            assert(d.reverse_property ==> ic.typ.reverse is Some);
            assert(!d.reverse_property ==> ic.typ.reverse == looked(before, v, d.container, Sel::Reverse));
            assert(!d.reverse_property ==> ic.any.none is Some);
            let post = |s: Sel<T>| looked(result, v, d.container, s) == (match looked(before, v, d.container, s) { Some(k) => Some(k), None => if stands_for(*context, d, s) { Some(*bs[i0]->Normal_0) } else { None } });
            assert(post(Sel::Reverse)); assert(post(Sel::Property)); assert(post(Sel::AnyType)); assert(post(Sel::AnyLang));
            assert forall|t: Type<T>| #[trigger] post(Sel::Type(t)) by {}
            assert forall|t: LD| #[trigger] post(Sel::Lang(t)) by {}
            assert forall|s: Sel<T>| #[trigger] looked(result, v, d.container, s) == (match looked(before, v, d.container, s) { Some(k) => Some(k), None => if stands_for(*context, d, s) { Some(*bs[i0]->Normal_0) } else { None } }) by {}
            assert forall|var: Term<T, B>, container: Container, s: Sel<T>| !(var == v && container == d.container) implies #[trigger] looked(result, var, container, s) == looked(before, var, container, s) by {}
        }
    }
//@ spec
    ensures forall|var: Term<T, B>, container: Container, s: Sel<T>| best(*context, #[trigger] looked(result, var, container, s), var, container, s),
//@ tail InverseContext<T, B>
    proof { assert forall|var: Term<T, B>, container: Container, s: Sel<T>| best(*context, #[trigger] looked(vx_r, var, container, s), var, container, s) by { first_is_best(*context, bs, var, container, s); } }
//@ end
}
}
fn main() {}
