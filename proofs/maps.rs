#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::hash::Hash;
pub mod indexmap { pub mod map { pub use super::super::MapIter as Iter; } }
// What is put into a node, its property maps and its multisets is what they hold.
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
/// an insertion ordered hash map; two keys are the same when `==` says so, taken to be equality
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { x: core::marker::PhantomData<(K, V)> }
pub struct MapIter<'a, K, V> { pub map: &'a IndexMap<K, V>, pub at: Ghost<int> }
/// the key that what is asked for stands for (`indexmap::Equivalent`)
pub uninterp spec fn key_for<Q: ?Sized, K>(q: &Q) -> K;
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty(), r.keys() == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.keys().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() == Map::<K, V>::empty()), r == (self.keys().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).m() == Map::<K, V>::empty(), final(self).keys() == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some == self.m().contains_key(key_for(k)), r is Some ==> *r->0 == self.m()[key_for(k)] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.m().contains_key(key_for(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).m().contains_key(*k) && *v == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(v)),
            None => !old(self).m().contains_key(*k) && *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k, v), r == (if old(self).m().contains_key(k) { Some(old(self).m()[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().remove(key_for(k)), r == (if old(self).m().contains_key(key_for(k)) { Some(old(self).m()[key_for(k)]) } else { None }) { unimplemented!() }
    /// the same, keeping the order of what remains
    #[verifier::external_body]
    pub fn shift_remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().remove(key_for(k)), r == (if old(self).m().contains_key(key_for(k)) { Some(old(self).m()[key_for(k)]) } else { None }) { unimplemented!() }
    pub fn iter(&self) -> (r: MapIter<'_, K, V>) ensures r.map == self, r.at@ == 0 { MapIter { map: self, at: Ghost(0) } }
}
impl<'a, K, V> MapIter<'a, K, V> {
    pub open spec fn ok(&self) -> bool { 0 <= self.at@ <= self.map.keys().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        requires old(self).ok(),
        ensures final(self).map == old(self).map, final(self).ok(),
            r is Some == (old(self).at@ < old(self).map.keys().len()),
            r matches Some(p) ==> *p.0 == old(self).map.keys()[old(self).at@] && *p.1 == old(self).map.m()[*p.0] && old(self).map.m().contains_key(*p.0) && final(self).at@ == old(self).at@ + 1,
            r is None ==> final(self).at@ == old(self).at@ { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) requires self.ok(), ensures r.0 == self.map.keys().len() - self.at@, r.1 == Some(r.0) { unimplemented!() }
}
/// an iteration over a slice
#[verifier::external_body] #[verifier::accept_recursive_types(X)]
pub struct Items<'a, X> { x: core::marker::PhantomData<&'a X> }
impl<'a, X> Items<'a, X> {
    /// what is still to come
    pub uninterp spec fn left(&self) -> Seq<X>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a X>)
        ensures match r { Some(x) => old(self).left().len() > 0 && *x == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_items<X>(v: &Vec<X>) -> (r: Items<'_, X>) ensures r.left() == v@ { unimplemented!() }
/// a set of objects; what it does is proved where it matters
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { x: core::marker::PhantomData<T> }
impl<T> IndexSet<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.items() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.items() == Seq::<T>::empty() { unimplemented!() }
}
pub enum ValidId<I, B> { Iri(I), Blank(B) }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
impl<I: PartialEq, B: PartialEq> PartialEqSpecImpl for Id<I, B> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl<I: PartialEq, B: PartialEq> PartialEq for Id<I, B> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl<I, B> Id<I, B> {
    #[verifier::external_body]
    pub fn as_iri(&self) -> (r: Option<&I>) ensures match *self { Id::Valid(ValidId::Iri(i)) => r == Some(&i), _ => r is None } { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
//@ extract enum Term from crates/core/src/term.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct Value<T> { x: core::marker::PhantomData<T> }
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && PartialEqSpec::eq_spec(#[trigger] &s@[i], x);
pub assume_specification<T, F: FnOnce() -> T> [Option::<T>::get_or_insert_with] (o: &mut Option<T>, f: F) -> (r: &mut T)
    ensures *old(o) is Some ==> *r == old(o)->0, *old(o) is None ==> f.ensures((), *r), *final(o) == Some(*final(r));
pub open spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn oref(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

// ---- objects in expanded form ---------------------------------------------------------------------
//@ extract struct DeterministicHasherBuilder from crates/core/src/object/node/multiset.rs
//@ end
impl Default for DeterministicHasherBuilder { fn default() -> Self { DeterministicHasherBuilder } }
//@ extract struct Multiset from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
pub type IndexedObject<T, B> = Indexed<Object<T, B>>;
pub type IndexedNode<T, B> = Indexed<Node<T, B>>;
pub type Graph<T, B> = IndexSet<IndexedObject<T, B>>;
pub type Included<T, B> = IndexSet<IndexedNode<T, B>>;
pub type PropertyObjects<T, B> = Multiset<IndexedObject<T, B>>;
pub type ReversePropertyNodes<T, B> = Multiset<IndexedNode<T, B>>;
//@ extract struct Properties from crates/core/src/object/node/properties.rs
//@ end
//@ extract struct ReverseProperties from crates/core/src/object/node/reverse_properties.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct List from crates/core/src/object/list.rs
//@ end
//@ extract enum Object from crates/core/src/object/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct Objects from crates/core/src/object/mod.rs
//@ subst std::slice::Iter => Items
//@ end
//@ extract struct Nodes from crates/core/src/object/node/mod.rs
//@ subst std::slice::Iter => Items
//@ end

// ---- indexed ----------------------------------------------------------------------------------------
impl<T> Indexed<T> {
//@ extract fn impl Indexed > none from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.value == value, r.index is None,
//@ end
//@ extract fn impl Indexed > new from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.value == value, r.index == index,
//@ end
//@ extract fn impl Indexed > inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures *r == self.value,
//@ end
//@ extract fn impl Indexed > inner_mut from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures *r == old(self).value, *final(self) == (Indexed { value: *final(r), ..*old(self) }),
//@ end
//@ extract fn impl Indexed > into_inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r == self.value,
//@ end
//@ extract fn impl Indexed > index from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures oref(r) == text(self.index),
//@ end
//@ extract fn impl Indexed > set_index from crates/core/src/indexed.rs
//@ spec
    ensures final(self).value == old(self).value, final(self).index == index,
//@ end
//@ extract fn impl Indexed > into_parts from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.0 == self.value, r.1 == self.index,
//@ end
//@ extract fn impl Indexed > map_inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    requires f.requires((self.value,)),
    ensures f.ensures((self.value,), r.value), r.index == self.index,
//@ end
//@ extract fn impl Indexed > cast from crates/core/src/indexed.rs
//@ subst <U: From<T>> => <U: From<T> + vstd::std_specs::convert::FromSpec<T>>
//@ ret r
//@ spec
    ensures U::obeys_from_spec() ==> r.value == U::from_spec(self.value), r.index == self.index,
//@ end
}
// ---- multisets --------------------------------------------------------------------------------------
impl<T, S: Default> Multiset<T, S> {
//@ extract fn impl Default for Multiset > default from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == Seq::<T>::empty(),
//@ end
}
impl<T, S> Multiset<T, S> {
//@ extract fn impl Multiset<T, S> > new from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == Seq::<T>::empty(),
//@ end
//@ extract fn impl Multiset<T, S> > with_capacity from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == Seq::<T>::empty(),
//@ end
//@ extract fn impl Multiset<T, S> > len from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r == self.data@.len(),
//@ end
//@ extract fn impl Multiset<T, S> > is_empty from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r == (self.data@.len() == 0),
//@ end
//@ extract fn impl Multiset<T, S> > contains from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < self.data@.len() && PartialEqSpec::eq_spec(#[trigger] &self.data@[i], value),
//@ end
//@ extract fn impl Multiset<T, S> > iter from crates/core/src/object/node/multiset.rs
//@ subst core::slice::Iter => Items
//@ subst self.data.iter() => vx_items(&self.data)
//@ ret r
//@ spec
    ensures r.left() == self.data@,
//@ end
//@ extract fn impl Multiset<T, S> > as_slice from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r@ == self.data@,
//@ end
//@ extract fn impl Multiset<T, S> > singleton from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == seq![value],
//@ end
//@ extract fn impl Multiset<T, S> > insert from crates/core/src/object/node/multiset.rs
//@ spec
    ensures final(self).data@ == old(self).data@.push(value),
//@ end
//@ extract fn impl Multiset<T, S> > insert_unique from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures T::obeys_eq_spec() ==> r == !exists|i: int| 0 <= i < old(self).data@.len() && PartialEqSpec::eq_spec(#[trigger] &old(self).data@[i], &value),
        final(self).data@ == (if r { old(self).data@.push(value) } else { old(self).data@ }),
//@ end
}
impl<T, S: Default> Multiset<T, S> {
//@ extract fn impl FromIterator<T> for Multiset > from_iter from crates/core/src/object/node/multiset.rs
//@ subst <I: IntoIterator<Item = T>> => <'vx>
//@ subst iter: I => iter: Vec<T>
//@ ret r
//@ spec
    ensures r.data@ == iter@,
//@ start
    let ghost vs = iter@;
    proof { assert(Seq::<T>::empty() + vs.take(0) =~= Seq::<T>::empty()); assert(Seq::<T>::empty() + vs =~= vs); }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == vs, result.data@ == Seq::<T>::empty() + vs.take(it.index@), it.index@ == vs.len() ==> result.data@ == Seq::<T>::empty() + vs,
//@ loop 0 body-start
    proof { assert(it.index@ < vs.len()); assert(vs.take(it.index@ + 1) =~= vs.take(it.index@).push(vs[it.index@])); assert(Seq::<T>::empty() + vs.take(it.index@ + 1) =~= (Seq::<T>::empty() + vs.take(it.index@)).push(vs[it.index@])); if it.index@ + 1 == vs.len() { assert(vs.take(it.index@ + 1) =~= vs); } }
//@ end
}
impl<T, S> Multiset<T, S> {
//@ extract fn impl Extend<T> for Multiset > extend from crates/core/src/object/node/multiset.rs
//@ subst <I: IntoIterator<Item = T>> => <'vx>
//@ subst iter: I => iter: Vec<T>
//@ spec
    ensures final(self).data@ == old(self).data@ + iter@,
//@ start
    let ghost vs = iter@;
    let ghost d0 = self.data@;
    proof { assert(d0 + vs.take(0) =~= d0); if vs.len() == 0 { assert(d0 + vs =~= d0); } }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == vs, self.data@ == d0 + vs.take(it.index@), it.index@ == vs.len() ==> self.data@ == d0 + vs,
//@ loop 0 body-start
    proof { assert(it.index@ < vs.len()); assert(vs.take(it.index@ + 1) =~= vs.take(it.index@).push(vs[it.index@])); assert(d0 + vs.take(it.index@ + 1) =~= (d0 + vs.take(it.index@)).push(vs[it.index@])); if it.index@ + 1 == vs.len() { assert(vs.take(it.index@ + 1) =~= vs); } }
//@ end
}
// ---- property maps ----------------------------------------------------------------------------------
/// what a map gives for each of its keys
pub open spec fn pm<K, X>(m: IndexMap<K, Multiset<X>>) -> Map<K, Seq<X>> { m.m().map_values(|v: Multiset<X>| v.data@) }
/// what a key has
pub open spec fn at<K, X>(m: Map<K, Seq<X>>, k: K) -> Seq<X> { if m.contains_key(k) { m[k] } else { Seq::empty() } }
pub proof fn pm_insert<K, X>(a: IndexMap<K, Multiset<X>>, b: IndexMap<K, Multiset<X>>, k: K)
    requires b.m().contains_key(k), b.m() == a.m().insert(k, b.m()[k]),
    ensures pm(b) == pm(a).insert(k, b.m()[k].data@),
{ assert(pm(b) =~= pm(a).insert(k, b.m()[k].data@)); }
/// a key stands for itself
pub broadcast axiom fn key_is_key<K>(k: &K) ensures #[trigger] key_for::<K, K>(k) == *k;
pub broadcast proof fn pm_empty<K, X>(a: IndexMap<K, Multiset<X>>)
    ensures #[trigger] pm(a) == Map::<K, Seq<X>>::empty() <==> a.m() == Map::<K, Multiset<X>>::empty(),
{
    if a.m() == Map::<K, Multiset<X>>::empty() { assert(pm(a) =~= Map::<K, Seq<X>>::empty()); }
    if pm(a) == Map::<K, Seq<X>>::empty() { assert(a.m().dom() =~= pm(a).dom()); assert(a.m() =~= Map::<K, Multiset<X>>::empty()); }
}
/// what `==` decides on objects in expanded form (proved an equivalence in unordered.rs)
pub uninterp spec fn same<T>(a: T, b: T) -> bool;
impl<T> PartialEqSpecImpl for Value<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { same(*self, *other) }
}
impl<T> PartialEq for Value<T> {
    /// proved in values.rs and unordered.rs; here only its answer matters
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl<T, B> PartialEqSpecImpl for Node<T, B> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { same(*self, *other) }
}
impl<T, B> PartialEq for Node<T, B> {
    /// proved in unordered.rs
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
fn vx_same_index(a: Option<&str>, b: Option<&str>) -> (r: bool) ensures r == (oref(a) == oref(b)) { match (a, b) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false } }
/// nodes without identifier are never equivalent
pub open spec fn enode<T, B>(a: Node<T, B>, b: Node<T, B>) -> bool { a.id is Some && b.id is Some && same(a, b) }
pub open spec fn eobject<T, B>(a: Object<T, B>, b: Object<T, B>) -> bool {
    match (a, b) {
        (Object::Value(a), Object::Value(b)) => same(a, b),
        (Object::Node(a), Object::Node(b)) => enode(*a, *b),
        _ => false,
    }
}
impl<T, B> Node<T, B> {
//@ extract fn impl Node<T, B> > equivalent from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == enode(*self, *other),
//@ end
}
impl<T, B> Object<T, B> {
//@ extract fn impl Object<T, B> > equivalent from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == eobject(*self, *other),
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> Indexed<Object<T, B>> {
//@ extract fn impl Indexed<Object<T, B>> > equivalent from crates/core/src/object/mod.rs
//@ subst self.index() == other.index() => vx_same_index(self.index(), other.index())
//@ ret r
//@ spec
    ensures r == (text(self.index) == text(other.index) && eobject(self.value, other.value)),
//@ end
}
/// the equivalence that makes one of two objects redundant
pub trait Equivalent_: Sized { spec fn equiv_(a: Self, b: Self) -> bool; fn equivalent_(&self, other: &Self) -> (r: bool) ensures r == Self::equiv_(*self, *other); }
pub open spec fn equiv<X: Equivalent_>(a: X, b: X) -> bool { X::equiv_(a, b) }
impl<T: Eq + Hash, B: Eq + Hash> Equivalent_ for Indexed<Object<T, B>> {
    open spec fn equiv_(a: Self, b: Self) -> bool { text(a.index) == text(b.index) && eobject(a.value, b.value) }
    fn equivalent_(&self, other: &Self) -> (r: bool) { self.equivalent(other) }
}
impl<T: Eq + Hash, B: Eq + Hash> Equivalent_ for Indexed<Node<T, B>> {
    open spec fn equiv_(a: Self, b: Self) -> bool { enode(a.value, b.value) }
    /// through `Deref`
    fn equivalent_(&self, other: &Self) -> (r: bool) { self.inner().equivalent(other.inner()) }
}
impl<X: Equivalent_> Multiset<X, DeterministicHasherBuilder> {
    /// `self.iter().all(|v| !v.equivalent(&value))`
    fn vx_all_new(&self, value: &X) -> (r: bool)
        ensures r == forall|i: int| 0 <= i < self.data@.len() ==> !equiv(#[trigger] self.data@[i], *value),
    {
        let mut k: usize = 0;
        while k < self.data.len()
            invariant k <= self.data@.len(), forall|i: int| 0 <= i < k ==> !equiv(#[trigger] self.data@[i], *value),
            decreases self.data@.len() - k,
        {
            if self.data[k].equivalent_(value) { return false; }
            k += 1;
        }
        true
    }
}
#[verifier::external_body]
fn vx_size_hint<T>(i: &std::vec::IntoIter<T>) -> (r: (usize, Option<usize>)) { unimplemented!() }
pub open spec fn merged<X: Equivalent_>(s: Seq<X>, o: X) -> Seq<X> { if exists|i: int| 0 <= i < s.len() && equiv(#[trigger] s[i], o) { s } else { s.push(o) } }
pub open spec fn merged_all<X: Equivalent_>(s: Seq<X>, o: Seq<X>) -> Seq<X>
    decreases o.len(),
{ if o.len() == 0 { s } else { merged(merged_all(s, o.drop_last()), o.last()) } }
proof fn merged_next<X: Equivalent_>(s: Seq<X>, o: Seq<X>, k: int)
    requires 0 <= k < o.len(),
    ensures merged_all(s, o.take(k + 1)) == merged(merged_all(s, o.take(k)), o[k]), k + 1 == o.len() ==> o.take(k + 1) == o,
{
    assert(o.take(k + 1).drop_last() =~= o.take(k));
    assert(o.take(k + 1).last() == o[k]);
    if k + 1 == o.len() { assert(o.take(k + 1) =~= o); }
}
/// several insertions
pub open spec fn put_all<K, X>(m: Map<K, Seq<X>>, e: Seq<(K, Vec<X>)>) -> Map<K, Seq<X>>
    decreases e.len(),
{ if e.len() == 0 { m } else { let b = put_all(m, e.drop_last()); b.insert(e.last().0, at(b, e.last().0) + e.last().1@) } }
pub open spec fn merge_all<K, X: Equivalent_>(m: Map<K, Seq<X>>, e: Seq<(K, Vec<X>)>) -> Map<K, Seq<X>>
    decreases e.len(),
{ if e.len() == 0 { m } else { let b = merge_all(m, e.drop_last()); b.insert(e.last().0, merged_all(at(b, e.last().0), e.last().1@)) } }
proof fn all_next<K, X: Equivalent_>(m: Map<K, Seq<X>>, e: Seq<(K, Vec<X>)>, k: int)
    requires 0 <= k < e.len(),
    ensures
        put_all(m, e.take(k + 1)) == put_all(m, e.take(k)).insert(e[k].0, at(put_all(m, e.take(k)), e[k].0) + e[k].1@),
        merge_all(m, e.take(k + 1)) == merge_all(m, e.take(k)).insert(e[k].0, merged_all(at(merge_all(m, e.take(k)), e[k].0), e[k].1@)),
        k + 1 == e.len() ==> e.take(k + 1) == e,
{
    assert(e.take(k + 1).drop_last() =~= e.take(k));
    assert(e.take(k + 1).last() == e[k]);
    if k + 1 == e.len() { assert(e.take(k + 1) =~= e); }
}
//@ extract struct Iter from crates/core/src/object/node/properties.rs
//@ subst struct Iter => struct PropIter
//@ end
impl<'a, T, B> Objects<'a, T, B> {
    pub open spec fn left(&self) -> Seq<IndexedObject<T, B>> { match self.0 { Some(i) => i.left(), None => Seq::empty() } }
//@ extract fn impl Objects > new from crates/core/src/object/mod.rs
//@ subst std::slice::Iter => Items
//@ ret r
//@ spec
    ensures r.left() == (match inner { Some(i) => i.left(), None => Seq::<IndexedObject<T, B>>::empty() }),
//@ end
//@ extract fn impl Iterator for Objects > next from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match r { Some(x) => old(self).left().len() > 0 && *x == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() },
//@ end
}
impl<'a, T, B> PropIter<'a, T, B> {
//@ extract fn impl Iterator for Iter > size_hint from crates/core/src/object/node/properties.rs
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures r.0 == self.inner.map.keys().len() - self.inner.at@, r.1 == Some(r.0),
//@ end
//@ extract fn impl Iterator for Iter > next from crates/core/src/object/node/properties.rs
//@ subst Option<Self::Item> => Option<(&'a Id<T, B>, &'a [IndexedObject<T, B>])>
//@ desugar option.map
//@ ret r
//@ spec
    requires old(self).inner.ok(),
    ensures final(self).inner.map == old(self).inner.map, final(self).inner.ok(),
        r is Some == (old(self).inner.at@ < old(self).inner.map.keys().len()),
        r matches Some(p) ==> *p.0 == old(self).inner.map.keys()[old(self).inner.at@] && old(self).inner.map.m().contains_key(*p.0) && p.1@ == old(self).inner.map.m()[*p.0].data@ && final(self).inner.at@ == old(self).inner.at@ + 1,
        r is None ==> final(self).inner.at@ == old(self).inner.at@,
//@ end
}
impl<T, B> Properties<T, B> {
//@ extract fn impl Default for Properties > default from crates/core/src/object/node/properties.rs
//@ ret r
//@ spec
    ensures pm(r.0) == Map::<Id<T, B>, Seq<IndexedObject<T, B>>>::empty(),
//@ end
//@ extract fn impl Properties<T, B> > new from crates/core/src/object/node/properties.rs
//@ ret r
//@ spec
    ensures pm(r.0) == Map::<Id<T, B>, Seq<IndexedObject<T, B>>>::empty(),
//@ start
    proof { broadcast use pm_empty; }
//@ end
//@ extract fn impl Properties<T, B> > len from crates/core/src/object/node/properties.rs
//@ ret r
//@ spec
    ensures r == self.0.keys().len(),
//@ end
//@ extract fn impl Properties<T, B> > is_empty from crates/core/src/object/node/properties.rs
//@ ret r
//@ spec
    ensures r == (pm(self.0) == Map::<Id<T, B>, Seq<IndexedObject<T, B>>>::empty()),
//@ start
    proof { broadcast use pm_empty; }
//@ end
//@ extract fn impl Properties<T, B> > clear from crates/core/src/object/node/properties.rs
//@ spec
    ensures pm(final(self).0) == Map::<Id<T, B>, Seq<IndexedObject<T, B>>>::empty(),
//@ start
    proof { broadcast use pm_empty; }
//@ end
//@ extract fn impl Properties<T, B> > iter from crates/core/src/object/node/properties.rs
//@ subst Iter => PropIter
//@ ret r
//@ spec
    ensures *r.inner.map == self.0, r.inner.at@ == 0,
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> Properties<T, B> {
//@ extract fn impl Properties<T, B> > contains from crates/core/src/object/node/properties.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r == pm(self.0).contains_key(key_for(prop)),
//@ end
//@ extract fn impl Properties<T, B> > get from crates/core/src/object/node/properties.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r.left() == at(pm(self.0), key_for(prop)),
//@ end
//@ extract fn impl Properties<T, B> > get_any from crates/core/src/object/node/properties.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r is Some == (at(pm(self.0), key_for(prop)).len() > 0), r is Some ==> at(pm(self.0), key_for(prop)).contains(*r->0),
//@ end
//@ extract fn impl Properties<T, B> > insert from crates/core/src/object/node/properties.rs
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, at(pm(old(self).0), prop).push(value)),
//@ start
    let ghost (o, k, xs) = (self.0, prop, value);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); assert(Seq::empty().push(xs) =~= seq![xs]); }
//@ end
//@ extract fn impl Properties<T, B> > insert_unique from crates/core/src/object/node/properties.rs
//@ subst node_values.iter().all(|v| !v.equivalent(&value)) => node_values.vx_all_new(&value)
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, merged(at(pm(old(self).0), prop), value)),
//@ start
    let ghost (o, k, xs) = (self.0, prop, value);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); assert(Seq::empty().push(xs) =~= seq![xs]); }
//@ end
//@ extract fn impl Properties<T, B> > insert_all from crates/core/src/object/node/properties.rs
//@ subst <Objects: IntoIterator<Item = IndexedObject<T, B>>> => <'vx>
//@ subst values: Objects => values: Vec<IndexedObject<T, B>>
//@ subst values.into_iter().collect() => Multiset::from_iter(values)
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, at(pm(old(self).0), prop) + values@),
//@ start
    let ghost (o, k, xs) = (self.0, prop, values@);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); assert(Seq::empty() + xs =~= xs); }
//@ end
//@ extract fn impl Properties<T, B> > insert_all_unique from crates/core/src/object/node/properties.rs
//@ subst <Objects: IntoIterator<Item = IndexedObject<T, B>>> => <'vx>
//@ subst values: Objects => values: Vec<IndexedObject<T, B>>
//@ subst values.size_hint() => vx_size_hint(&values)
//@ subst node_values.iter().all(|v| !v.equivalent(&value)) => node_values.vx_all_new(&value)
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, merged_all(at(pm(old(self).0), prop), values@)),
//@ start
    let ghost vs = values@;
    let ghost o0 = at(pm(self.0), prop);
    let ghost (o, k) = (self.0, prop);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == vs, node_values.data@ == merged_all(o0, vs.take(it.index@)), it.index@ == vs.len() ==> node_values.data@ == merged_all(o0, vs),
//@ loop 0 body-start
    proof { assert(it.index@ < vs.len()); assert(0 <= it.index@); merged_next(o0, vs, it.index@); }
//@ loop 1 iter it
//@ loop 1
    invariant it.seq() == vs, node_values.data@ == merged_all(o0, vs.take(it.index@)), it.index@ == vs.len() ==> node_values.data@ == merged_all(o0, vs),
//@ loop 1 body-start
    proof { assert(it.index@ < vs.len()); assert(0 <= it.index@); merged_next(o0, vs, it.index@); }
//@ end
//@ extract fn impl Properties<T, B> > set from crates/core/src/object/node/properties.rs
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, values.data@),
//@ start
    let ghost (o, k) = (self.0, prop);
//@ after "self.0.insert"
    proof { pm_insert(o, self.0, k); }
//@ end
//@ extract fn impl Properties<T, B> > extend_unique from crates/core/src/object/node/properties.rs
//@ subst <I, O> => <'vx>
//@ subst iter: I => iter: Vec<(Id<T, B>, Vec<IndexedObject<T, B>>)>
//@ subst ~ where I: IntoIterator<Item = (Id<T, B>, O)>, O: IntoIterator<Item = IndexedObject<T, B>>, => where T: Sized,
//@ spec
    ensures pm(final(self).0) == merge_all(pm(old(self).0), iter@),
//@ start
    let ghost es = iter@;
    let ghost m0 = pm(self.0);
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == es, pm(self.0) == merge_all(m0, es.take(it.index@)), it.index@ == es.len() ==> pm(self.0) == merge_all(m0, es),
//@ loop 0 body-start
    proof { assert(it.index@ < es.len()); assert(0 <= it.index@); all_next(m0, es, it.index@); }
//@ end
//@ extract fn impl Properties<T, B> > remove from crates/core/src/object/node/properties.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).remove(key_for(prop)), r is Some == pm(old(self).0).contains_key(key_for(prop)), r is Some ==> r->0.data@ == pm(old(self).0)[key_for(prop)],
//@ start
    proof { assert(forall|k: Id<T, B>| #[trigger] pm(self.0).remove(k) =~= self.0.m().remove(k).map_values(|v: Multiset<IndexedObject<T, B>>| v.data@)); }
//@ end
//@ extract fn impl FromIterator<(Id<T, B>, O)> for Properties > from_iter from crates/core/src/object/node/properties.rs
//@ subst <I: IntoIterator<Item = (Id<T, B>, O)>> => <'vx>
//@ subst iter: I => iter: Vec<(Id<T, B>, Vec<IndexedObject<T, B>>)>
//@ ret r
//@ spec
    ensures pm(r.0) == put_all(Map::<Id<T, B>, Seq<IndexedObject<T, B>>>::empty(), iter@),
//@ start
    let ghost es = iter@;
    let ghost m0 = Map::<Id<T, B>, Seq<IndexedObject<T, B>>>::empty();
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == es, pm(result.0) == put_all(m0, es.take(it.index@)), it.index@ == es.len() ==> pm(result.0) == put_all(m0, es),
//@ loop 0 body-start
    proof { assert(it.index@ < es.len()); assert(0 <= it.index@); all_next(m0, es, it.index@); }
//@ end
//@ extract fn impl Extend<(Id<T, B>, Vec<IndexedObject<T, B>>)> for Properties > extend from crates/core/src/object/node/properties.rs
//@ subst <I> => <'vx>
//@ subst iter: I => iter: Vec<(Id<T, B>, Vec<IndexedObject<T, B>>)>
//@ subst ~ where I: IntoIterator<Item = (Id<T, B>, Vec<IndexedObject<T, B>>)>, => where T: Sized,
//@ spec
    ensures pm(final(self).0) == put_all(pm(old(self).0), iter@),
//@ start
    let ghost es = iter@;
    let ghost m0 = pm(self.0);
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == es, pm(self.0) == put_all(m0, es.take(it.index@)), it.index@ == es.len() ==> pm(self.0) == put_all(m0, es),
//@ loop 0 body-start
    proof { assert(it.index@ < es.len()); assert(0 <= it.index@); all_next(m0, es, it.index@); }
//@ end
}
//@ extract struct Iter from crates/core/src/object/node/reverse_properties.rs
//@ subst struct Iter => struct RevIter
//@ subst <'a, T = IriBuf, B = BlankIdBuf> => <'a, T, B>
//@ end
impl<'a, T, B> Nodes<'a, T, B> {
    pub open spec fn left(&self) -> Seq<IndexedNode<T, B>> { match self.0 { Some(i) => i.left(), None => Seq::empty() } }
//@ extract fn impl Nodes > new from crates/core/src/object/node/mod.rs
//@ subst std::slice::Iter => Items
//@ ret r
//@ spec
    ensures r.left() == (match inner { Some(i) => i.left(), None => Seq::<IndexedNode<T, B>>::empty() }),
//@ end
//@ extract fn impl Iterator for Nodes > next from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r { Some(x) => old(self).left().len() > 0 && *x == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() },
//@ end
}
impl<'a, T, B> RevIter<'a, T, B> {
//@ extract fn impl Iterator for Iter > size_hint from crates/core/src/object/node/reverse_properties.rs
//@ ret r
//@ spec
    requires self.inner.ok(),
    ensures r.0 == self.inner.map.keys().len() - self.inner.at@, r.1 == Some(r.0),
//@ end
//@ extract fn impl Iterator for Iter > next from crates/core/src/object/node/reverse_properties.rs
//@ subst Option<Self::Item> => Option<(&'a Id<T, B>, &'a [IndexedNode<T, B>])>
//@ desugar option.map
//@ ret r
//@ spec
    requires old(self).inner.ok(),
    ensures final(self).inner.map == old(self).inner.map, final(self).inner.ok(),
        r is Some == (old(self).inner.at@ < old(self).inner.map.keys().len()),
        r matches Some(p) ==> *p.0 == old(self).inner.map.keys()[old(self).inner.at@] && old(self).inner.map.m().contains_key(*p.0) && p.1@ == old(self).inner.map.m()[*p.0].data@ && final(self).inner.at@ == old(self).inner.at@ + 1,
        r is None ==> final(self).inner.at@ == old(self).inner.at@,
//@ end
}
impl<T, B> ReverseProperties<T, B> {
//@ extract fn impl Default for ReverseProperties > default from crates/core/src/object/node/reverse_properties.rs
//@ ret r
//@ spec
    ensures pm(r.0) == Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty(),
//@ end
//@ extract fn impl ReverseProperties<T, B> > new from crates/core/src/object/node/reverse_properties.rs
//@ ret r
//@ spec
    ensures pm(r.0) == Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty(),
//@ start
    proof { broadcast use pm_empty; }
//@ end
//@ extract fn impl ReverseProperties<T, B> > len from crates/core/src/object/node/reverse_properties.rs
//@ ret r
//@ spec
    ensures r == self.0.keys().len(),
//@ end
//@ extract fn impl ReverseProperties<T, B> > is_empty from crates/core/src/object/node/reverse_properties.rs
//@ ret r
//@ spec
    ensures r == (pm(self.0) == Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty()),
//@ start
    proof { broadcast use pm_empty; }
//@ end
//@ extract fn impl ReverseProperties<T, B> > clear from crates/core/src/object/node/reverse_properties.rs
//@ spec
    ensures pm(final(self).0) == Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty(),
//@ start
    proof { broadcast use pm_empty; }
//@ end
//@ extract fn impl ReverseProperties<T, B> > iter from crates/core/src/object/node/reverse_properties.rs
//@ subst Iter => RevIter
//@ ret r
//@ spec
    ensures *r.inner.map == self.0, r.inner.at@ == 0,
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> ReverseProperties<T, B> {
//@ extract fn impl ReverseProperties<T, B> > contains from crates/core/src/object/node/reverse_properties.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r == pm(self.0).contains_key(key_for(prop)),
//@ end
//@ extract fn impl ReverseProperties<T, B> > get from crates/core/src/object/node/reverse_properties.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r.left() == at(pm(self.0), key_for(prop)),
//@ end
//@ extract fn impl ReverseProperties<T, B> > get_any from crates/core/src/object/node/reverse_properties.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r is Some == (at(pm(self.0), key_for(prop)).len() > 0), r is Some ==> at(pm(self.0), key_for(prop)).contains(*r->0),
//@ end
//@ extract fn impl ReverseProperties<T, B> > insert from crates/core/src/object/node/reverse_properties.rs
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, at(pm(old(self).0), prop).push(value)),
//@ start
    let ghost (o, k, xs) = (self.0, prop, value);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); assert(Seq::empty().push(xs) =~= seq![xs]); }
//@ end
//@ extract fn impl ReverseProperties<T, B> > insert_unique from crates/core/src/object/node/reverse_properties.rs
//@ subst node_values.iter().all(|v| !v.equivalent(&value)) => node_values.vx_all_new(&value)
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, merged(at(pm(old(self).0), prop), value)),
//@ start
    let ghost (o, k, xs) = (self.0, prop, value);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); assert(Seq::empty().push(xs) =~= seq![xs]); }
//@ end
//@ extract fn impl ReverseProperties<T, B> > insert_all from crates/core/src/object/node/reverse_properties.rs
//@ subst <Objects: IntoIterator<Item = IndexedNode<T, B>>> => <'vx>
//@ subst values: Objects => values: Vec<IndexedNode<T, B>>
//@ subst values.into_iter().collect() => Multiset::from_iter(values)
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, at(pm(old(self).0), prop) + values@),
//@ start
    let ghost (o, k, xs) = (self.0, prop, values@);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); assert(Seq::empty() + xs =~= xs); }
//@ end
//@ extract fn impl ReverseProperties<T, B> > insert_all_unique from crates/core/src/object/node/reverse_properties.rs
//@ subst <Nodes: IntoIterator<Item = IndexedNode<T, B>>> => <'vx>
//@ subst values: Nodes => values: Vec<IndexedNode<T, B>>
//@ subst values.size_hint() => vx_size_hint(&values)
//@ subst node_values.iter().all(|v| !v.equivalent(&value)) => node_values.vx_all_new(&value)
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, merged_all(at(pm(old(self).0), prop), values@)),
//@ start
    let ghost vs = values@;
    let ghost o0 = at(pm(self.0), prop);
    let ghost (o, k) = (self.0, prop);
//@ after "if let Some(node_values)"
    proof { pm_insert(o, self.0, k); }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == vs, node_values.data@ == merged_all(o0, vs.take(it.index@)), it.index@ == vs.len() ==> node_values.data@ == merged_all(o0, vs),
//@ loop 0 body-start
    proof { assert(it.index@ < vs.len()); assert(0 <= it.index@); merged_next(o0, vs, it.index@); }
//@ loop 1 iter it
//@ loop 1
    invariant it.seq() == vs, node_values.data@ == merged_all(o0, vs.take(it.index@)), it.index@ == vs.len() ==> node_values.data@ == merged_all(o0, vs),
//@ loop 1 body-start
    proof { assert(it.index@ < vs.len()); assert(0 <= it.index@); merged_next(o0, vs, it.index@); }
//@ end
//@ extract fn impl ReverseProperties<T, B> > set from crates/core/src/object/node/reverse_properties.rs
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).insert(prop, values.data@),
//@ start
    let ghost (o, k) = (self.0, prop);
//@ after "self.0.insert"
    proof { pm_insert(o, self.0, k); }
//@ end
//@ extract fn impl ReverseProperties<T, B> > extend_unique from crates/core/src/object/node/reverse_properties.rs
//@ subst <N> => <'vx>
//@ subst iter: impl IntoIterator<Item = (Id<T, B>, N)> => iter: Vec<(Id<T, B>, Vec<IndexedNode<T, B>>)>
//@ subst ~ where N: IntoIterator<Item = IndexedNode<T, B>>, => where T: Sized,
//@ spec
    ensures pm(final(self).0) == merge_all(pm(old(self).0), iter@),
//@ start
    let ghost es = iter@;
    let ghost m0 = pm(self.0);
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == es, pm(self.0) == merge_all(m0, es.take(it.index@)), it.index@ == es.len() ==> pm(self.0) == merge_all(m0, es),
//@ loop 0 body-start
    proof { assert(it.index@ < es.len()); assert(0 <= it.index@); all_next(m0, es, it.index@); }
//@ end
//@ extract fn impl ReverseProperties<T, B> > remove from crates/core/src/object/node/reverse_properties.rs
//@ ret r
//@ spec
    ensures pm(final(self).0) == pm(old(self).0).remove(*prop), r is Some == pm(old(self).0).contains_key(*prop), r is Some ==> r->0.data@ == pm(old(self).0)[*prop],
//@ start
    proof { broadcast use key_is_key; }
    proof { assert(forall|k: Id<T, B>| #[trigger] pm(self.0).remove(k) =~= self.0.m().remove(k).map_values(|v: Multiset<IndexedNode<T, B>>| v.data@)); }
//@ end
//@ extract fn impl FromIterator<(Id<T, B>, N)> for ReverseProperties > from_iter from crates/core/src/object/node/reverse_properties.rs
//@ subst <I: IntoIterator<Item = (Id<T, B>, N)>> => <'vx>
//@ subst iter: I => iter: Vec<(Id<T, B>, Vec<IndexedNode<T, B>>)>
//@ ret r
//@ spec
    ensures pm(r.0) == put_all(Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty(), iter@),
//@ start
    let ghost es = iter@;
    let ghost m0 = Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty();
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == es, pm(result.0) == put_all(m0, es.take(it.index@)), it.index@ == es.len() ==> pm(result.0) == put_all(m0, es),
//@ loop 0 body-start
    proof { assert(it.index@ < es.len()); assert(0 <= it.index@); all_next(m0, es, it.index@); }
//@ end
//@ extract fn impl Extend<(Id<T, B>, Vec<IndexedNode<T, B>>)> for ReverseProperties > extend from crates/core/src/object/node/reverse_properties.rs
//@ subst <I> => <'vx>
//@ subst iter: I => iter: Vec<(Id<T, B>, Vec<IndexedNode<T, B>>)>
//@ subst ~ where I: IntoIterator<Item = (Id<T, B>, Vec<IndexedNode<T, B>>)>, => where T: Sized,
//@ spec
    ensures pm(final(self).0) == put_all(pm(old(self).0), iter@),
//@ start
    let ghost es = iter@;
    let ghost m0 = pm(self.0);
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == es, pm(self.0) == put_all(m0, es.take(it.index@)), it.index@ == es.len() ==> pm(self.0) == put_all(m0, es),
//@ loop 0 body-start
    proof { assert(it.index@ < es.len()); assert(0 <= it.index@); all_next(m0, es, it.index@); }
//@ end
}
// ---- nodes ------------------------------------------------------------------------------------------
pub open spec fn no_properties<T, B>(p: Properties<T, B>) -> bool { pm(p.0) == Map::<Id<T, B>, Seq<IndexedObject<T, B>>>::empty() }
/// a node without any entry but @id and @graph
pub open spec fn plain<T, B>(n: Node<T, B>) -> bool { n.types is None && n.included is None && no_properties(n.properties) && n.reverse_properties is None }
pub open spec fn types_of<T, B>(n: Node<T, B>) -> Seq<Id<T, B>> { match n.types { Some(t) => t@, None => Seq::empty() } }
pub open spec fn oref_of<X>(r: Option<&X>, o: Option<X>) -> bool { r is Some == o is Some && (r is Some ==> *r->0 == o->0) }
#[verifier::external_body]
fn vx_none<'a, X>() -> (r: &'a mut [X]) ensures r@ == Seq::<X>::empty() { unimplemented!() }
impl<T, B> Node<T, B> {
//@ extract fn impl Default for Node > default from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r.id is None, r.graph is None, plain(r),
//@ end
//@ extract fn impl Node > new from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r.id is None, r.graph is None, plain(r),
//@ end
//@ extract fn impl Node > with_id from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r.id == Some(id), r.graph is None, plain(r),
//@ end
//@ extract fn impl Node > new_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r.id == Some(id), r.graph == Some(graph), plain(r),
//@ end
//@ extract fn impl Node > as_iri from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match self.id { Some(Id::Valid(ValidId::Iri(i))) => r == Some(&i), _ => r is None },
//@ end
//@ extract fn impl Node > types from crates/core/src/object/node/mod.rs
//@ subst Some(entry) => entry, %> Some(entry) => entry.as_slice(),
//@ ret r
//@ spec
    ensures r@ == types_of(*self),
//@ end
//@ extract fn impl Node > types_mut from crates/core/src/object/node/mod.rs
//@ subst Some(entry) => entry, %> Some(entry) => entry.as_mut_slice(),
//@ subst &mut [] %> vx_none()
//@ ret r
//@ spec
    ensures r@ == types_of(*old(self)), *final(self) == (Node { types: final(self).types, ..*old(self) }),
        final(self).types is Some == old(self).types is Some, old(self).types is Some ==> final(self).types->0@ == final(r)@,
//@ end
//@ extract fn impl Node > types_mut_or_default from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r@ == types_of(*old(self)), *final(self) == (Node { types: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > types_mut_or_insert from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures *r == (match old(self).types { Some(t) => t, None => value }), *final(self) == (Node { types: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > types_mut_or_insert_with from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures old(self).types is Some ==> *r == old(self).types->0, old(self).types is None ==> f.ensures((), *r), *final(self) == (Node { types: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > has_type from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures <Id<T, B> as PartialEqSpec<U>>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < types_of(*self).len() && PartialEqSpec::eq_spec(#[trigger] &types_of(*self)[i], ty),
//@ loop 0 iter it
//@ loop 0
    invariant it.seq().len() == types_of(*self).len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == types_of(*self)[i],
        <Id<T, B> as PartialEqSpec<U>>::obeys_eq_spec() ==> forall|i: int| 0 <= i < it.index@ ==> !PartialEqSpec::eq_spec(#[trigger] &types_of(*self)[i], ty),
//@ end
//@ extract fn impl Node > is_empty from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == (self.graph is None && plain(*self)),
//@ end
//@ extract fn impl Node > is_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == (self.graph is Some && plain(*self)),
//@ end
//@ extract fn impl Node > is_simple_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == (self.id is None && self.graph is Some && plain(*self)),
//@ end
//@ extract fn impl Node > is_unnamed_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == (self.id is None && self.graph is Some && plain(*self)),
//@ end
//@ extract fn impl Node > into_unnamed_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r { Ok(g) => self.id is None && self.graph == Some(g) && plain(self), Err(n) => n == self && !(self.id is None && self.graph is Some && plain(self)) },
//@ end
//@ extract fn impl Node > graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures oref_of(r, self.graph),
//@ end
//@ extract fn impl Node > graph_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures oref_of(r, self.graph),
//@ end
//@ extract fn impl Node > included from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures oref_of(r, self.included),
//@ end
//@ extract fn impl Node > included_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures oref_of(r, self.included),
//@ end
//@ extract fn impl Node > reverse_properties from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures oref_of(r, self.reverse_properties),
//@ end
//@ extract fn impl Node > reverse_properties_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures oref_of(r, self.reverse_properties),
//@ end
//@ extract fn impl Node > graph_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).graph == Some(*g) && *final(self) == (Node { graph: Some(*final(g)), ..*old(self) }),
        None => old(self).graph is None && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl Node > graph_entry_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).graph == Some(*g) && *final(self) == (Node { graph: Some(*final(g)), ..*old(self) }),
        None => old(self).graph is None && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl Node > included_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).included == Some(*g) && *final(self) == (Node { included: Some(*final(g)), ..*old(self) }),
        None => old(self).included is None && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl Node > included_entry_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).included == Some(*g) && *final(self) == (Node { included: Some(*final(g)), ..*old(self) }),
        None => old(self).included is None && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl Node > reverse_properties_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).reverse_properties == Some(*g) && *final(self) == (Node { reverse_properties: Some(*final(g)), ..*old(self) }),
        None => old(self).reverse_properties is None && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl Node > set_graph_entry from crates/core/src/object/node/mod.rs
//@ spec
    ensures *final(self) == (Node { graph: graph, ..*old(self) }),
//@ end
//@ extract fn impl Node > set_included from crates/core/src/object/node/mod.rs
//@ spec
    ensures *final(self) == (Node { included: included, ..*old(self) }),
//@ end
//@ extract fn impl Node > set_reverse_properties from crates/core/src/object/node/mod.rs
//@ spec
    ensures *final(self) == (Node { reverse_properties: reverse_properties, ..*old(self) }),
//@ end
//@ extract fn impl Node > properties from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures *r == self.properties,
//@ end
//@ extract fn impl Node > properties_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures *r == old(self).properties, *final(self) == (Node { properties: *final(r), ..*old(self) }),
//@ end
//@ extract fn impl Node > reverse_properties_mut_or_default from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures old(self).reverse_properties is Some ==> *r == old(self).reverse_properties->0, old(self).reverse_properties is None ==> pm(r.0) == Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty(), *final(self) == (Node { reverse_properties: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > included_mut_or_default from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures old(self).included is Some ==> *r == old(self).included->0, old(self).included is None ==> r.items() == Seq::<IndexedNode<T, B>>::empty(), *final(self) == (Node { included: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > reverse_properties_or_default from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures old(self).reverse_properties is Some ==> *r == old(self).reverse_properties->0, old(self).reverse_properties is None ==> pm(r.0) == Map::<Id<T, B>, Seq<IndexedNode<T, B>>>::empty(), *final(self) == (Node { reverse_properties: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > reverse_properties_or_insert from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures old(self).reverse_properties is Some ==> *r == old(self).reverse_properties->0, old(self).reverse_properties is None ==> *r == props, *final(self) == (Node { reverse_properties: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > reverse_properties_or_insert_with from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures old(self).reverse_properties is Some ==> *r == old(self).reverse_properties->0, old(self).reverse_properties is None ==> f.ensures((), *r), *final(self) == (Node { reverse_properties: Some(*final(r)), ..*old(self) }),
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> Node<T, B> {
//@ extract fn impl Node > has_key from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == match *key {
        Term::Keyword(Keyword::Id) => self.id is Some,
        Term::Keyword(Keyword::Type) => self.types is Some,
        Term::Keyword(Keyword::Graph) => self.graph is Some,
        Term::Keyword(Keyword::Included) => self.included is Some,
        Term::Keyword(Keyword::Reverse) => self.reverse_properties is Some,
        Term::Id(p) => pm(self.properties.0).contains_key(p),
        _ => false,
    },
//@ start
    proof { broadcast use key_is_key; }
//@ end
//@ extract fn impl Node > get from crates/core/src/object/node/mod.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r.left() == at(pm(self.properties.0), key_for(prop)),
//@ end
//@ extract fn impl Node > get_any from crates/core/src/object/node/mod.rs
//@ subst Q: ?Sized + Hash + indexmap::Equivalent<Id<T, B>> => Q: ?Sized
//@ ret r
//@ spec
    ensures r is Some == (at(pm(self.properties.0), key_for(prop)).len() > 0), r is Some ==> at(pm(self.properties.0), key_for(prop)).contains(*r->0),
//@ end
//@ extract fn impl Node > insert from crates/core/src/object/node/mod.rs
//@ spec
    ensures pm(final(self).properties.0) == pm(old(self).properties.0).insert(prop, at(pm(old(self).properties.0), prop).push(value)), *final(self) == (Node { properties: final(self).properties, ..*old(self) }),
//@ end
//@ extract fn impl Node > insert_all from crates/core/src/object/node/mod.rs
//@ subst <Objects: Iterator<Item = IndexedObject<T, B>>> => <'vx>
//@ subst values: Objects => values: Vec<IndexedObject<T, B>>
//@ spec
    ensures pm(final(self).properties.0) == pm(old(self).properties.0).insert(prop, at(pm(old(self).properties.0), prop) + values@), *final(self) == (Node { properties: final(self).properties, ..*old(self) }),
//@ end
}
// ---- lists ------------------------------------------------------------------------------------------
impl<T, B> List<T, B> {
//@ extract fn impl List > new from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r.entry == objects,
//@ end
//@ extract fn impl List > len from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r == self.entry@.len(),
//@ end
//@ extract fn impl List > is_empty from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r == (self.entry@.len() == 0),
//@ end
//@ extract fn impl List > entry from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r@ == self.entry@,
//@ end
//@ extract fn impl List > entry_mut from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures *r == old(self).entry, final(self).entry == *final(r),
//@ end
//@ extract fn impl List > as_slice from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r@ == self.entry@,
//@ end
//@ extract fn impl List > as_mut_slice from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r@ == old(self).entry@, final(self).entry@ == final(r)@,
//@ end
//@ extract fn impl List > into_entry from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r == self.entry,
//@ end
//@ extract fn impl List > push from crates/core/src/object/list.rs
//@ spec
    ensures final(self).entry@ == old(self).entry@.push(object),
//@ end
//@ extract fn impl List > pop from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures match r { Some(o) => old(self).entry@.len() > 0 && o == old(self).entry@.last() && final(self).entry@ == old(self).entry@.drop_last(), None => old(self).entry@.len() == 0 && final(self).entry@ == old(self).entry@ },
//@ end
//@ extract fn impl List > iter from crates/core/src/object/list.rs
//@ subst core::slice::Iter => Items
//@ subst self.entry.iter() => vx_items(&self.entry)
//@ ret r
//@ spec
    ensures r.left() == self.entry@,
//@ end
}
// ---- objects ----------------------------------------------------------------------------------------
impl<T, B> Object<T, B> {
//@ extract fn impl Object > node from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r matches Object::Node(b) && *b == n,
//@ end
//@ extract fn impl Object > id from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match *self { Object::Node(n) => oref_of(r, n.id), _ => r is None },
//@ end
//@ extract fn impl Object > as_iri from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match *self { Object::Node(n) => (match n.id { Some(Id::Valid(ValidId::Iri(i))) => r == Some(&i), _ => r is None }), _ => r is None },
//@ end
//@ extract fn impl Object > is_value from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == self is Value,
//@ end
//@ extract fn impl Object > is_node from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == self is Node,
//@ end
//@ extract fn impl Object > is_list from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == self is List,
//@ end
//@ extract fn impl Object > is_graph from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == (match *self { Object::Node(n) => n.graph is Some && plain(*n), _ => false }),
//@ end
//@ extract fn impl Object > as_value from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match *self { Object::Value(v) => r == Some(&v), _ => r is None },
//@ end
//@ extract fn impl Object > as_node from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match *self { Object::Node(v) => r == Some(&*v), _ => r is None },
//@ end
//@ extract fn impl Object > as_list from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match *self { Object::List(v) => r == Some(&v), _ => r is None },
//@ end
//@ extract fn impl Object > as_value_mut from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match r { Some(v) => *old(self) == Object::<T, B>::Value(*v) && *final(self) == Object::<T, B>::Value(*final(v)), None => !(*old(self) is Value) && *final(self) == *old(self) },
//@ end
//@ extract fn impl Object > as_node_mut from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match r { Some(v) => *old(self) is Node && *((*old(self))->Node_0) == *v && *final(self) is Node && *((*final(self))->Node_0) == *final(v), None => !(*old(self) is Node) && *final(self) == *old(self) },
//@ end
//@ extract fn impl Object > as_list_mut from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match r { Some(v) => *old(self) == Object::<T, B>::List(*v) && *final(self) == Object::<T, B>::List(*final(v)), None => !(*old(self) is List) && *final(self) == *old(self) },
//@ end
//@ extract fn impl Object > into_value from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match self { Object::Value(v) => r == Some(v), _ => r is None },
//@ end
//@ extract fn impl Object > into_node from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match self { Object::Node(v) => r == Some(*v), _ => r is None },
//@ end
//@ extract fn impl Object > into_list from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match self { Object::List(v) => r == Some(v), _ => r is None },
//@ end
}
impl<T, B> Indexed<Object<T, B>> {
//@ extract fn impl Indexed<Object<T, B>> > into_indexed_node from crates/core/src/object/mod.rs
//@ desugar option.map
//@ ret r
//@ spec
    ensures match self.value { Object::Node(v) => r is Some && r->0.value == *v && r->0.index == self.index, _ => r is None },
//@ end
//@ extract fn impl Indexed<Object<T, B>> > into_indexed_value from crates/core/src/object/mod.rs
//@ desugar option.map
//@ ret r
//@ spec
    ensures match self.value { Object::Value(v) => r is Some && r->0.value == v && r->0.index == self.index, _ => r is None },
//@ end
//@ extract fn impl Indexed<Object<T, B>> > into_indexed_list from crates/core/src/object/mod.rs
//@ desugar option.map
//@ ret r
//@ spec
    ensures match self.value { Object::List(v) => r is Some && r->0.value == v && r->0.index == self.index, _ => r is None },
//@ end
//@ extract fn impl Indexed<Object<T, B>> > into_unnamed_graph from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Ok(g) => self.value is Node && self.value->Node_0.id is None && self.value->Node_0.graph == Some(g) && plain(*self.value->Node_0),
        Err(o) => (self.value is Node ==> !(self.value->Node_0.id is None && self.value->Node_0.graph is Some && plain(*self.value->Node_0))) && o.index == self.index
            && (self.value is Node ==> o.value is Node && *(o.value->Node_0) == *(self.value->Node_0)) && (!(self.value is Node) ==> o.value == self.value),
    },
//@ end
}
// ---- the entries of a node --------------------------------------------------------------------------
//@ extract enum EntryRef from crates/core/src/object/node/mod.rs
//@ end
//@ extract struct Entries from crates/core/src/object/node/mod.rs
//@ subst properties::Iter => PropIter
//@ end
/// how many entries are still to come
pub open spec fn one<X>(o: Option<X>) -> int { if o is Some { 1 } else { 0 } }
pub open spec fn many<'a, T, B>(e: Entries<'a, T, B>) -> int { one(e.id) + one(e.type_) + one(e.graph) + one(e.included) + one(e.reverse) + (e.properties.inner.map.keys().len() - e.properties.inner.at@) }
impl<T, B> Node<T, B> {
//@ extract fn impl Node > entries from crates/core/src/object/node/mod.rs
//@ subst self.types.as_deref() => vx_slice(&self.types)
//@ ret r
//@ spec
    ensures oref_of(r.id, self.id), r.type_ is Some == self.types is Some, r.type_ is Some ==> r.type_->0@ == self.types->0@,
        oref_of(r.graph, self.graph), oref_of(r.included, self.included), oref_of(r.reverse, self.reverse_properties), *r.properties.inner.map == self.properties.0, r.properties.inner.at@ == 0,
//@ end
}
fn vx_slice<X>(v: &Option<Vec<X>>) -> (r: Option<&[X]>) ensures r is Some == v is Some, r is Some ==> r->0@ == v->0@ { match v { Some(v) => Some(v.as_slice()), None => None } }
impl<'a, T, B> Entries<'a, T, B> {
//@ extract fn impl Iterator for Entries<'a, T, B> > next from crates/core/src/object/node/mod.rs
//@ subst Option<Self::Item> => Option<EntryRef<'a, T, B>>
//@ desugar option.or_else option.map
//@ ret r
//@ spec
    requires old(self).properties.inner.ok(),
    ensures final(self).properties.inner.ok(),
        ({
            let (a, b) = (*old(self), *final(self));
            if a.id is Some { r == Some(EntryRef::Id(a.id->0)) && b == (Entries { id: None, ..a }) }
            else if a.type_ is Some { r == Some(EntryRef::<T, B>::Type(a.type_->0)) && b == (Entries { type_: None, ..a }) }
            else if a.graph is Some { r == Some(EntryRef::Graph(a.graph->0)) && b == (Entries { graph: None, ..a }) }
            else if a.included is Some { r == Some(EntryRef::Included(a.included->0)) && b == (Entries { included: None, ..a }) }
            else if a.reverse is Some { r == Some(EntryRef::Reverse(a.reverse->0)) && b == (Entries { reverse: None, ..a }) }
            else {
                let (p, q) = (a.properties.inner, b.properties.inner);
                b == (Entries { properties: b.properties, ..a }) && q.map == p.map && r is Some == (p.at@ < p.map.keys().len())
                && (r is Some ==> r->0 is Property && *(r->0->Property_0) == p.map.keys()[p.at@] && r->0->Property_1@ == p.map.m()[p.map.keys()[p.at@]].data@ && q.at@ == p.at@ + 1) && (r is None ==> q.at@ == p.at@)
            }
        }),
//@ end
//@ extract fn impl Iterator for Entries<'a, T, B> > size_hint from crates/core/src/object/node/mod.rs
//@ subst self.properties.len() => self.properties.size_hint().0
//@ ret r
//@ spec
    requires self.properties.inner.ok(), self.properties.inner.map.keys().len() < usize::MAX - 5,
    ensures r.0 == many(*self), r.1 == Some(r.0),
//@ end
}
}
fn main() {}
