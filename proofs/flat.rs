#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::hash::Hash;
use core::cmp::Ordering;
pub mod std_ { pub use super::hash_map; }
pub mod hash_map { pub use super::{Entry, OccupiedEntry, VacantEntry}; }
pub mod object { pub use super::List; }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
/// a hash map, seen as the map it is; two keys are the same when `==` says so, taken to be equality
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some == self.m().contains_key(*k), r is Some ==> *r->0 == self.m()[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).m().contains_key(*k) && *v == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(v)),
            None => !old(self).m().contains_key(*k) && *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(e) => e.key == k && old(self).m().contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self),
            Entry::Vacant(e) => e.key == k && !old(self).m().contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self),
        } { unimplemented!() }
}
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub struct VacantEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == old(self.map).m()[self.key] { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, final(self.map).m() == old(self.map).m().insert(self.key, *final(r)) { unimplemented!() }
}
/// what `==` decides on objects in expanded form (proved an equivalence in unordered.rs)
pub uninterp spec fn same<T>(a: T, b: T) -> bool;
pub broadcast axiom fn same_refl<T>(a: T) ensures #[trigger] same(a, a);
pub axiom fn same_trans<T>(a: T, b: T, c: T) ensures same(a, b) && same(b, c) ==> same(a, c);
/// an insertion ordered hash set
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { x: core::marker::PhantomData<T> }
pub struct SetIter<'a, T> { pub set: &'a IndexSet<T>, pub at: Ghost<int> }
impl<T> IndexSet<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.items() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self).items() == with(old(self).items(), t) { unimplemented!() }
    /// inserts the members of the other set, in order
    #[verifier::external_body]
    pub fn extend(&mut self, o: IndexSet<T>) ensures final(self).items() == with_all(old(self).items(), o.items()) { unimplemented!() }
    pub fn iter(&self) -> (r: SetIter<'_, T>) ensures r.set == self, r.at@ == 0 { SetIter { set: self, at: Ghost(0) } }
    pub fn into_iter(&self) -> (r: SetIter<'_, T>) ensures r.set == self, r.at@ == 0 { SetIter { set: self, at: Ghost(0) } }
}
impl<'a, T> SetIter<'a, T> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).at@ <= old(self).set.items().len(),
        ensures final(self).set == old(self).set,
            r is Some == (old(self).at@ < old(self).set.items().len()),
            r is Some ==> *r->0 == old(self).set.items()[old(self).at@] && final(self).at@ == old(self).at@ + 1,
            r is None ==> final(self).at@ == old(self).at@ { unimplemented!() }
}
pub open spec fn with<T>(s: Seq<T>, t: T) -> Seq<T> { if exists|i: int| 0 <= i < s.len() && same(#[trigger] s[i], t) { s } else { s.push(t) } }
pub open spec fn with_all<T>(s: Seq<T>, o: Seq<T>) -> Seq<T>
    decreases o.len(),
{ if o.len() == 0 { s } else { with(with_all(s, o.drop_last()), o.last()) } }
/// an insertion ordered hash map
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { x: core::marker::PhantomData<(K, V)> }
pub struct MapIter<'a, K, V> { pub map: &'a IndexMap<K, V>, pub at: Ghost<int> }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).m().contains_key(*k) && *v == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(v)),
            None => !old(self).m().contains_key(*k) && *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
    pub fn iter(&self) -> (r: MapIter<'_, K, V>) ensures r.map == self, r.at@ == 0 { MapIter { map: self, at: Ghost(0) } }
}
/// the iteration visits every key of the map
pub broadcast axiom fn map_keys<K, V>(m: IndexMap<K, V>, k: K)
    ensures #[trigger] m.m().contains_key(k) <==> m.keys().contains(k);
impl<'a, K, V> MapIter<'a, K, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        requires 0 <= old(self).at@ <= old(self).map.keys().len(),
        ensures final(self).map == old(self).map,
            r is Some == (old(self).at@ < old(self).map.keys().len()),
            r matches Some(p) ==> *p.0 == old(self).map.keys()[old(self).at@] && *p.1 == old(self).map.m()[*p.0] && old(self).map.m().contains_key(*p.0) && final(self).at@ == old(self).at@ + 1,
            r is None ==> final(self).at@ == old(self).at@ { unimplemented!() }
}
/// rdf_types
pub trait Vocabulary { type Iri; type BlankId; }
pub trait Generator<V: Vocabulary> { fn next(&mut self, vocabulary: &mut V) -> ValidId<V::Iri, V::BlankId>; }
pub enum ValidId<I, B> { Iri(I), Blank(B) }
pub type ValidVocabularyId<V> = ValidId<<V as Vocabulary>::Iri, <V as Vocabulary>::BlankId>;
pub type VocabularyId<V> = Id<<V as Vocabulary>::Iri, <V as Vocabulary>::BlankId>;
impl<I: Clone, B: Clone> Clone for ValidId<I, B> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// cloning an identifier gives the same identifier
#[verifier::external_body]
pub fn vx_clone<T: Clone>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
impl<I: Clone, B: Clone> Clone for Id<I, B> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<I: PartialEq, B: PartialEq> PartialEqSpecImpl for Id<I, B> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl<I: PartialEq, B: PartialEq> PartialEq for Id<I, B> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
pub open spec fn idof<I, B>(v: ValidId<I, B>) -> Id<I, B> { Id::Valid(v) }
impl<T, B> vstd::std_specs::convert::FromSpecImpl<ValidId<T, B>> for Id<T, B> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ValidId<T, B>) -> Self { Id::Valid(v) }
}
impl<T, B> From<ValidId<T, B>> for Id<T, B> {
//@ extract fn impl From<ValidId<T, B>> for Id > from from crates/core/src/id.rs
//@ end
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct Value<T> { x: core::marker::PhantomData<T> }
impl<T: Clone> Clone for Value<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub assume_specification<T: std::ops::Deref> [Option::<T>::as_deref] (o: &Option<T>) -> (r: Option<&T::Target>)
    ensures match *o { Some(ref t) => r is Some && derefs(*t, r->0), None => r is None };
pub uninterp spec fn derefs<T: std::ops::Deref>(t: T, u: &T::Target) -> bool;
pub broadcast axiom fn vec_derefs<T>(t: Vec<T>, u: &[T]) ensures #[trigger] derefs::<Vec<T>>(t, u) == (t@ == u@);
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && PartialEqSpec::eq_spec(#[trigger] &s@[i], x);
pub assume_specification<T, F: FnOnce() -> T> [Option::<T>::get_or_insert_with] (o: &mut Option<T>, f: F) -> (r: &mut T)
    ensures *old(o) is Some ==> *r == old(o)->0, *old(o) is None ==> f.ensures((), *r), *final(o) == Some(*final(r));

// ---- objects in expanded form ---------------------------------------------------------------------
//@ extract struct DeterministicHasherBuilder from crates/core/src/object/node/multiset.rs
//@ end
impl Default for DeterministicHasherBuilder { fn default() -> Self { DeterministicHasherBuilder } }
//@ extract struct Multiset from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
pub type IndexedObject<T, B> = Indexed<Object<T, B>>;
pub type IndexedNode<T, B> = Indexed<Node<T, B>>;
pub type Graph<T, B> = IndexSet<IndexedObject<T, B>>;
pub type Included<T, B> = IndexSet<IndexedNode<T, B>>;
pub type PropertyObjects<T, B> = Multiset<IndexedObject<T, B>>;
pub type ReversePropertyNodes<T, B> = Multiset<IndexedNode<T, B>>;
//@ extract struct Properties from crates/core/src/object/node/properties.rs
//@ end
//@ extract struct ReverseProperties from crates/core/src/object/node/reverse_properties.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct List from crates/core/src/object/list.rs
//@ end
//@ extract enum Object from crates/core/src/object/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
pub open spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn oref(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn no_properties<T, B>(p: Properties<T, B>) -> bool { p.0.m() == Map::<Id<T, B>, PropertyObjects<T, B>>::empty() }
/// a node without any entry but @id
pub open spec fn bare<T, B>(n: Node<T, B>) -> bool { n.types is None && n.graph is None && n.included is None && no_properties(n.properties) && n.reverse_properties is None }
pub open spec fn is_ref<T, B>(n: Node<T, B>, id: Id<T, B>) -> bool { n.id == Some(id) && bare(n) }

impl<T> Indexed<T> {
//@ extract fn impl Indexed > new from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.value == value, r.index == index,
//@ end
//@ extract fn impl Indexed > none from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.value == value, r.index is None,
//@ end
//@ extract fn impl Indexed > inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures *r == self.value,
//@ end
//@ extract fn impl Indexed > into_parts from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.0 == self.value, r.1 == self.index,
//@ end
//@ extract fn impl Indexed > index from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures oref(r) == text(self.index),
//@ end
//@ extract fn impl Indexed > set_index from crates/core/src/indexed.rs
//@ spec
    ensures final(self).value == old(self).value, final(self).index == index,
//@ end
//@ extract fn impl Indexed > map_inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    requires f.requires((self.value,)),
    ensures f.ensures((self.value,), r.value), r.index == self.index,
//@ end
}
impl<T, S> Multiset<T, S> {
//@ extract fn impl Multiset<T, S> > with_capacity from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == Seq::<T>::empty(),
//@ end
//@ extract fn impl Multiset<T, S> > as_slice from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r@ == self.data@,
//@ end
    fn new() -> (r: Self) where S: Default ensures r.data@ == Seq::<T>::empty() { Multiset { data: Vec::new(), hasher: S::default() } }
//@ extract fn impl Multiset<T, S> > insert from crates/core/src/object/node/multiset.rs
//@ spec
    ensures final(self).data@ == old(self).data@.push(value),
//@ end
//@ extract fn impl Multiset<T, S> > singleton from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == seq![value],
//@ end
}
impl<T, B> List<T, B> {
//@ extract fn impl List > new from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r.entry == objects,
//@ end
//@ extract fn impl List > entry from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r@ == self.entry@,
//@ end
}
impl<T, B> Node<T, B> {
//@ extract fn impl Node > with_id from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures is_ref(r, id),
//@ end
//@ extract fn impl Node > is_empty from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == bare(*self),
//@ end
//@ extract fn impl Node > types_mut_or_default from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r@ == types_of(*old(self)), *final(self) == (Node { types: Some(*final(r)), ..*old(self) }),
//@ end
//@ extract fn impl Node > graph_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.graph is Some, r is Some ==> *r->0 == self.graph->0,
//@ end
//@ extract fn impl Node > graph_entry_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).graph == Some(*g) && *final(self) == (Node { graph: Some(*final(g)), ..*old(self) }),
        None => old(self).graph is None && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl Node > set_graph_entry from crates/core/src/object/node/mod.rs
//@ spec
    ensures *final(self) == (Node { graph: graph, ..*old(self) }),
//@ end
//@ extract fn impl Node > set_included from crates/core/src/object/node/mod.rs
//@ spec
    ensures *final(self) == (Node { included: included, ..*old(self) }),
//@ end
//@ extract fn impl Node > set_reverse_properties from crates/core/src/object/node/mod.rs
//@ spec
    ensures *final(self) == (Node { reverse_properties: reverse_properties, ..*old(self) }),
//@ end
//@ extract fn impl Node > included_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.included is Some, r is Some ==> *r->0 == self.included->0,
//@ end
//@ extract fn impl Node > properties from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures *r == self.properties,
//@ end
//@ extract fn impl Node > properties_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures *r == old(self).properties, *final(self) == (Node { properties: *final(r), ..*old(self) }),
//@ end
//@ extract fn impl Node > reverse_properties_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.reverse_properties is Some, r is Some ==> *r->0 == self.reverse_properties->0,
//@ end
}
impl<T, B> Object<T, B> {
//@ extract fn impl Object > node from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r matches Object::Node(b) && *b == n,
//@ end
}
/// `Indexed` dereferences to its value: these are the calls that go through it
impl<T, B> Indexed<Node<T, B>> {
    pub fn is_empty(&self) -> (r: bool) ensures r == bare(self.value) { self.value.is_empty() }
    pub fn types_mut_or_default(&mut self) -> (r: &mut Vec<Id<T, B>>)
        ensures r@ == types_of(old(self).value), *final(self) == (Indexed { value: Node { types: Some(*final(r)), ..old(self).value }, ..*old(self) }),
    { self.value.types_mut_or_default() }
    pub fn graph_entry_mut(&mut self) -> (r: Option<&mut Graph<T, B>>)
        ensures match r {
            Some(g) => old(self).value.graph == Some(*g) && *final(self) == (Indexed { value: Node { graph: Some(*final(g)), ..old(self).value }, ..*old(self) }),
            None => old(self).value.graph is None && *final(self) == *old(self),
        },
    { self.value.graph_entry_mut() }
    pub fn set_graph_entry(&mut self, graph: Option<Graph<T, B>>)
        ensures *final(self) == (Indexed { value: Node { graph: graph, ..old(self).value }, ..*old(self) }),
    { self.value.set_graph_entry(graph) }
    pub fn set_included(&mut self, included: Option<Included<T, B>>)
        ensures *final(self) == (Indexed { value: Node { included: included, ..old(self).value }, ..*old(self) }),
    { self.value.set_included(included) }
    pub fn set_reverse_properties(&mut self, reverse_properties: Option<ReverseProperties<T, B>>)
        ensures *final(self) == (Indexed { value: Node { reverse_properties: reverse_properties, ..old(self).value }, ..*old(self) }),
    { self.value.set_reverse_properties(reverse_properties) }
    pub fn properties_mut(&mut self) -> (r: &mut Properties<T, B>)
        ensures *r == old(self).value.properties, *final(self) == (Indexed { value: Node { properties: *final(r), ..old(self).value }, ..*old(self) }),
    { self.value.properties_mut() }
}
pub open spec fn types_of<T, B>(n: Node<T, B>) -> Seq<Id<T, B>> { match n.types { Some(t) => t@, None => Seq::empty() } }

// ---- properties -------------------------------------------------------------------------------------
/// two objects of a property are taken for one when they have the same index and are equal values, or equal nodes with an identifier
pub open spec fn equiv<T, B>(a: IndexedObject<T, B>, b: IndexedObject<T, B>) -> bool {
    text(a.index) == text(b.index) && match (a.value, b.value) {
        (Object::Value(a), Object::Value(b)) => same(a, b),
        (Object::Node(a), Object::Node(b)) => a.id is Some && b.id is Some && same(*a, *b),
        _ => false,
    }
}
impl<T> PartialEqSpecImpl for Value<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { same(*self, *other) }
}
impl<T> PartialEq for Value<T> {
    /// proved in values.rs and unordered.rs; here only its answer matters
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
impl<T, B> PartialEqSpecImpl for Node<T, B> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { same(*self, *other) }
}
impl<T, B> PartialEq for Node<T, B> {
    /// proved in unordered.rs
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
fn vx_same_index(a: Option<&str>, b: Option<&str>) -> (r: bool) ensures r == (oref(a) == oref(b)) { match (a, b) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false } }
impl<T, B> Node<T, B> {
//@ extract fn impl Node<T, B> > equivalent from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == (self.id is Some && other.id is Some && same(*self, *other)),
//@ end
}
impl<T, B> Object<T, B> {
//@ extract fn impl Object<T, B> > equivalent from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == match (*self, *other) {
        (Object::Value(a), Object::Value(b)) => same(a, b),
        (Object::Node(a), Object::Node(b)) => a.id is Some && b.id is Some && same(*a, *b),
        _ => false,
    },
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> Indexed<Object<T, B>> {
//@ extract fn impl Indexed<Object<T, B>> > equivalent from crates/core/src/object/mod.rs
//@ subst self.index() == other.index() => vx_same_index(self.index(), other.index())
//@ ret r
//@ spec
    ensures r == equiv(*self, *other),
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> Multiset<IndexedObject<T, B>, DeterministicHasherBuilder> {
    /// `self.iter().all(|v| !v.equivalent(&value))`
    fn vx_all_new(&self, value: &IndexedObject<T, B>) -> (r: bool)
        ensures r == forall|i: int| 0 <= i < self.data@.len() ==> !equiv(#[trigger] self.data@[i], *value),
    {
        let mut k: usize = 0;
        while k < self.data.len()
            invariant k <= self.data@.len(), forall|i: int| 0 <= i < k ==> !equiv(#[trigger] self.data@[i], *value),
            decreases self.data@.len() - k,
        {
            if self.data[k].equivalent(value) { return false; }
            k += 1;
        }
        true
    }
}
#[verifier::external_body]
fn vx_size_hint<T>(i: &std::vec::IntoIter<T>) -> (r: (usize, Option<usize>)) { unimplemented!() }
pub type Objs<T, B> = Seq<IndexedObject<T, B>>;
pub open spec fn objects<T, B>(p: Properties<T, B>, k: Id<T, B>) -> Objs<T, B> { if p.0.m().contains_key(k) { p.0.m()[k].data@ } else { Seq::empty() } }
pub open spec fn merged<T, B>(s: Objs<T, B>, o: IndexedObject<T, B>) -> Objs<T, B> { if exists|i: int| 0 <= i < s.len() && equiv(#[trigger] s[i], o) { s } else { s.push(o) } }
pub open spec fn merged_all<T, B>(s: Objs<T, B>, o: Objs<T, B>) -> Objs<T, B>
    decreases o.len(),
{ if o.len() == 0 { s } else { merged(merged_all(s, o.drop_last()), o.last()) } }
proof fn merged_next<T, B>(s: Objs<T, B>, o: Objs<T, B>, k: int)
    requires 0 <= k < o.len(),
    ensures merged_all(s, o.take(k + 1)) == merged(merged_all(s, o.take(k)), o[k]), k + 1 == o.len() ==> o.take(k + 1) == o,
{
    assert(o.take(k + 1).drop_last() =~= o.take(k));
    assert(o.take(k + 1).last() == o[k]);
    if k + 1 == o.len() { assert(o.take(k + 1) =~= o); }
}
/// only the objects of `k` changed, to `v`
pub open spec fn set_objects<T, B>(a: Properties<T, B>, b: Properties<T, B>, k: Id<T, B>, v: Objs<T, B>) -> bool {
    b.0.m().contains_key(k) && b.0.m()[k].data@ == v && b.0.m() == a.0.m().insert(k, b.0.m()[k])
}
impl<T, B> Properties<T, B> {
//@ extract fn impl Properties<T, B> > new from crates/core/src/object/node/properties.rs
//@ ret r
//@ spec
    ensures no_properties(r),
//@ end
//@ extract fn impl Properties<T, B> > is_empty from crates/core/src/object/node/properties.rs
//@ ret r
//@ spec
    ensures r == no_properties(*self),
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> Properties<T, B> {
//@ extract fn impl Properties<T, B> > insert_unique from crates/core/src/object/node/properties.rs
//@ subst node_values.iter().all(|v| !v.equivalent(&value)) => node_values.vx_all_new(&value)
//@ spec
    ensures set_objects(*old(self), *final(self), prop, merged(objects(*old(self), prop), value)),
//@ end
//@ extract fn impl Properties<T, B> > insert_all_unique from crates/core/src/object/node/properties.rs
//@ rename insert_all_unique
//@ subst <Objects: IntoIterator<Item = IndexedObject<T, B>>> => <'vx>
//@ subst values: Objects => values: Vec<IndexedObject<T, B>>
//@ subst values.size_hint() => vx_size_hint(&values)
//@ subst node_values.iter().all(|v| !v.equivalent(&value)) => node_values.vx_all_new(&value)
//@ spec
    ensures set_objects(*old(self), *final(self), prop, merged_all(objects(*old(self), prop), values@)),
//@ start
    let ghost vs = values@;
    let ghost o0 = objects(*self, prop);
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == vs, node_values.data@ == merged_all(o0, vs.take(it.index@)), it.index@ == vs.len() ==> node_values.data@ == merged_all(o0, vs),
//@ loop 0 body-start
    proof { assert(it.index@ < vs.len()); assert(0 <= it.index@); merged_next(o0, vs, it.index@); }
//@ loop 1 iter it
//@ loop 1
    invariant it.seq() == vs, node_values.data@ == merged_all(o0, vs.take(it.index@)), it.index@ == vs.len() ==> node_values.data@ == merged_all(o0, vs),
//@ loop 1 body-start
    proof { assert(it.index@ < vs.len()); assert(0 <= it.index@); merged_next(o0, vs, it.index@); }
//@ end
}
//@ extract struct Iter from crates/core/src/object/node/properties.rs
//@ subst struct Iter => struct PropIter
//@ subst indexmap::map::Iter => MapIter
//@ end
//@ extract struct Iter from crates/core/src/object/node/reverse_properties.rs
//@ subst struct Iter => struct RevIter
//@ subst indexmap::map::Iter => MapIter
//@ subst <'a, T = IriBuf, B = BlankIdBuf> => <'a, T, B>
//@ end
impl<T, B> Properties<T, B> {
//@ extract fn impl Properties<T, B> > iter from crates/core/src/object/node/properties.rs
//@ subst Iter => PropIter
//@ ret r
//@ spec
    ensures *r.inner.map == self.0, r.inner.at@ == 0,
//@ end
    pub fn into_iter(&self) -> (r: PropIter<'_, T, B>) ensures *r.inner.map == self.0, r.inner.at@ == 0 { self.iter() }
}
impl<T, B> ReverseProperties<T, B> {
//@ extract fn impl ReverseProperties<T, B> > iter from crates/core/src/object/node/reverse_properties.rs
//@ subst Iter => RevIter
//@ ret r
//@ spec
    ensures *r.inner.map == self.0, r.inner.at@ == 0,
//@ end
}
impl<'a, T, B> PropIter<'a, T, B> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
//@ extract fn impl Iterator for Iter<'a, T, B> > next from crates/core/src/object/node/properties.rs
//@ subst Option<Self::Item> => Option<(&'a Id<T, B>, &'a [IndexedObject<T, B>])>
//@ desugar option.map
//@ ret r
//@ spec
    requires 0 <= old(self).inner.at@ <= old(self).inner.map.keys().len(),
    ensures final(self).inner.map == old(self).inner.map,
        r is Some == (old(self).inner.at@ < old(self).inner.map.keys().len()),
        r matches Some(p) ==> *p.0 == old(self).inner.map.keys()[old(self).inner.at@] && old(self).inner.map.m().contains_key(*p.0) && p.1@ == old(self).inner.map.m()[*p.0].data@ && final(self).inner.at@ == old(self).inner.at@ + 1,
        r is None ==> final(self).inner.at@ == old(self).inner.at@,
//@ end
}
impl<'a, T, B> RevIter<'a, T, B> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
//@ extract fn impl Iterator for Iter<'a, T, B> > next from crates/core/src/object/node/reverse_properties.rs
//@ subst Option<Self::Item> => Option<(&'a Id<T, B>, &'a [IndexedNode<T, B>])>
//@ desugar option.map
//@ ret r
//@ spec
    requires 0 <= old(self).inner.at@ <= old(self).inner.map.keys().len(),
    ensures final(self).inner.map == old(self).inner.map,
        r is Some == (old(self).inner.at@ < old(self).inner.map.keys().len()),
        r matches Some(p) ==> *p.0 == old(self).inner.map.keys()[old(self).inner.at@] && old(self).inner.map.m().contains_key(*p.0) && p.1@ == old(self).inner.map.m()[*p.0].data@ && final(self).inner.at@ == old(self).inner.at@ + 1,
        r is None ==> final(self).inner.at@ == old(self).inner.at@,
//@ end
}

// ---- the node map -----------------------------------------------------------------------------------
//@ extract struct ConflictingIndexes from crates/core/src/flattening/node_map.rs
//@ end
//@ extract struct NodeMapGraph from crates/core/src/flattening/node_map.rs
//@ end
//@ extract struct NodeMap from crates/core/src/flattening/node_map.rs
//@ end
pub type DeclareNodeResult<'a, T, B> = Result<&'a mut Indexed<Node<T, B>>, ConflictingIndexes<T, B>>;
pub type Parts<T, B> = (NodeMapGraph<T, B>, HashMap<Id<T, B>, NodeMapGraph<T, B>>);
pub type Nodes<T, B> = Map<Id<T, B>, IndexedNode<T, B>>;
/// the nodes of a graph that is declared
pub open spec fn declared<T, B>(nm: NodeMap<T, B>, g: Option<Id<T, B>>) -> bool { g matches Some(id) ==> nm.graphs.m().contains_key(id) }
pub open spec fn graph_of<T, B>(nm: NodeMap<T, B>, g: Option<Id<T, B>>) -> Nodes<T, B> { match g { None => nm.default_graph.nodes.m(), Some(id) => nm.graphs.m()[id].nodes.m() } }
pub open spec fn gref<T, B>(g: Option<&Id<T, B>>) -> Option<Id<T, B>> { match g { Some(g) => Some(*g), None => None } }
/// only the nodes of the graph `g` changed, to `v`
pub open spec fn set_graph<T, B>(a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, v: Nodes<T, B>) -> bool {
    graph_of(b, g) == v && match g {
        None => b.graphs == a.graphs,
        Some(id) => b.default_graph == a.default_graph && b.graphs.m() == a.graphs.m().insert(id, b.graphs.m()[id]),
    }
}
/// the index of a node declared with `index`
pub open spec fn index_after(old: Option<Seq<char>>, index: Option<Seq<char>>) -> Option<Seq<char>> { if index is Some { index } else { old } }
impl<T, B> NodeMapGraph<T, B> {
//@ extract fn impl NodeMapGraph<T, B> > new from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures r.nodes.m() == Map::<Id<T, B>, IndexedNode<T, B>>::empty(),
//@ end
//@ extract fn impl NodeMapGraph<T, B> > contains from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures r == self.nodes.m().contains_key(*id),
//@ end
//@ extract fn impl NodeMapGraph<T, B> > get from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures r is Some == self.nodes.m().contains_key(*id), r is Some ==> *r->0 == self.nodes.m()[*id],
//@ end
//@ extract fn impl NodeMapGraph<T, B> > get_mut from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures match r {
        Some(v) => old(self).nodes.m().contains_key(*id) && *v == old(self).nodes.m()[*id] && final(self).nodes.m() == old(self).nodes.m().insert(*id, *final(v)),
        None => !old(self).nodes.m().contains_key(*id) && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl NodeMapGraph<T, B> > declare_node from crates/core/src/flattening/node_map.rs
//@ subst index.map(ToOwned::to_owned) => vx_owned(index)
//@ ret r
//@ spec
    ensures
        match r {
            Ok(n) => final(self).nodes.m() == old(self).nodes.m().insert(id, *final(n)) && if old(self).nodes.m().contains_key(id) {
                let o = old(self).nodes.m()[id];
                n.value == o.value && text(n.index) == index_after(text(o.index), oref(index)) && (o.index is None || index is None || text(o.index) == oref(index))
            } else {
                is_ref(n.value, id) && text(n.index) == oref(index)
            },
            Err(e) => final(self).nodes.m() =~= old(self).nodes.m() && e.node_id == id && old(self).nodes.m().contains_key(id) && text(old(self).nodes.m()[id].index) == Some(e.defined_index@) && oref(index) == Some(e.conflicting_index@)
                && e.defined_index@ != e.conflicting_index@,
        },
//@ end
}
fn vx_owned(s: Option<&str>) -> (r: Option<String>) ensures text(r) == oref(s) { match s { Some(s) => Some(s.to_owned()), None => None } }
impl<T, B> NodeMap<T, B> {
//@ extract fn impl NodeMap<T, B> > new from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures r.graphs.m() == Map::<Id<T, B>, NodeMapGraph<T, B>>::empty(), r.default_graph.nodes.m() == Map::<Id<T, B>, IndexedNode<T, B>>::empty(),
//@ end
//@ extract fn impl NodeMap<T, B> > into_parts from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures r.0 == self.default_graph, r.1 == self.graphs,
//@ end
//@ extract fn impl NodeMap<T, B> > graph from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures r is Some == declared(*self, gref(id)), r is Some ==> r->0.nodes.m() == graph_of(*self, gref(id)),
//@ end
//@ extract fn impl NodeMap<T, B> > graph_mut from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => declared(*old(self), gref(id)) && g.nodes.m() == graph_of(*old(self), gref(id)) && set_graph(*old(self), *final(self), gref(id), final(g).nodes.m()),
        None => !declared(*old(self), gref(id)) && *final(self) == *old(self),
    },
//@ end
//@ extract fn impl NodeMap<T, B> > declare_graph from crates/core/src/flattening/node_map.rs
//@ subst std::collections::hash_map::Entry => Entry
//@ spec
    ensures declared(*final(self), Some(id)), final(self).default_graph == old(self).default_graph,
        old(self).graphs.m().contains_key(id) ==> final(self).graphs.m() == old(self).graphs.m(),
        !old(self).graphs.m().contains_key(id) ==> final(self).graphs.m() == old(self).graphs.m().insert(id, final(self).graphs.m()[id]) && graph_of(*final(self), Some(id)) == Map::<Id<T, B>, IndexedNode<T, B>>::empty(),
//@ end
}

// ---- assignment of identifiers ------------------------------------------------------------------------
//@ extract struct Environment from crates/core/src/flattening/environment.rs
//@ end
pub type Ids<T, B> = Map<B, ValidId<T, B>>;
/// the identifier given to `id`, once it has one
pub open spec fn known<T, B>(e: Ids<T, B>, id: Id<T, B>) -> bool { id matches Id::Valid(ValidId::Blank(b)) ==> e.contains_key(b) }
pub open spec fn img<T, B>(e: Ids<T, B>, id: Id<T, B>) -> Id<T, B> { match id { Id::Valid(ValidId::Blank(b)) => Id::Valid(e[b]), _ => id } }
pub open spec fn extends<T, B>(a: Ids<T, B>, b: Ids<T, B>) -> bool { forall|k: B| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
impl<'n, V: Vocabulary, G> Environment<'n, V, G> {
//@ extract fn impl Environment<'n, N, G> > new from crates/core/src/flattening/environment.rs
//@ subst &'n mut N => &'n mut V
//@ ret r
//@ spec
    ensures r.map.m() == Map::<V::BlankId, ValidVocabularyId<V>>::empty(),
//@ end
}
impl<'n, V: Vocabulary, G: Generator<V>> Environment<'n, V, G> where V::Iri: Clone, V::BlankId: Clone {
//@ extract fn impl Environment<'n, V, G> > assign from crates/core/src/flattening/environment.rs
//@ subst use std::collections::hash_map::Entry; => use crate::Entry;
//@ ret r
//@ spec
    ensures extends(old(self).map.m(), final(self).map.m()), final(self).map.m().contains_key(blank_id), r == final(self).map.m()[blank_id],
//@ end
//@ extract fn impl Environment<'n, V, G> > assign_node_id from crates/core/src/flattening/environment.rs
//@ subst id.clone() => vx_clone(id)
//@ ret vx_id
//@ spec
    ensures extends(old(self).map.m(), final(self).map.m()), r matches Some(i) ==> known(final(self).map.m(), *i) && vx_id == img(final(self).map.m(), *i),
//@ end
//@ extract fn impl Environment<'n, V, G> > next from crates/core/src/flattening/environment.rs
//@ ret r
//@ spec
    ensures final(self).map == old(self).map,
//@ end
}

pub open spec fn pick<T>(t: T) -> bool { true }
// ---- what flattening must achieve -----------------------------------------------------------------------
pub open spec fn objs_of<T, B>(p: Properties<T, B>, k: Id<T, B>) -> Objs<T, B> { objects(p, k) }
pub open spec fn has_object<T, B>(n: IndexedNode<T, B>, p: Id<T, B>, o: IndexedObject<T, B>) -> bool { objects(n.value.properties, p).contains(o) }
/// a graph entry or a property holds `o`, or something taken for the same
pub open spec fn holds<T, B>(n: IndexedNode<T, B>, p: Id<T, B>, o: IndexedObject<T, B>) -> bool { exists|x: IndexedObject<T, B>| #[trigger] has_object(n, p, x) && (x == o || equiv(x, o)) }
pub open spec fn graph_items<T, B>(n: IndexedNode<T, B>) -> Objs<T, B> { match n.value.graph { Some(g) => g.items(), None => Seq::empty() } }
pub open spec fn graph_holds<T, B>(n: IndexedNode<T, B>, o: IndexedObject<T, B>) -> bool { n.value.graph is Some && exists|x: IndexedObject<T, B>| graph_items(n).contains(x) && #[trigger] same(x, o) }
/// nothing a node says is lost
pub open spec fn node_grows<T, B>(a: IndexedNode<T, B>, b: IndexedNode<T, B>) -> bool {
    &&& text(a.index) is Some ==> text(b.index) == text(a.index)
    &&& forall|t: Id<T, B>| #[trigger] types_of(a.value).contains(t) ==> types_of(b.value).contains(t)
    &&& a.value.graph is Some ==> b.value.graph is Some
    &&& forall|o: IndexedObject<T, B>| #[trigger] graph_items(a).contains(o) ==> graph_items(b).contains(o)
    &&& forall|p: Id<T, B>, o: IndexedObject<T, B>| #[trigger] has_object(a, p, o) ==> has_object(b, p, o)
}
pub open spec fn nodes_grow<T, B>(a: Nodes<T, B>, b: Nodes<T, B>) -> bool { forall|k: Id<T, B>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && node_grows(a[k], b[k]) }
pub open spec fn grows<T, B>(a: NodeMap<T, B>, b: NodeMap<T, B>) -> bool { forall|g: Option<Id<T, B>>| #[trigger] declared(a, g) ==> declared(b, g) && nodes_grow(graph_of(a, g), graph_of(b, g)) }
/// the object `o`, met in the graph `g`, is recorded to depth `n`, and `out` stands for it
pub open spec fn rec_object<T, B>(n: nat, e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>) -> bool
    decreases n,
{
    n > 0 ==> match o.value {
        Object::Value(v) => out.value == Object::<T, B>::Value(v) && text(out.index) == text(o.index),
        Object::List(l) => text(out.index) == text(o.index) && (out.value matches Object::List(m) && m.entry@.len() == l.entry@.len()
            && forall|i: int| 0 <= i < l.entry@.len() ==> rec_object((n - 1) as nat, e, nm, g, #[trigger] l.entry@[i], m.entry@[i])),
        Object::Node(x) => out.index is None && (out.value matches Object::Node(r) && r.id is Some && bare(*r) && rec_node((n - 1) as nat, e, nm, g, *x, text(o.index), r.id->0)),
    }
}
/// everything the node `x` says is said of `id` in the graph `g`, to depth `n`
pub open spec fn rec_node<T, B>(n: nat, e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, index: Option<Seq<char>>, id: Id<T, B>) -> bool
    decreases n,
{
    n > 0 ==> {
        &&& x.id is Some ==> known(e, x.id->0) && id == img(e, x.id->0)
        &&& declared(nm, g) && graph_of(nm, g).contains_key(id)
        &&& index is Some ==> text(graph_of(nm, g)[id].index) == index
        &&& types_known(e, x, graph_of(nm, g)[id])
        &&& x.graph is Some ==> declared(nm, Some(id)) && graph_of(nm, g)[id].value.graph is Some && forall|i: int| 0 <= i < x.graph->0.items().len() ==> rec_member((n - 1) as nat, e, nm, g, #[trigger] x.graph->0.items()[i], id)
        &&& x.included is Some ==> forall|i: int| 0 <= i < x.included->0.items().len() ==> rec_some((n - 1) as nat, e, nm, g, #[trigger] x.included->0.items()[i])
        &&& forall|p: Id<T, B>, i: int| x.properties.0.m().contains_key(p) && 0 <= i < objects(x.properties, p).len() ==> rec_property((n - 1) as nat, e, nm, g, id, p, #[trigger] objects(x.properties, p)[i])
        &&& x.reverse_properties is Some ==> forall|p: Id<T, B>, i: int| rmap(x.reverse_properties->0).contains_key(p) && 0 <= i < subjects(x.reverse_properties->0, p).len() ==> rec_reverse((n - 1) as nat, e, nm, g, id, p, #[trigger] subjects(x.reverse_properties->0, p)[i])
    }
}
pub open spec fn rmap<T, B>(r: ReverseProperties<T, B>) -> Map<Id<T, B>, ReversePropertyNodes<T, B>> { r.0.m() }
pub open spec fn rkeys<T, B>(r: ReverseProperties<T, B>) -> Seq<Id<T, B>> { r.0.keys() }
pub open spec fn subjects<T, B>(r: ReverseProperties<T, B>, p: Id<T, B>) -> Seq<IndexedNode<T, B>> { r.0.m()[p].data@ }
pub open spec fn types_known<T, B>(e: Ids<T, B>, x: Node<T, B>, s: IndexedNode<T, B>) -> bool { forall|i: int| 0 <= i < types_of(x).len() ==> known(e, #[trigger] types_of(x)[i]) && types_of(s.value).contains(img(e, types_of(x)[i])) }
/// a member of the graph named `id`
pub open spec fn rec_member<T, B>(n: nat, e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, id: Id<T, B>) -> bool
    decreases n,
{ n > 0 ==> exists|out: IndexedObject<T, B>| #[trigger] pick(out) && rec_object((n - 1) as nat, e, nm, Some(id), o, out) && graph_holds(graph_of(nm, g)[id], out) }
/// a node that is only recorded
pub open spec fn rec_some<T, B>(n: nat, e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, x: IndexedNode<T, B>) -> bool
    decreases n,
{ n > 0 ==> exists|id: Id<T, B>| #[trigger] pick(id) && rec_node((n - 1) as nat, e, nm, g, x.value, text(x.index), id) }
/// an object of the property `p` of `id`
pub open spec fn rec_property<T, B>(n: nat, e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, p: Id<T, B>, o: IndexedObject<T, B>) -> bool
    decreases n,
{ n > 0 ==> known(e, p) && exists|out: IndexedObject<T, B>| #[trigger] pick(out) && rec_object((n - 1) as nat, e, nm, g, o, out) && holds(graph_of(nm, g)[id], img(e, p), out) }
pub open spec fn node_ref<T, B>(o: IndexedObject<T, B>, id: Id<T, B>) -> bool { o.index is None && (o.value matches Object::Node(r) && is_ref(*r, id)) }
/// a subject of the reverse property `p` of `id`
pub open spec fn rec_reverse<T, B>(n: nat, e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, p: Id<T, B>, x: IndexedNode<T, B>) -> bool
    decreases n,
{ n > 0 ==> known(e, p) && exists|s: Id<T, B>, o: IndexedObject<T, B>| #[trigger] pick(s) && rec_node((n - 1) as nat, e, nm, g, x.value, text(x.index), s) && #[trigger] node_ref(o, id) && graph_of(nm, g).contains_key(s) && holds(graph_of(nm, g)[s], img(e, p), o) }

// ---- what is recorded stays recorded --------------------------------------------------------------------
proof fn holds_grow<T, B>(a: IndexedNode<T, B>, b: IndexedNode<T, B>, p: Id<T, B>, o: IndexedObject<T, B>)
    requires node_grows(a, b),
    ensures holds(a, p, o) ==> holds(b, p, o), graph_holds(a, o) ==> graph_holds(b, o),
{
    if holds(a, p, o) {
        let x = choose|x: IndexedObject<T, B>| #[trigger] has_object(a, p, x) && (x == o || equiv(x, o));
        assert(has_object(b, p, x));
    }
    if graph_holds(a, o) {
        let x = choose|x: IndexedObject<T, B>| graph_items(a).contains(x) && #[trigger] same(x, o);
        assert(graph_items(b).contains(x) && same(x, o));
    }
}
proof fn object_stays<T, B>(n: nat, e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>)
    requires extends(e, f), grows(a, b), rec_object(n, e, a, g, o, out),
    ensures rec_object(n, f, b, g, o, out),
    decreases n,
{
    if n > 0 {
        match o.value {
            Object::Value(v) => {}
            Object::List(l) => {
                let m = out.value->List_0;
                assert forall|i: int| 0 <= i < l.entry@.len() implies rec_object((n - 1) as nat, f, b, g, #[trigger] l.entry@[i], m.entry@[i]) by {
                    object_stays((n - 1) as nat, e, f, a, b, g, l.entry@[i], m.entry@[i]);
                }
            }
            Object::Node(x) => { node_stays((n - 1) as nat, e, f, a, b, g, *x, text(o.index), out.value->Node_0.id->0); }
        }
    }
}
proof fn node_stays<T, B>(n: nat, e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, index: Option<Seq<char>>, id: Id<T, B>)
    requires extends(e, f), grows(a, b), rec_node(n, e, a, g, x, index, id),
    ensures rec_node(n, f, b, g, x, index, id),
    decreases n,
{
    if n > 0 {
        assert(declared(a, g));
        assert(graph_of(a, g).contains_key(id));
        let k = (n - 1) as nat;
        assert forall|i: int| 0 <= i < types_of(x).len() implies known(f, #[trigger] types_of(x)[i]) && types_of(graph_of(b, g)[id].value).contains(img(f, types_of(x)[i])) by {
            assert(types_of(graph_of(a, g)[id].value).contains(img(e, types_of(x)[i])));
        }
        if x.graph is Some {
            assert(declared(a, Some(id)));
            assert forall|i: int| 0 <= i < x.graph->0.items().len() implies rec_member(k, f, b, g, #[trigger] x.graph->0.items()[i], id) by { member_stays(k, e, f, a, b, g, x.graph->0.items()[i], id); }
        }
        if x.included is Some {
            assert forall|i: int| 0 <= i < x.included->0.items().len() implies rec_some(k, f, b, g, #[trigger] x.included->0.items()[i]) by { some_stays(k, e, f, a, b, g, x.included->0.items()[i]); }
        }
        assert forall|p: Id<T, B>, i: int| x.properties.0.m().contains_key(p) && 0 <= i < objects(x.properties, p).len() implies rec_property(k, f, b, g, id, p, #[trigger] objects(x.properties, p)[i]) by {
            property_stays(k, e, f, a, b, g, id, p, objects(x.properties, p)[i]);
        }
        if x.reverse_properties is Some {
            assert forall|p: Id<T, B>, i: int| rmap(x.reverse_properties->0).contains_key(p) && 0 <= i < subjects(x.reverse_properties->0, p).len() implies rec_reverse(k, f, b, g, id, p, #[trigger] subjects(x.reverse_properties->0, p)[i]) by {
                reverse_stays(k, e, f, a, b, g, id, p, subjects(x.reverse_properties->0, p)[i]);
            }
        }
    }
}
proof fn member_stays<T, B>(n: nat, e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, id: Id<T, B>)
    requires extends(e, f), grows(a, b), rec_member(n, e, a, g, o, id), declared(a, g), graph_of(a, g).contains_key(id),
    ensures rec_member(n, f, b, g, o, id),
    decreases n,
{
    if n > 0 {
        let out = choose|out: IndexedObject<T, B>| #[trigger] pick(out) && rec_object((n - 1) as nat, e, a, Some(id), o, out) && graph_holds(graph_of(a, g)[id], out);
        object_stays((n - 1) as nat, e, f, a, b, Some(id), o, out); assert(pick(out));
        assert(node_grows(graph_of(a, g)[id], graph_of(b, g)[id]));
        holds_grow(graph_of(a, g)[id], graph_of(b, g)[id], id, out);
    }
}
proof fn some_stays<T, B>(n: nat, e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, x: IndexedNode<T, B>)
    requires extends(e, f), grows(a, b), rec_some(n, e, a, g, x),
    ensures rec_some(n, f, b, g, x),
    decreases n,
{
    if n > 0 {
        let id = choose|id: Id<T, B>| #[trigger] pick(id) && rec_node((n - 1) as nat, e, a, g, x.value, text(x.index), id);
        node_stays((n - 1) as nat, e, f, a, b, g, x.value, text(x.index), id); assert(pick(id));
    }
}
proof fn property_stays<T, B>(n: nat, e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, p: Id<T, B>, o: IndexedObject<T, B>)
    requires extends(e, f), grows(a, b), rec_property(n, e, a, g, id, p, o), declared(a, g), graph_of(a, g).contains_key(id),
    ensures rec_property(n, f, b, g, id, p, o),
    decreases n,
{
    if n > 0 {
        let out = choose|out: IndexedObject<T, B>| #[trigger] pick(out) && rec_object((n - 1) as nat, e, a, g, o, out) && holds(graph_of(a, g)[id], img(e, p), out);
        object_stays((n - 1) as nat, e, f, a, b, g, o, out); assert(pick(out));
        holds_grow(graph_of(a, g)[id], graph_of(b, g)[id], img(e, p), out);
        assert(img(f, p) == img(e, p));
    }
}
proof fn reverse_stays<T, B>(n: nat, e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, p: Id<T, B>, x: IndexedNode<T, B>)
    requires extends(e, f), grows(a, b), rec_reverse(n, e, a, g, id, p, x), declared(a, g),
    ensures rec_reverse(n, f, b, g, id, p, x),
    decreases n,
{
    if n > 0 {
        let (s, o) = choose|s: Id<T, B>, o: IndexedObject<T, B>| #[trigger] pick(s) && rec_node((n - 1) as nat, e, a, g, x.value, text(x.index), s) && #[trigger] node_ref(o, id) && graph_of(a, g).contains_key(s) && holds(graph_of(a, g)[s], img(e, p), o);
        node_stays((n - 1) as nat, e, f, a, b, g, x.value, text(x.index), s);
        holds_grow(graph_of(a, g)[s], graph_of(b, g)[s], img(e, p), o);
        assert(img(f, p) == img(e, p));
        assert(node_ref(o, id) && pick(s));
    }
}
proof fn grows_trans<T, B>(a: NodeMap<T, B>, b: NodeMap<T, B>, c: NodeMap<T, B>)
    requires grows(a, b), grows(b, c),
    ensures grows(a, c),
{
    assert forall|g: Option<Id<T, B>>| #[trigger] declared(a, g) implies declared(c, g) && nodes_grow(graph_of(a, g), graph_of(c, g)) by {
        assert(declared(b, g));
        assert forall|k: Id<T, B>| #[trigger] graph_of(a, g).contains_key(k) implies graph_of(c, g).contains_key(k) && node_grows(graph_of(a, g)[k], graph_of(c, g)[k]) by {
            assert(graph_of(b, g).contains_key(k));
        }
    }
}
proof fn grows_refl<T, B>(a: NodeMap<T, B>)
    ensures grows(a, a),
{}

// ---- the same, to every depth -----------------------------------------------------------------------------
pub open spec fn robject<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>) -> bool { forall|n: nat| #[trigger] pick(n) ==> rec_object(n, e, nm, g, o, out) }
pub open spec fn rnode<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, index: Option<Seq<char>>, id: Id<T, B>) -> bool { forall|n: nat| #[trigger] pick(n) ==> rec_node(n, e, nm, g, x, index, id) }
pub open spec fn rmember<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, id: Id<T, B>) -> bool {
    exists|out: IndexedObject<T, B>| #[trigger] robject(e, nm, Some(id), o, out) && graph_holds(graph_of(nm, g)[id], out)
}
pub open spec fn rsome<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, x: IndexedNode<T, B>) -> bool { exists|id: Id<T, B>| #[trigger] rnode(e, nm, g, x.value, text(x.index), id) }
pub open spec fn rproperty<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, p: Id<T, B>, o: IndexedObject<T, B>) -> bool {
    known(e, p) && exists|out: IndexedObject<T, B>| #[trigger] robject(e, nm, g, o, out) && holds(graph_of(nm, g)[id], img(e, p), out)
}
pub open spec fn rreverse<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, p: Id<T, B>, x: IndexedNode<T, B>) -> bool {
    known(e, p) && exists|s: Id<T, B>, o: IndexedObject<T, B>| #[trigger] rnode(e, nm, g, x.value, text(x.index), s) && #[trigger] node_ref(o, id) && graph_of(nm, g).contains_key(s) && holds(graph_of(nm, g)[s], img(e, p), o)
}
// the parts of a node
pub open spec fn rhead<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, index: Option<Seq<char>>, id: Id<T, B>) -> bool {
    &&& x.id is Some ==> known(e, x.id->0) && id == img(e, x.id->0)
    &&& declared(nm, g) && graph_of(nm, g).contains_key(id)
    &&& index is Some ==> text(graph_of(nm, g)[id].index) == index
    &&& types_known(e, x, graph_of(nm, g)[id])
}
pub open spec fn rgraph<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, id: Id<T, B>) -> bool {
    x.graph is Some ==> declared(nm, Some(id)) && graph_of(nm, g)[id].value.graph is Some && forall|i: int| 0 <= i < x.graph->0.items().len() ==> rmember(e, nm, g, #[trigger] x.graph->0.items()[i], id)
}
pub open spec fn rinc<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, s: Included<T, B>, k: int) -> bool { forall|i: int| 0 <= i < k ==> rsome(e, nm, g, #[trigger] s.items()[i]) }
pub open spec fn rprop<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, x: Properties<T, B>, p: Id<T, B>) -> bool { forall|i: int| 0 <= i < objects(x, p).len() ==> rproperty(e, nm, g, id, p, #[trigger] objects(x, p)[i]) }
pub open spec fn rprops<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, x: Properties<T, B>, k: int) -> bool { forall|j: int| 0 <= j < k ==> rprop(e, nm, g, id, x, #[trigger] x.0.keys()[j]) }
pub open spec fn rrev<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, x: ReverseProperties<T, B>, p: Id<T, B>, k: int) -> bool { forall|i: int| 0 <= i < k ==> rreverse(e, nm, g, id, p, #[trigger] subjects(x, p)[i]) }
pub open spec fn rrevs<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, x: ReverseProperties<T, B>, k: int) -> bool { forall|j: int| 0 <= j < k ==> rrev(e, nm, g, id, x, #[trigger] x.0.keys()[j], subjects(x, x.0.keys()[j]).len() as int) }

proof fn robject_stays<T, B>(e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>)
    requires extends(e, f), grows(a, b), robject(e, a, g, o, out),
    ensures robject(f, b, g, o, out),
{
    assert forall|n: nat| #[trigger] pick(n) implies rec_object(n, f, b, g, o, out) by { object_stays(n, e, f, a, b, g, o, out); }
}
proof fn rnode_stays<T, B>(e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, index: Option<Seq<char>>, id: Id<T, B>)
    requires extends(e, f), grows(a, b), rnode(e, a, g, x, index, id),
    ensures rnode(f, b, g, x, index, id),
{
    assert forall|n: nat| #[trigger] pick(n) implies rec_node(n, f, b, g, x, index, id) by { node_stays(n, e, f, a, b, g, x, index, id); }
}
/// everything recorded so far stays
proof fn parts_stay<T, B>(e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, index: Option<Seq<char>>, id: Id<T, B>)
    requires extends(e, f), grows(a, b), rhead(e, a, g, x, index, id),
    ensures rhead(f, b, g, x, index, id), rgraph(e, a, g, x, id) ==> rgraph(f, b, g, x, id),
        x.included is Some ==> forall|k: int| rinc(e, a, g, x.included->0, k) ==> #[trigger] rinc(f, b, g, x.included->0, k),
        forall|p: Id<T, B>| rprop(e, a, g, id, x.properties, p) ==> #[trigger] rprop(f, b, g, id, x.properties, p),
        forall|k: int| rprops(e, a, g, id, x.properties, k) ==> #[trigger] rprops(f, b, g, id, x.properties, k),
        x.reverse_properties is Some ==> forall|p: Id<T, B>, k: int| rrev(e, a, g, id, x.reverse_properties->0, p, k) ==> #[trigger] rrev(f, b, g, id, x.reverse_properties->0, p, k),
        x.reverse_properties is Some ==> forall|k: int| rrevs(e, a, g, id, x.reverse_properties->0, k) ==> #[trigger] rrevs(f, b, g, id, x.reverse_properties->0, k),
{
    let n0 = graph_of(a, g)[id];
    let n1 = graph_of(b, g)[id];
    assert(node_grows(n0, n1));
    assert forall|i: int| 0 <= i < types_of(x).len() implies known(f, #[trigger] types_of(x)[i]) && types_of(n1.value).contains(img(f, types_of(x)[i])) by {
        assert(types_of(n0.value).contains(img(e, types_of(x)[i])));
    }
    if rgraph(e, a, g, x, id) && x.graph is Some {
        assert(declared(a, Some(id)));
        assert forall|i: int| 0 <= i < x.graph->0.items().len() implies rmember(f, b, g, #[trigger] x.graph->0.items()[i], id) by {
            let o = x.graph->0.items()[i];
            assert(rmember(e, a, g, o, id));
            let out = choose|out: IndexedObject<T, B>| #[trigger] robject(e, a, Some(id), o, out) && graph_holds(n0, out);
            robject_stays(e, f, a, b, Some(id), o, out);
            holds_grow(n0, n1, id, out);
        }
    }
    if x.included is Some {
        assert forall|k: int| rinc(e, a, g, x.included->0, k) implies #[trigger] rinc(f, b, g, x.included->0, k) by {
            assert forall|i: int| 0 <= i < k implies rsome(f, b, g, #[trigger] x.included->0.items()[i]) by {
                let y = x.included->0.items()[i];
                let yid = choose|id: Id<T, B>| #[trigger] rnode(e, a, g, y.value, text(y.index), id);
                rnode_stays(e, f, a, b, g, y.value, text(y.index), yid);
            }
        }
    }
    assert forall|p: Id<T, B>| rprop(e, a, g, id, x.properties, p) implies #[trigger] rprop(f, b, g, id, x.properties, p) by {
        assert forall|i: int| 0 <= i < objects(x.properties, p).len() implies rproperty(f, b, g, id, p, #[trigger] objects(x.properties, p)[i]) by {
            let o = objects(x.properties, p)[i];
            assert(rproperty(e, a, g, id, p, o));
            let out = choose|out: IndexedObject<T, B>| #[trigger] robject(e, a, g, o, out) && holds(n0, img(e, p), out);
            robject_stays(e, f, a, b, g, o, out);
            holds_grow(n0, n1, img(e, p), out);
            assert(img(f, p) == img(e, p));
        }
    }
    if x.reverse_properties is Some {
        let r = x.reverse_properties->0;
        assert forall|p: Id<T, B>, k: int| rrev(e, a, g, id, r, p, k) implies #[trigger] rrev(f, b, g, id, r, p, k) by {
            assert forall|i: int| 0 <= i < k implies rreverse(f, b, g, id, p, #[trigger] subjects(r, p)[i]) by {
                let y = subjects(r, p)[i];
                assert(rreverse(e, a, g, id, p, y));
                let (s, o) = choose|s: Id<T, B>, o: IndexedObject<T, B>| #[trigger] rnode(e, a, g, y.value, text(y.index), s) && #[trigger] node_ref(o, id) && graph_of(a, g).contains_key(s) && holds(graph_of(a, g)[s], img(e, p), o);
                rnode_stays(e, f, a, b, g, y.value, text(y.index), s);
                holds_grow(graph_of(a, g)[s], graph_of(b, g)[s], img(e, p), o);
                assert(img(f, p) == img(e, p));
                assert(node_ref(o, id));
            }
        }
        assert forall|k: int| rrevs(e, a, g, id, r, k) implies #[trigger] rrevs(f, b, g, id, r, k) by {
            assert forall|j: int| 0 <= j < k implies rrev(f, b, g, id, r, #[trigger] r.0.keys()[j], subjects(r, r.0.keys()[j]).len() as int) by {
                assert(rrev(e, a, g, id, r, r.0.keys()[j], subjects(r, r.0.keys()[j]).len() as int));
            }
        }
    }
}
/// all parts recorded: the node is
proof fn node_recorded<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, x: Node<T, B>, index: Option<Seq<char>>, id: Id<T, B>)
    requires rhead(e, nm, g, x, index, id), rgraph(e, nm, g, x, id),
        x.included is Some ==> rinc(e, nm, g, x.included->0, x.included->0.items().len() as int),
        rprops(e, nm, g, id, x.properties, x.properties.0.keys().len() as int),
        x.reverse_properties is Some ==> rrevs(e, nm, g, id, x.reverse_properties->0, rkeys(x.reverse_properties->0).len() as int),
    ensures rnode(e, nm, g, x, index, id),
{
    broadcast use map_keys;
    assert forall|n: nat| #[trigger] pick(n) implies rec_node(n, e, nm, g, x, index, id) by {
        if n > 0 {
            let k = (n - 1) as nat;
            assert(k > 0 ==> pick((k - 1) as nat));
            if x.graph is Some {
                assert forall|i: int| 0 <= i < x.graph->0.items().len() implies rec_member(k, e, nm, g, #[trigger] x.graph->0.items()[i], id) by {
                    let o = x.graph->0.items()[i];
                    assert(rmember(e, nm, g, o, id));
                    let out = choose|out: IndexedObject<T, B>| #[trigger] robject(e, nm, Some(id), o, out) && graph_holds(graph_of(nm, g)[id], out);
                    assert(pick(out));
                }
            }
            if x.included is Some {
                assert forall|i: int| 0 <= i < x.included->0.items().len() implies rec_some(k, e, nm, g, #[trigger] x.included->0.items()[i]) by {
                    let y = x.included->0.items()[i];
                    let s = choose|id: Id<T, B>| #[trigger] rnode(e, nm, g, y.value, text(y.index), id);
                    assert(pick(s));
                }
            }
            assert forall|p: Id<T, B>, i: int| x.properties.0.m().contains_key(p) && 0 <= i < objects(x.properties, p).len() implies rec_property(k, e, nm, g, id, p, #[trigger] objects(x.properties, p)[i]) by {
                let j = choose|j: int| 0 <= j < x.properties.0.keys().len() && x.properties.0.keys()[j] == p;
                assert(rprop(e, nm, g, id, x.properties, x.properties.0.keys()[j]));
                let o = objects(x.properties, p)[i];
                assert(rproperty(e, nm, g, id, p, o));
                let out = choose|out: IndexedObject<T, B>| #[trigger] robject(e, nm, g, o, out) && holds(graph_of(nm, g)[id], img(e, p), out);
                assert(pick(out));
            }
            if x.reverse_properties is Some {
                let r = x.reverse_properties->0;
                assert forall|p: Id<T, B>, i: int| rmap(r).contains_key(p) && 0 <= i < subjects(r, p).len() implies rec_reverse(k, e, nm, g, id, p, #[trigger] subjects(r, p)[i]) by {
                    assert(r.0.keys().contains(p));
                    let j = choose|j: int| 0 <= j < r.0.keys().len() && r.0.keys()[j] == p;
                    assert(rrev(e, nm, g, id, r, r.0.keys()[j], subjects(r, r.0.keys()[j]).len() as int));
                    let y = subjects(r, p)[i];
                    assert(rreverse(e, nm, g, id, p, y));
                    let (s, o) = choose|s: Id<T, B>, o: IndexedObject<T, B>| #[trigger] rnode(e, nm, g, y.value, text(y.index), s) && #[trigger] node_ref(o, id) && graph_of(nm, g).contains_key(s) && holds(graph_of(nm, g)[s], img(e, p), o);
                    assert(pick(s) && node_ref(o, id));
                }
            }
        }
    }
}

// ---- what is in the node map is flat ------------------------------------------------------------------------
pub open spec fn flat_to<T, B>(n: nat, o: IndexedObject<T, B>) -> bool
    decreases n,
{
    n > 0 ==> match o.value {
        Object::Value(_) => true,
        Object::List(l) => forall|i: int| 0 <= i < l.entry@.len() ==> flat_to((n - 1) as nat, #[trigger] l.entry@[i]),
        Object::Node(r) => o.index is None && r.id is Some && bare(*r),
    }
}
/// a value, a reference to a node, or a list of such
pub open spec fn flat<T, B>(o: IndexedObject<T, B>) -> bool { forall|n: nat| #[trigger] pick(n) ==> flat_to(n, o) }
pub open spec fn node_ok<T, B>(k: Id<T, B>, n: IndexedNode<T, B>) -> bool {
    &&& n.value.id == Some(k) && n.value.included is None && n.value.reverse_properties is None
    &&& forall|o: IndexedObject<T, B>| #[trigger] graph_items(n).contains(o) ==> flat(o)
    &&& forall|p: Id<T, B>, o: IndexedObject<T, B>| #[trigger] has_object(n, p, o) ==> flat(o)
}
pub open spec fn wf<T, B>(nm: NodeMap<T, B>) -> bool {
    forall|g: Option<Id<T, B>>, k: Id<T, B>| declared(nm, g) && #[trigger] graph_of(nm, g).contains_key(k) ==> node_ok(k, graph_of(nm, g)[k])
}
proof fn flat_of<T, B>(n: nat, e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>)
    requires rec_object(n, e, nm, g, o, out),
    ensures flat_to(n, out),
    decreases n,
{
    if n > 0 {
        if let Object::List(l) = o.value {
            let m = out.value->List_0;
            assert forall|i: int| 0 <= i < m.entry@.len() implies flat_to((n - 1) as nat, #[trigger] m.entry@[i]) by {
                assert(rec_object((n - 1) as nat, e, nm, g, l.entry@[i], m.entry@[i]));
                flat_of((n - 1) as nat, e, nm, g, l.entry@[i], m.entry@[i]);
            }
        }
    }
}
proof fn robject_flat<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>)
    requires robject(e, nm, g, o, out),
    ensures flat(out),
{
    assert forall|n: nat| #[trigger] pick(n) implies flat_to(n, out) by { flat_of(n, e, nm, g, o, out); }
}
proof fn list_recorded<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>)
    requires o.value is List, out.value is List, text(o.index) == text(out.index), out.value->List_0.entry@.len() == o.value->List_0.entry@.len(),
        forall|i: int| 0 <= i < o.value->List_0.entry@.len() ==> robject(e, nm, g, #[trigger] o.value->List_0.entry@[i], out.value->List_0.entry@[i]),
    ensures robject(e, nm, g, o, out),
{
    assert forall|n: nat| #[trigger] pick(n) implies rec_object(n, e, nm, g, o, out) by {
        if n > 0 {
            assert(pick((n - 1) as nat));
            assert forall|i: int| 0 <= i < o.value->List_0.entry@.len() implies rec_object((n - 1) as nat, e, nm, g, #[trigger] o.value->List_0.entry@[i], out.value->List_0.entry@[i]) by {
                assert(robject(e, nm, g, o.value->List_0.entry@[i], out.value->List_0.entry@[i]));
            }
        }
    }
}
proof fn ref_recorded<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, out: IndexedObject<T, B>, id: Id<T, B>)
    requires o.value is Node, node_ref(out, id), rnode(e, nm, g, *o.value->Node_0, text(o.index), id),
    ensures robject(e, nm, g, o, out),
{
    assert forall|n: nat| #[trigger] pick(n) implies rec_object(n, e, nm, g, o, out) by { if n > 0 { assert(pick((n - 1) as nat)); } }
}
/// a change to one node
proof fn update_grows<T, B>(a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, n: IndexedNode<T, B>)
    requires wf(a), declared(a, g), set_graph(a, b, g, graph_of(a, g).insert(id, n)), node_ok(id, n), graph_of(a, g).contains_key(id) ==> node_grows(graph_of(a, g)[id], n),
    ensures grows(a, b), wf(b), declared(b, g), graph_of(b, g).contains_key(id), graph_of(b, g)[id] == n, forall|h: Option<Id<T, B>>| declared(b, h) == declared(a, h),
{
    assert forall|h: Option<Id<T, B>>| #[trigger] declared(a, h) implies declared(b, h) && nodes_grow(graph_of(a, h), graph_of(b, h)) by {
        if h != g { assert(graph_of(b, h) == graph_of(a, h)); }
    }
    assert forall|h: Option<Id<T, B>>, k: Id<T, B>| declared(b, h) && #[trigger] graph_of(b, h).contains_key(k) implies node_ok(k, graph_of(b, h)[k]) by {
        if h != g { assert(declared(a, h)); assert(graph_of(b, h) == graph_of(a, h)); assert(graph_of(a, h).contains_key(k)); } else if k != id { assert(graph_of(a, h).contains_key(k)); }
    }
}
proof fn declare_grows<T, B>(a: NodeMap<T, B>, b: NodeMap<T, B>, id: Id<T, B>)
    requires wf(a), b.default_graph == a.default_graph,
        a.graphs.m().contains_key(id) ==> b.graphs.m() == a.graphs.m(),
        !a.graphs.m().contains_key(id) ==> b.graphs.m() == a.graphs.m().insert(id, b.graphs.m()[id]) && graph_of(b, Some(id)) == Map::<Id<T, B>, IndexedNode<T, B>>::empty(),
    ensures grows(a, b), wf(b), declared(b, Some(id)),
{
    assert forall|h: Option<Id<T, B>>, k: Id<T, B>| declared(b, h) && #[trigger] graph_of(b, h).contains_key(k) implies node_ok(k, graph_of(b, h)[k]) by {
        assert(declared(a, h)); assert(graph_of(b, h) == graph_of(a, h)); assert(graph_of(a, h).contains_key(k));
    }
    assert forall|h: Option<Id<T, B>>| #[trigger] declared(a, h) implies declared(b, h) && nodes_grow(graph_of(a, h), graph_of(b, h)) by { assert(graph_of(b, h) == graph_of(a, h)); }
}
proof fn merged_keeps<T, B>(s: Objs<T, B>, v: Objs<T, B>)
    ensures
        forall|o: IndexedObject<T, B>| #[trigger] s.contains(o) ==> merged_all(s, v).contains(o),
        forall|o: IndexedObject<T, B>| #[trigger] merged_all(s, v).contains(o) ==> s.contains(o) || v.contains(o),
        forall|i: int| 0 <= i < v.len() ==> exists|x: IndexedObject<T, B>| merged_all(s, v).contains(x) && (x == #[trigger] v[i] || equiv(x, v[i])),
    decreases v.len(),
{
    if v.len() > 0 {
        let m = merged_all(s, v.drop_last());
        let r = merged_all(s, v);
        merged_keeps(s, v.drop_last());
        assert forall|o: IndexedObject<T, B>| #[trigger] m.contains(o) implies r.contains(o) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == o; assert(r[i] == o); }
        assert forall|o: IndexedObject<T, B>| #[trigger] r.contains(o) implies s.contains(o) || v.contains(o) by {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == o;
            if i < m.len() { assert(m.contains(m[i])); if v.drop_last().contains(o) { let j = choose|j: int| 0 <= j < v.len() - 1 && v.drop_last()[j] == o; assert(v[j] == o); } } else { assert(o == v.last()); assert(v[v.len() - 1] == o); }
        }
        assert forall|i: int| 0 <= i < v.len() implies exists|x: IndexedObject<T, B>| r.contains(x) && (x == #[trigger] v[i] || equiv(x, v[i])) by {
            if i < v.len() - 1 {
                assert(v.drop_last()[i] == v[i]);
                let x = choose|x: IndexedObject<T, B>| m.contains(x) && (x == v[i] || equiv(x, v[i]));
                assert(r.contains(x));
            } else if exists|j: int| 0 <= j < m.len() && equiv(#[trigger] m[j], v.last()) {
                let j = choose|j: int| 0 <= j < m.len() && equiv(#[trigger] m[j], v.last());
                assert(r.contains(m[j]));
            } else { assert(r.last() == v.last()); assert(r.contains(v.last())); }
        }
    }
}
proof fn with_keeps<T>(s: Seq<T>, v: Seq<T>)
    ensures
        forall|o: T| #[trigger] s.contains(o) ==> with_all(s, v).contains(o),
        forall|o: T| #[trigger] with_all(s, v).contains(o) ==> s.contains(o) || v.contains(o),
        forall|i: int| 0 <= i < v.len() ==> exists|x: T| with_all(s, v).contains(x) && same(x, #[trigger] v[i]),
    decreases v.len(),
{
    broadcast use same_refl;
    if v.len() > 0 {
        let m = with_all(s, v.drop_last());
        let r = with_all(s, v);
        with_keeps(s, v.drop_last());
        with_one(m, v.last());
        assert forall|o: T| #[trigger] r.contains(o) implies s.contains(o) || v.contains(o) by {
            if m.contains(o) { if v.drop_last().contains(o) { let j = choose|j: int| 0 <= j < v.len() - 1 && v.drop_last()[j] == o; assert(v[j] == o); } } else { assert(v[v.len() - 1] == o); }
        }
        assert forall|i: int| 0 <= i < v.len() implies exists|x: T| r.contains(x) && same(x, #[trigger] v[i]) by {
            if i < v.len() - 1 {
                assert(v.drop_last()[i] == v[i]);
                let x = choose|x: T| m.contains(x) && same(x, v[i]);
                assert(r.contains(x));
            }
        }
    }
}
proof fn with_one<T>(m: Seq<T>, t: T)
    ensures forall|o: T| #[trigger] m.contains(o) ==> with(m, t).contains(o),
        forall|o: T| #[trigger] with(m, t).contains(o) ==> m.contains(o) || o == t,
        exists|x: T| #[trigger] with(m, t).contains(x) && same(x, t),
{
    broadcast use same_refl;
    let r = with(m, t);
    assert forall|o: T| #[trigger] m.contains(o) implies r.contains(o) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == o; assert(r[i] == o); }
    if exists|i: int| 0 <= i < m.len() && same(#[trigger] m[i], t) { let i = choose|i: int| 0 <= i < m.len() && same(#[trigger] m[i], t); assert(r.contains(m[i]) && same(m[i], t)); } else { assert(r.last() == t); assert(r.contains(t) && same(t, t)); }
}

// ---- the algorithm ----------------------------------------------------------------------------------------------
pub open spec fn step<T, B>(e: Ids<T, B>, a: NodeMap<T, B>, f: Ids<T, B>, b: NodeMap<T, B>) -> bool { extends(e, f) && grows(a, b) && wf(b) }
proof fn step_trans<T, B>(e: Ids<T, B>, a: NodeMap<T, B>, f: Ids<T, B>, b: NodeMap<T, B>, h: Ids<T, B>, c: NodeMap<T, B>)
    requires step(e, a, f, b), step(f, b, h, c),
    ensures step(e, a, h, c),
{ grows_trans(a, b, c); }
pub type ExtendNodeMapResult<V> = Result<IndexedObject<<V as Vocabulary>::Iri, <V as Vocabulary>::BlankId>, ConflictingIndexes<<V as Vocabulary>::Iri, <V as Vocabulary>::BlankId>>;
pub type ExtendNodeMapFromNodeResult<T, B> = Result<Indexed<Node<T, B>>, ConflictingIndexes<T, B>>;
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn extend_node_map from crates/core/src/flattening/node_map.rs
//@ subst element.index().map(ToOwned::to_owned) => vx_owned(element.index())
//@ subst in it: list  => in it: list.entry() 
//@ ret r
//@ spec
    requires declared(*old(node_map), gref(active_graph)), wf(*old(node_map)),
    ensures
        r matches Ok(out) ==> step(old(env).map.m(), *old(node_map), final(env).map.m(), *final(node_map)) && declared(*final(node_map), gref(active_graph))
            && robject(final(env).map.m(), *final(node_map), gref(active_graph), *element, out),
        r matches Err(e) ==> e.defined_index@ != e.conflicting_index@,
//@ start
    let ghost g = gref(active_graph);
    let ghost e0 = env.map.m();
    let ghost nm0 = *node_map;
    proof { grows_refl(nm0); }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq().len() == list.entry@.len(), forall|i: int| 0 <= i < list.entry@.len() ==> *#[trigger] it.seq()[i] == list.entry@[i],
        e0 == old(env).map.m(), nm0 == *old(node_map), g == gref(active_graph),
        step(e0, nm0, env.map.m(), *node_map), declared(*node_map, g),
        flat_list@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> robject(env.map.m(), *node_map, g, #[trigger] list.entry@[i], flat_list@[i]),
//@ loop 0 body-start
    let ghost e1 = env.map.m();
    let ghost nm1 = *node_map;
    let ghost f1 = flat_list@;
    proof { assert(*item == list.entry@[it.index@]); }
//@ loop 0 body-end
    proof {
        step_trans(e0, nm0, e1, nm1, env.map.m(), *node_map);
        assert forall|i: int| 0 <= i < it.index@ + 1 implies robject(env.map.m(), *node_map, g, #[trigger] list.entry@[i], flat_list@[i]) by {
            if i < it.index@ { assert(f1[i] == flat_list@[i]); robject_stays(e1, env.map.m(), nm1, *node_map, g, list.entry@[i], f1[i]); }
        }
    }
//@ tail
    proof {
        if vx_r is Ok {
            let out = vx_r->Ok_0;
            if element.value is Value { assert(robject(env.map.m(), *node_map, g, *element, out)); }
            else if element.value is List { list_recorded(env.map.m(), *node_map, g, *element, out); }
            else { ref_recorded(env.map.m(), *node_map, g, *element, out, out.value->Node_0.id->0); }
        }
    }
//@ end
/// a change to the head of a node: index and types
pub open spec fn head_change<T, B>(a: Nodes<T, B>, id: Id<T, B>, n: IndexedNode<T, B>, types: Seq<Id<T, B>>, index: Option<Seq<char>>) -> bool {
    if a.contains_key(id) {
        let o = a[id];
        n.value.id == o.value.id && n.value.graph == o.value.graph && n.value.included == o.value.included && n.value.properties == o.value.properties && n.value.reverse_properties == o.value.reverse_properties
            && text(n.index) == index_after(text(o.index), index) && (text(o.index) is Some ==> text(n.index) == text(o.index)) && (forall|t: Id<T, B>| #[trigger] types_of(o.value).contains(t) ==> types_of(n.value).contains(t))
    } else {
        n.value.id == Some(id) && n.value.graph is None && n.value.included is None && no_properties(n.value.properties) && n.value.reverse_properties is None && text(n.index) == index
    }
}
proof fn head_ok<T, B>(a: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, n: IndexedNode<T, B>, types: Seq<Id<T, B>>, index: Option<Seq<char>>)
    requires wf(a), declared(a, g), head_change(graph_of(a, g), id, n, types, index),
    ensures node_ok(id, n), graph_of(a, g).contains_key(id) ==> node_grows(graph_of(a, g)[id], n),
{
    if graph_of(a, g).contains_key(id) {
        let o = graph_of(a, g)[id];
        assert(node_ok(id, o));
        assert(graph_items(n) == graph_items(o));
        assert forall|p: Id<T, B>, x: IndexedObject<T, B>| has_object(o, p, x) == #[trigger] has_object(n, p, x) by {}
    }
}
/// the graph entry of a node is extended with the members of `f`
proof fn graph_ok<T, B>(a: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, n: IndexedNode<T, B>, f: Graph<T, B>)
    requires wf(a), declared(a, g), graph_of(a, g).contains_key(id), n.index == graph_of(a, g)[id].index,
        n.value == (Node { graph: n.value.graph, ..graph_of(a, g)[id].value }),
        n.value.graph matches Some(h) && h.items() == match graph_of(a, g)[id].value.graph { Some(o) => with_all(o.items(), f.items()), None => f.items() },
        forall|o: IndexedObject<T, B>| #[trigger] f.items().contains(o) ==> flat(o),
    ensures node_ok(id, n), node_grows(graph_of(a, g)[id], n),
        forall|o: IndexedObject<T, B>| (exists|x: IndexedObject<T, B>| #[trigger] f.items().contains(x) && same(x, o)) ==> #[trigger] graph_holds(n, o),
{
    broadcast use same_refl;
    let o = graph_of(a, g)[id];
    assert(node_ok(id, o));
    with_keeps(graph_items(o), f.items());
    assert forall|p: Id<T, B>, x: IndexedObject<T, B>| has_object(o, p, x) == #[trigger] has_object(n, p, x) by {}
    assert forall|y: IndexedObject<T, B>| (exists|x: IndexedObject<T, B>| #[trigger] f.items().contains(x) && same(x, y)) implies #[trigger] graph_holds(n, y) by {
        let x = choose|x: IndexedObject<T, B>| #[trigger] f.items().contains(x) && same(x, y);
        if o.value.graph is Some {
            let i = choose|i: int| 0 <= i < f.items().len() && f.items()[i] == x;
            let z = choose|z: IndexedObject<T, B>| with_all(graph_items(o), f.items()).contains(z) && same(z, f.items()[i]);
            same_trans(z, x, y);
            assert(graph_items(n).contains(z) && same(z, y));
        } else { assert(graph_items(n).contains(x) && same(x, y)); }
    }
}
/// objects are added to a property of a node
proof fn property_ok<T, B>(a: NodeMap<T, B>, g: Option<Id<T, B>>, id: Id<T, B>, n: IndexedNode<T, B>, p: Id<T, B>, v: Objs<T, B>)
    requires wf(a), declared(a, g), graph_of(a, g).contains_key(id), n.index == graph_of(a, g)[id].index,
        n.value == (Node { properties: n.value.properties, ..graph_of(a, g)[id].value }),
        set_objects(graph_of(a, g)[id].value.properties, n.value.properties, p, merged_all(objects(graph_of(a, g)[id].value.properties, p), v)),
        forall|o: IndexedObject<T, B>| #[trigger] v.contains(o) ==> flat(o),
    ensures node_ok(id, n), node_grows(graph_of(a, g)[id], n), forall|i: int| 0 <= i < v.len() ==> holds(n, p, #[trigger] v[i]),
{
    let o = graph_of(a, g)[id];
    assert(node_ok(id, o));
    let s = objects(o.value.properties, p);
    merged_keeps(s, v);
    assert(graph_items(n) == graph_items(o));
    assert(objects(n.value.properties, p) == merged_all(s, v));
    assert forall|q: Id<T, B>| q != p implies objects(n.value.properties, q) == #[trigger] objects(o.value.properties, q) by {}
    assert forall|q: Id<T, B>, x: IndexedObject<T, B>| #[trigger] has_object(o, q, x) implies has_object(n, q, x) by { if q != p { assert(objects(n.value.properties, q) == objects(o.value.properties, q)); } }
    assert forall|q: Id<T, B>, x: IndexedObject<T, B>| #[trigger] has_object(n, q, x) implies flat(x) by {
        if q != p { assert(objects(n.value.properties, q) == objects(o.value.properties, q)); assert(has_object(o, q, x)); } else if s.contains(x) { assert(has_object(o, p, x)); }
    }
    assert forall|i: int| 0 <= i < v.len() implies holds(n, p, #[trigger] v[i]) by {
        let x = choose|x: IndexedObject<T, B>| merged_all(s, v).contains(x) && (x == v[i] || equiv(x, v[i]));
        assert(has_object(n, p, x));
    }
}
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ extract fn extend_node_map_from_node from crates/core/src/flattening/node_map.rs
//@ subst flat_subject.id.as_ref() => flat_subject.value.id.as_ref()
//@ ret r
//@ spec
    requires declared(*old(node_map), gref(active_graph)), wf(*old(node_map)),
    ensures
        r matches Ok(out) ==> step(old(env).map.m(), *old(node_map), final(env).map.m(), *final(node_map)) && declared(*final(node_map), gref(active_graph))
            && out.index is None && out.value.id is Some && bare(out.value)
            && rnode(final(env).map.m(), *final(node_map), gref(active_graph), *node, oref(index), out.value.id->0),
        r matches Err(e) ==> e.defined_index@ != e.conflicting_index@,
//@ start
    broadcast use vec_derefs;
    let ghost g = gref(active_graph);
    let ghost e0 = env.map.m();
    let ghost nm0 = *node_map;
    let ghost idx = oref(index);
//@ loop 0 iter it
//@ loop 0
    invariant extends(e0, env.map.m()),
        node.id is Some ==> known(env.map.m(), node.id->0) && id == img(env.map.m(), node.id->0),
        forall|t: Id<N::Iri, N::BlankId>| #[trigger] ts0.contains(t) ==> flat_types@.contains(t),
        forall|i: int| 0 <= i < it.index@ ==> known(env.map.m(), #[trigger] entry@[i]) && flat_types@.contains(img(env.map.m(), entry@[i])),
//@ before "for ty in entry"
    let ghost ts0 = flat_types@;
//@ loop 0 body-start
    let ghost e1 = env.map.m();
    let ghost ts1 = flat_types@;
    proof { assert(*ty == entry@[it.index@]); }
//@ loop 0 body-end
    proof {
        assert forall|t: Id<N::Iri, N::BlankId>| #[trigger] ts1.contains(t) implies flat_types@.contains(t) by { let j = choose|j: int| 0 <= j < ts1.len() && ts1[j] == t; assert(flat_types@[j] == t); }
        assert(flat_types@.contains(flat_ty)) by { if !ts1.contains(flat_ty) { assert(flat_types@.last() == flat_ty); } }
        assert forall|i: int| 0 <= i < it.index@ + 1 implies known(env.map.m(), #[trigger] entry@[i]) && flat_types@.contains(img(env.map.m(), entry@[i])) by {
            if i < it.index@ { assert(known(e1, entry@[i])); assert(img(e1, entry@[i]) == img(env.map.m(), entry@[i])); }
        }
    }
//@ before "if let Some(graph_entry)"
    proof {
        let n = graph_of(*node_map, g)[id];
        assert(head_change(graph_of(nm0, g), id, n, types_of(*node), idx));
        head_ok(nm0, g, id, n, types_of(*node), idx);
        update_grows(nm0, *node_map, g, id, n);
        assert(rhead(env.map.m(), *node_map, g, *node, idx, id));
    }
    let ghost nm1 = *node_map;
    let ghost e1 = env.map.m();
//@ before "let mut flat_graph"
    proof {
        declare_grows(nm1, *node_map, id);
        grows_trans(nm0, nm1, *node_map);
        parts_stay(e1, env.map.m(), nm1, *node_map, g, *node, idx, id);
    }
//@ desugar-for 1 vx_g
    invariant vx_g.set == graph_entry, 0 <= vx_g.at@ <= graph_entry.items().len(),
        step(e0, nm0, env.map.m(), *node_map), declared(*node_map, g), declared(*node_map, Some(id)), rhead(env.map.m(), *node_map, g, *node, idx, id),
        forall|o: IndexedObject<N::Iri, N::BlankId>| #[trigger] flat_graph.items().contains(o) ==> flat(o),
        forall|i: int| 0 <= i < vx_g.at@ ==> collected(env.map.m(), *node_map, Some(id), #[trigger] graph_entry.items()[i], flat_graph.items()),
    ensures vx_g.at@ == graph_entry.items().len(),
//@ desugar-for 2 vx_i
    invariant vx_i.set == included_entry, 0 <= vx_i.at@ <= included_entry.items().len(),
        step(e0, nm0, env.map.m(), *node_map), declared(*node_map, g), rhead(env.map.m(), *node_map, g, *node, idx, id),
        rgraph(env.map.m(), *node_map, g, *node, id), rinc(env.map.m(), *node_map, g, *included_entry, vx_i.at@),
    ensures vx_i.at@ == included_entry.items().len(),
//@ desugar-for 3 vx_p
    invariant *vx_p.inner.map == node.properties.0, 0 <= vx_p.inner.at@ <= node.properties.0.keys().len(),
        step(e0, nm0, env.map.m(), *node_map), declared(*node_map, g), rhead(env.map.m(), *node_map, g, *node, idx, id),
        rgraph(env.map.m(), *node_map, g, *node, id), node.included is Some ==> rinc(env.map.m(), *node_map, g, node.included->0, node.included->0.items().len() as int),
        rprops(env.map.m(), *node_map, g, id, node.properties, vx_p.inner.at@),
    ensures vx_p.inner.at@ == node.properties.0.keys().len(),
//@ desugar-for 5 vx_r
    invariant *vx_r.inner.map == reverse_properties.0, 0 <= vx_r.inner.at@ <= reverse_properties.0.keys().len(),
        step(e0, nm0, env.map.m(), *node_map), declared(*node_map, g), rhead(env.map.m(), *node_map, g, *node, idx, id),
        rgraph(env.map.m(), *node_map, g, *node, id), node.included is Some ==> rinc(env.map.m(), *node_map, g, node.included->0, node.included->0.items().len() as int),
        rprops(env.map.m(), *node_map, g, id, node.properties, node.properties.0.keys().len() as int),
        rrevs(env.map.m(), *node_map, g, id, *reverse_properties, vx_r.inner.at@),
    ensures vx_r.inner.at@ == reverse_properties.0.keys().len(),
//@ loop 1 body-start
    let ghost e1 = env.map.m();
    let ghost nm1 = *node_map;
    let ghost o1 = flat_graph.items();
    let ghost k = vx_g.at@ - 1;
//@ before "flat_graph.insert"
    let ghost out = flat_object;
//@ loop 1 body-end
    proof {
        robject_flat(env.map.m(), *node_map, Some(id), *object, out);
        with_one(o1, out);
        step_trans(e0, nm0, e1, nm1, env.map.m(), *node_map);
        parts_stay(e1, env.map.m(), nm1, *node_map, g, *node, idx, id);
        assert(declared(*node_map, g));
        assert forall|i: int| 0 <= i < k + 1 implies collected(env.map.m(), *node_map, Some(id), #[trigger] graph_entry.items()[i], flat_graph.items()) by {
            if i < k { collected_stays(e1, env.map.m(), nm1, *node_map, Some(id), graph_entry.items()[i], o1, flat_graph.items()); }
        }
    }
//@ before "let flat_node = node_map" #1
    let ghost nm2 = *node_map;
    let ghost fg = flat_graph;
//@ after "match flat_node.graph_entry_mut()"
    proof {
        let n = graph_of(*node_map, g)[id];
        graph_ok(nm2, g, id, n, fg);
        update_grows(nm2, *node_map, g, id, n);
        grows_trans(nm0, nm2, *node_map);
        parts_stay(env.map.m(), env.map.m(), nm2, *node_map, g, *node, idx, id);
        assert forall|i: int| 0 <= i < node.graph->0.items().len() implies rmember(env.map.m(), *node_map, g, #[trigger] node.graph->0.items()[i], id) by {
            let o = graph_entry.items()[i];
            assert(collected(env.map.m(), nm2, Some(id), o, fg.items()));
            let out = choose|out: IndexedObject<N::Iri, N::BlankId>| #[trigger] robject(env.map.m(), nm2, Some(id), o, out) && exists|x: IndexedObject<N::Iri, N::BlankId>| #[trigger] fg.items().contains(x) && same(x, out);
            robject_stays(env.map.m(), env.map.m(), nm2, *node_map, Some(id), o, out);
            assert(graph_holds(n, out));
        }
    }
//@ loop 2 body-start
    let ghost e1 = env.map.m();
    let ghost nm1 = *node_map;
    let ghost k = vx_i.at@ - 1;
//@ loop 2 body-end
    proof {
        step_trans(e0, nm0, e1, nm1, env.map.m(), *node_map);
        parts_stay(e1, env.map.m(), nm1, *node_map, g, *node, idx, id);
        assert(rinc(env.map.m(), *node_map, g, *included_entry, k));
        assert(rsome(env.map.m(), *node_map, g, included_entry.items()[k]));
    }
//@ loop 3 body-start
    let ghost p0 = *property;
    let ghost k = vx_p.inner.at@ - 1;
    let ghost e1 = env.map.m();
//@ before "let mut flat_objects"
    proof { grows_refl(*node_map); parts_stay(e1, env.map.m(), *node_map, *node_map, g, *node, idx, id); }
//@ loop 4 iter it
//@ loop 4
    invariant it.seq().len() == objects@.len(), forall|i: int| 0 <= i < objects@.len() ==> *#[trigger] it.seq()[i] == objects@[i],
        step(e0, nm0, env.map.m(), *node_map), declared(*node_map, g), rhead(env.map.m(), *node_map, g, *node, idx, id),
        rgraph(env.map.m(), *node_map, g, *node, id), node.included is Some ==> rinc(env.map.m(), *node_map, g, node.included->0, node.included->0.items().len() as int),
        rprops(env.map.m(), *node_map, g, id, node.properties, k),
        known(env.map.m(), p0), property == img(env.map.m(), p0),
        flat_objects@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> robject(env.map.m(), *node_map, g, #[trigger] objects@[i], flat_objects@[i]),
//@ loop 4 body-start
    let ghost e1 = env.map.m();
    let ghost nm1 = *node_map;
    let ghost f1 = flat_objects@;
    proof { assert(*object == objects@[it.index@]); }
//@ loop 4 body-end
    proof {
        step_trans(e0, nm0, e1, nm1, env.map.m(), *node_map);
        parts_stay(e1, env.map.m(), nm1, *node_map, g, *node, idx, id);
        assert forall|i: int| 0 <= i < it.index@ + 1 implies robject(env.map.m(), *node_map, g, #[trigger] objects@[i], flat_objects@[i]) by {
            if i < it.index@ { assert(f1[i] == flat_objects@[i]); robject_stays(e1, env.map.m(), nm1, *node_map, g, objects@[i], f1[i]); }
        }
    }
//@ before "node_map .graph_mut(active_graph) .unwrap() .get_mut(&id) .unwrap() .properties_mut() .insert_all_unique"
    let ghost nm2 = *node_map;
    let ghost e2 = env.map.m();
    let ghost fo = flat_objects@;
    proof {
        assert forall|o: IndexedObject<N::Iri, N::BlankId>| #[trigger] fo.contains(o) implies flat(o) by {
            let i = choose|i: int| 0 <= i < fo.len() && fo[i] == o;
            robject_flat(e2, nm2, g, objects@[i], fo[i]);
        }
    }
//@ loop 3 body-end
    proof {
        let n = graph_of(*node_map, g)[id];
        property_ok(nm2, g, id, n, property, fo);
        update_grows(nm2, *node_map, g, id, n);
        grows_trans(nm0, nm2, *node_map);
        parts_stay(e2, e2, nm2, *node_map, g, *node, idx, id);
        assert(objects@ == objs_of(node.properties, p0));
        assert forall|i: int| 0 <= i < objs_of(node.properties, p0).len() implies rproperty(e2, *node_map, g, id, p0, #[trigger] objs_of(node.properties, p0)[i]) by {
            robject_stays(e2, e2, nm2, *node_map, g, objects@[i], fo[i]);
            assert(holds(n, property, fo[i]));
        }
        assert(rprop(e2, *node_map, g, id, node.properties, node.properties.0.keys()[k]));
    }
//@ loop 5 body-start
    let ghost p0 = *property;
    let ghost k = vx_r.inner.at@ - 1;
    let ghost e1 = env.map.m();
//@ before "for subject in nodes"
    proof { grows_refl(*node_map); parts_stay(e1, env.map.m(), *node_map, *node_map, g, *node, idx, id); }
//@ loop 6 iter it
//@ loop 6
    invariant it.seq().len() == nodes@.len(), forall|i: int| 0 <= i < nodes@.len() ==> *#[trigger] it.seq()[i] == nodes@[i], nodes@ == subjects(*reverse_properties, p0),
        step(e0, nm0, env.map.m(), *node_map), declared(*node_map, g), rhead(env.map.m(), *node_map, g, *node, idx, id),
        rgraph(env.map.m(), *node_map, g, *node, id), node.included is Some ==> rinc(env.map.m(), *node_map, g, node.included->0, node.included->0.items().len() as int),
        rprops(env.map.m(), *node_map, g, id, node.properties, node.properties.0.keys().len() as int),
        rrevs(env.map.m(), *node_map, g, id, *reverse_properties, k),
        known(env.map.m(), p0), property == img(env.map.m(), p0),
        rrev(env.map.m(), *node_map, g, id, *reverse_properties, p0, it.index@),
//@ loop 6 body-start
    let ghost e1 = env.map.m();
    let ghost nm1 = *node_map;
    proof { assert(*subject == nodes@[it.index@]); }
//@ before "let subject_id"
    let ghost nm2 = *node_map;
    let ghost e2 = env.map.m();
    let ghost sid = flat_subject.value.id->0;
    proof { assert(pick(1nat)); assert(rec_node(1, env.map.m(), *node_map, g, subject.value, text(subject.index), sid)); }
//@ loop 6 body-end
    proof {
        step_trans(e0, nm0, e1, nm1, e2, nm2);
        parts_stay(e1, e2, nm1, nm2, g, *node, idx, id);
        let r = *reverse_properties;
        let k = it.index@;
        assert(rrev(e1, nm1, g, id, r, p0, k));
        assert(rrev(e2, nm2, g, id, r, p0, k));
        let n = graph_of(*node_map, g)[sid];
        let v = choose|v: IndexedObject<N::Iri, N::BlankId>| node_ref(v, id) && set_objects(graph_of(nm2, g)[sid].value.properties, n.value.properties, property, #[trigger] merged(objs_of(graph_of(nm2, g)[sid].value.properties, property), v));
        one(objs_of(graph_of(nm2, g)[sid].value.properties, property), v);
        ref_flat(v, id);
        assert(seq![v][0] == v);
        property_ok(nm2, g, sid, n, property, seq![v]);
        update_grows(nm2, *node_map, g, sid, n);
        grows_trans(nm0, nm2, *node_map);
        parts_stay(e2, e2, nm2, *node_map, g, *node, idx, id);
        rnode_stays(e2, e2, nm2, *node_map, g, subject.value, text(subject.index), sid);
        assert(holds(n, property, seq![v][0]));
        assert(rrev(e2, *node_map, g, id, r, p0, k));
        assert(rreverse(e2, *node_map, g, id, p0, subjects(r, p0)[k]));
        assert(rrev(e2, *node_map, g, id, *reverse_properties, p0, it.index@ + 1));
    }
//@ loop 5 body-end
    proof { assert(rrev(env.map.m(), *node_map, g, id, *reverse_properties, reverse_properties.0.keys()[k], subjects(*reverse_properties, reverse_properties.0.keys()[k]).len() as int)); }
//@ tail
    proof { node_recorded(env.map.m(), *node_map, g, *node, idx, id); }
//@ end
proof fn one<T, B>(s: Objs<T, B>, v: IndexedObject<T, B>)
    ensures merged_all(s, seq![v]) == merged(s, v),
{ reveal_with_fuel(merged_all, 2); assert(seq![v].drop_last() =~= Seq::empty()); assert(seq![v].last() == v); }
proof fn ref_flat<T, B>(v: IndexedObject<T, B>, id: Id<T, B>)
    requires node_ref(v, id),
    ensures flat(v),
{}
proof fn collected_stays<T, B>(e: Ids<T, B>, f: Ids<T, B>, a: NodeMap<T, B>, b: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, s: Objs<T, B>, t: Objs<T, B>)
    requires extends(e, f), grows(a, b), collected(e, a, g, o, s), forall|x: IndexedObject<T, B>| #[trigger] s.contains(x) ==> t.contains(x),
    ensures collected(f, b, g, o, t),
{
    let out = choose|out: IndexedObject<T, B>| #[trigger] robject(e, a, g, o, out) && exists|x: IndexedObject<T, B>| #[trigger] s.contains(x) && same(x, out);
    robject_stays(e, f, a, b, g, o, out);
    let x = choose|x: IndexedObject<T, B>| #[trigger] s.contains(x) && same(x, out);
    assert(t.contains(x));
}
/// the graph under construction holds something that stands for `o`
pub open spec fn collected<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, g: Option<Id<T, B>>, o: IndexedObject<T, B>, s: Objs<T, B>) -> bool {
    exists|out: IndexedObject<T, B>| #[trigger] robject(e, nm, g, o, out) && exists|x: IndexedObject<T, B>| #[trigger] s.contains(x) && same(x, out)
}

// ---- the node map of a document ---------------------------------------------------------------------------------
//@ extract struct ExpandedDocument from crates/core/src/document/expanded.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
/// every object of the document is recorded in the default graph
pub open spec fn recorded<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, doc: Objs<T, B>, k: int) -> bool { forall|i: int| 0 <= i < k ==> has_record(e, nm, #[trigger] doc[i]) }
pub open spec fn has_record<T, B>(e: Ids<T, B>, nm: NodeMap<T, B>, o: IndexedObject<T, B>) -> bool { exists|out: IndexedObject<T, B>| #[trigger] robject(e, nm, None, o, out) }
pub open spec fn node_map_of<T, B>(nm: NodeMap<T, B>, doc: Objs<T, B>) -> bool { exists|e: Ids<T, B>| #[trigger] recorded(e, nm, doc, doc.len() as int) }
impl<T: Clone + Eq + Hash, B: Clone + Eq + Hash> ExpandedDocument<T, B> {
//@ extract fn impl ExpandedDocument<T, B> > iter from crates/core/src/document/expanded.rs
//@ subst indexmap::set::Iter => SetIter
//@ ret r
//@ spec
    ensures *r.set == self.0, r.at@ == 0,
//@ end
    pub fn into_iter(&self) -> (r: SetIter<'_, IndexedObject<T, B>>) ensures *r.set == self.0, r.at@ == 0 { self.iter() }
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ extract fn impl ExpandedDocument<T, B> > generate_node_map_with from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures
        r matches Ok(nm) ==> wf(nm) && node_map_of(nm, self.0.items()),
        r matches Err(e) ==> e.defined_index@ != e.conflicting_index@,
//@ desugar-for 0 vx_o
    invariant *vx_o.set == self.0, 0 <= vx_o.at@ <= self.0.items().len(), wf(node_map), recorded(env.map.m(), node_map, self.0.items(), vx_o.at@),
    ensures vx_o.at@ == self.0.items().len(),
//@ loop 0 body-start
    let ghost e1 = env.map.m();
    let ghost nm1 = node_map;
    let ghost k = vx_o.at@ - 1;
//@ loop 0 body-end
    proof {
        assert forall|i: int| 0 <= i < k + 1 implies has_record(env.map.m(), node_map, #[trigger] self.0.items()[i]) by {
            let o = self.0.items()[i];
            if i < k {
                assert(has_record(e1, nm1, o));
                let out = choose|out: IndexedObject<T, B>| #[trigger] robject(e1, nm1, None, o, out);
                robject_stays(e1, env.map.m(), nm1, node_map, None, o, out);
            }
        }
    }
//@ tail
    proof { assert(recorded(env.map.m(), node_map, self.0.items(), self.0.items().len() as int)); }
//@ end
}

// ---- from the node map to the document ----------------------------------------------------------------------------
/// the order in which a map gives its entries
pub uninterp spec fn entry_order<K, V>(m: HashMap<K, V>) -> Seq<K>;
pub broadcast axiom fn entry_order_keys<K, V>(m: HashMap<K, V>)
    ensures (#[trigger] entry_order(m)).no_duplicates(), forall|k: K| #![trigger m.m().contains_key(k)] #![trigger entry_order(m).contains(k)] m.m().contains_key(k) <==> entry_order(m).contains(k);
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn into_values(self) -> (r: Vec<V>)
        ensures r@.len() == entry_order(self).len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.m()[entry_order(self)[i]] { unimplemented!() }
}
#[verifier::external_body]
fn vx_entries<K, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures r@.len() == entry_order(m).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == entry_order(m)[i] && r@[i].1 == m.m()[r@[i].0] { unimplemented!() }
pub type IntoNodeMapGraphNodes<T, B> = Vec<IndexedNode<T, B>>;
impl<T, B> NodeMapGraph<T, B> {
//@ extract fn impl NodeMapGraph<T, B> > into_nodes from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures listing(self.nodes.m(), entry_order(self.nodes), r@),
//@ start
    broadcast use entry_order_keys;
//@ end
}
pub open spec fn listing<T, B>(m: Nodes<T, B>, ks: Seq<Id<T, B>>, vs: Seq<IndexedNode<T, B>>) -> bool {
    ks.no_duplicates() && ks.len() == vs.len() && (forall|k: Id<T, B>| #[trigger] m.contains_key(k) <==> ks.contains(k)) && forall|i: int| 0 <= i < vs.len() ==> #[trigger] vs[i] == m[ks[i]]
}
/// the way members of a sequence move when it is sorted
pub open spec fn is_perm(p: Seq<int>) -> bool {
    (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]) && forall|j: int| 0 <= j < p.len() ==> #[trigger] p.contains(j)
}
pub open spec fn permuted<A>(a: Seq<A>, p: Seq<int>, b: Seq<A>) -> bool { is_perm(p) && p.len() == a.len() && b.len() == a.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]] }
/// `sort_by`, when the comparison is a total preorder
#[verifier::external_body]
fn vx_sort<A, F: Fn(&A, &A) -> Ordering>(v: &mut Vec<A>, f: F)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> f.requires((&old(v)@[i], &old(v)@[j])),
    ensures exists|p: Seq<int>| #[trigger] permuted(old(v)@, p, final(v)@),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> compared(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }
pub open spec fn compared<A, F: Fn(&A, &A) -> Ordering>(f: F, a: A, b: A) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && o != Ordering::Greater }
/// the text of an identifier in a vocabulary
pub uninterp spec fn id_text<T, B, V>(id: Id<T, B>, v: V) -> Seq<char>;
pub uninterp spec fn text_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
#[verifier::external_body]
fn vx_cmp(a: &str, b: &str) -> (r: Ordering) ensures r == text_cmp(a@, b@) { a.cmp(b) }
pub struct With<'a, T, B, V> { pub id: &'a Id<T, B>, pub v: &'a V }
impl<T, B> Id<T, B> { pub fn with<'a, V>(&'a self, v: &'a V) -> (r: With<'a, T, B, V>) ensures r.id == self, r.v == v { With { id: self, v } } }
impl<'a, T, B, V> With<'a, T, B, V> {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == id_text(*self.id, *self.v) { unimplemented!() }
}
pub open spec fn before<T, B, V>(a: Id<T, B>, b: Id<T, B>, v: V) -> bool { text_cmp(id_text(a, v), id_text(b, v)) != Ordering::Greater }
pub open spec fn sorted<T, B, V>(s: Seq<IndexedNode<T, B>>, v: V) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> before((#[trigger] s[i]).value.id->0, (#[trigger] s[j]).value.id->0, v) }
pub open spec fn somes<A>(s: Seq<Option<A>>) -> Seq<A>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else if s.last() is Some { somes(s.drop_last()).push(s.last()->0) } else { somes(s.drop_last()) } }
#[verifier::external_body]
fn vx_collect<A>(v: Vec<A>) -> (r: IndexSet<A>) ensures r.items() == with_all(Seq::empty(), v@) { unimplemented!() }

/// a hash set of the members given
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { x: core::marker::PhantomData<T> }
impl<T> HashSet<T> { pub uninterp spec fn items(&self) -> Seq<T>; }
#[verifier::external_body]
fn vx_hash_set<A>(v: Vec<A>) -> (r: HashSet<A>) ensures r.items() == with_all(Seq::empty(), v@) { unimplemented!() }

/// nothing is said of the node
pub open spec fn silent<T, B>(n: IndexedNode<T, B>) -> bool { n.index is None && bare(n.value) }
//@ extract fn filter_graph from crates/core/src/flattening/mod.rs
//@ ret r
//@ spec
    ensures silent(node) ==> r is None, !silent(node) ==> r == Some(node),
//@ end
pub open spec fn stripped<T, B>(n: IndexedNode<T, B>) -> IndexedNode<T, B> { Indexed { value: Node { graph: None, included: None, reverse_properties: None, ..n.value }, index: n.index } }
pub open spec fn is_node<T, B>(o: IndexedObject<T, B>, n: IndexedNode<T, B>) -> bool { o.index == n.index && (o.value matches Object::Node(b) && *b == n.value) }
pub open spec fn sub_node<T, B>(n: IndexedNode<T, B>, r: Option<IndexedObject<T, B>>) -> bool { if silent(stripped(n)) { r is None } else { r matches Some(o) && is_node(o, stripped(n)) } }
//@ extract fn filter_sub_graph from crates/core/src/flattening/mod.rs
//@ ret r
//@ spec
    ensures sub_node(node, r),
//@ end
/// `into_iter().filter_map(filter_sub_graph)`
fn vx_sub_nodes<T, B>(v: Vec<IndexedNode<T, B>>) -> (r: Vec<IndexedObject<T, B>>)
    ensures exists|rs: Seq<Option<IndexedObject<T, B>>>| #[trigger] sub_nodes(v@, rs) && r@ == somes(rs),
{
    let mut out = Vec::new();
    let ghost mut rs: Seq<Option<IndexedObject<T, B>>> = Seq::empty();
    let ghost vs = v@;
    for a in it: v
        invariant it.seq() == vs, rs.len() == it.index@, out@ == somes(rs), forall|i: int| 0 <= i < rs.len() ==> sub_node(vs[i], #[trigger] rs[i]),
    {
        let c = filter_sub_graph(a);
        proof { let r1 = rs; rs = rs.push(c); assert(rs.drop_last() =~= r1); }
        if let Some(c) = c { out.push(c); }
    }
    proof { assert(sub_nodes(vs, rs)); }
    out
}
/// `into_iter().filter_map(filter_graph)`
fn vx_kept<T, B>(v: Vec<IndexedNode<T, B>>) -> (r: Vec<IndexedNode<T, B>>)
    ensures exists|rs: Seq<Option<IndexedNode<T, B>>>| #[trigger] keeps(v@, rs) && r@ == somes(rs),
{
    let mut out = Vec::new();
    let ghost mut rs: Seq<Option<IndexedNode<T, B>>> = Seq::empty();
    let ghost vs = v@;
    for a in it: v
        invariant it.seq() == vs, rs.len() == it.index@, out@ == somes(rs), forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] == keep(vs[i]),
    {
        let c = filter_graph(a);
        proof { let r1 = rs; rs = rs.push(c); assert(rs.drop_last() =~= r1); }
        if let Some(c) = c { out.push(c); }
    }
    proof { assert(keeps(vs, rs)); }
    out
}
pub open spec fn keep<T, B>(n: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> { if silent(n) { None } else { Some(n) } }
pub open spec fn keeps<T, B>(vs: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedNode<T, B>>>) -> bool { vs.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] == keep(vs[i]) }
/// the set `s` is the graph whose nodes are `m`
pub open spec fn sub_graph<T, B, V>(m: Nodes<T, B>, s: Objs<T, B>, ordered: bool, v: V) -> bool {
    exists|ks: Seq<Id<T, B>>, vs: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedObject<T, B>>>| #[trigger] listing(m, ks, vs) && (ordered ==> sorted(vs, v)) && #[trigger] sub_nodes(vs, rs) && s == with_all(Seq::empty(), somes(rs))
}
pub open spec fn sub_nodes<T, B>(vs: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedObject<T, B>>>) -> bool { vs.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> sub_node(vs[i], #[trigger] rs[i]) }
/// the node `k` of the default graph `d` given the graph `m`
pub open spec fn attached<T, B, V>(d: Nodes<T, B>, k: Id<T, B>, m: Nodes<T, B>, n: IndexedNode<T, B>, ordered: bool, v: V) -> bool {
    &&& n.value.graph is Some && sub_graph(m, n.value.graph->0.items(), ordered, v)
    &&& d.contains_key(k) ==> n.value == (Node { graph: n.value.graph, ..d[k].value }) && text(n.index) == text(d[k].index)
    &&& !d.contains_key(k) ==> is_ref(Node { graph: None, ..n.value }, k) && n.index is None
}
/// the default graph with the named graphs joined to it
pub open spec fn joined<T, B, V>(nm: NodeMap<T, B>, d: Nodes<T, B>, ordered: bool, v: V) -> bool {
    let d0 = nm.default_graph.nodes.m();
    &&& forall|k: Id<T, B>| #[trigger] d.contains_key(k) <==> d0.contains_key(k) || nm.graphs.m().contains_key(k)
    &&& forall|k: Id<T, B>| #[trigger] d.contains_key(k) ==> if nm.graphs.m().contains_key(k) { attached(d0, k, nm.graphs.m()[k].nodes.m(), d[k], ordered, v) } else { d[k] == d0[k] }
}
/// the nodes of `d` of which something is said, once each
pub open spec fn kept<T, B>(d: Nodes<T, B>, ks: Seq<Id<T, B>>, r: Seq<IndexedNode<T, B>>) -> bool {
    ks.no_duplicates() && (forall|k: Id<T, B>| #[trigger] ks.contains(k) <==> d.contains_key(k) && !silent(d[k])) && r.len() == ks.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == d[ks[i]]
}
pub open spec fn flattened<T, B, V>(nm: NodeMap<T, B>, r: Seq<IndexedNode<T, B>>, ordered: bool, v: V) -> bool {
    (exists|d: Nodes<T, B>, ks: Seq<Id<T, B>>| #[trigger] joined(nm, d, ordered, v) && #[trigger] kept(d, ks, r)) && (ordered ==> sorted(r, v))
}
pub open spec fn moved<A>(ks: Seq<A>, p: Seq<int>) -> Seq<A> { Seq::new(p.len(), |i: int| ks[p[i]]) }
proof fn listing_sorted<T, B>(m: Nodes<T, B>, ks: Seq<Id<T, B>>, vs: Seq<IndexedNode<T, B>>, p: Seq<int>, ws: Seq<IndexedNode<T, B>>)
    requires listing(m, ks, vs), permuted(vs, p, ws),
    ensures listing(m, moved(ks, p), ws),
{
    let ls = moved(ks, p);
    assert forall|k: Id<T, B>| #[trigger] m.contains_key(k) implies ls.contains(k) by {
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
        assert(p.contains(j));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == j;
        assert(ls[i] == k);
    }
    assert forall|k: Id<T, B>| ls.contains(k) implies #[trigger] m.contains_key(k) by {
        let i = choose|i: int| 0 <= i < ls.len() && ls[i] == k;
        assert(ks.contains(ks[p[i]]));
    }
}
proof fn kept_sorted<T, B>(d: Nodes<T, B>, ks: Seq<Id<T, B>>, vs: Seq<IndexedNode<T, B>>, p: Seq<int>, ws: Seq<IndexedNode<T, B>>) -> (ls: Seq<Id<T, B>>)
    requires kept(d, ks, vs), permuted(vs, p, ws),
    ensures kept(d, ls, ws),
{
    let ls = Seq::new(p.len(), |i: int| ks[p[i]]);
    assert forall|k: Id<T, B>| #[trigger] ks.contains(k) implies ls.contains(k) by {
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
        assert(p.contains(j));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == j;
        assert(ls[i] == k);
    }
    assert forall|k: Id<T, B>| #[trigger] ls.contains(k) implies ks.contains(k) by {
        let i = choose|i: int| 0 <= i < ls.len() && ls[i] == k;
        assert(ks[p[i]] == k);
    }
    assert forall|k: Id<T, B>| #[trigger] ls.contains(k) <==> d.contains_key(k) && !silent(d[k]) by { assert(ls.contains(k) == ks.contains(k)); }
    ls
}
/// filtering a listing keeps the nodes of which something is said
proof fn filter_keeps<T, B>(d: Nodes<T, B>, ks: Seq<Id<T, B>>, vs: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedNode<T, B>>>) -> (ls: Seq<Id<T, B>>)
    requires ks.no_duplicates(), ks.len() == vs.len(), rs.len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> #[trigger] vs[i] == d[ks[i]], forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] == keep(vs[i]),
    ensures ls.no_duplicates(), ls.len() == somes(rs).len(), forall|k: Id<T, B>| #[trigger] ls.contains(k) <==> ks.contains(k) && !silent(d[k]), forall|i: int| 0 <= i < ls.len() ==> #[trigger] somes(rs)[i] == d[ls[i]],
    decreases vs.len(),
{
    if vs.len() == 0 { assert(somes(rs) =~= Seq::empty()); Seq::empty() } else {
        let k0 = ks.drop_last();
        let l0 = filter_keeps(d, k0, vs.drop_last(), rs.drop_last());
        let k = ks.last();
        assert(rs.last() == keep(vs.last()));
        assert(vs.last() == d[k]);
        assert forall|x: Id<T, B>| #[trigger] ks.contains(x) <==> k0.contains(x) || x == k by {
            if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; if i < k0.len() { assert(k0[i] == x); } }
            if k0.contains(x) { let i = choose|i: int| 0 <= i < k0.len() && k0[i] == x; assert(ks[i] == x); }
            if x == k { assert(ks[ks.len() - 1] == x); }
        }
        assert(!k0.contains(k));
        if silent(d[k]) { l0 } else {
            let l = l0.push(k);
            assert(!l0.contains(k));
            assert forall|x: Id<T, B>| #[trigger] l.contains(x) <==> l0.contains(x) || x == k by {
                if l.contains(x) { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; if i < l0.len() { assert(l0[i] == x); } }
                if l0.contains(x) { let i = choose|i: int| 0 <= i < l0.len() && l0[i] == x; assert(l[i] == x); }
                if x == k { assert(l[l.len() - 1] == x); }
            }
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] somes(rs)[i] == d[l[i]] by { if i < l0.len() { assert(somes(rs.drop_last())[i] == d[l0[i]]); } }
            l
        }
    }
}
/// the first `j` of the named graphs `gs` joined
pub open spec fn joining<T, B, V>(nm: NodeMap<T, B>, gs: Seq<(Id<T, B>, NodeMapGraph<T, B>)>, j: int, d: Nodes<T, B>, ordered: bool, v: V) -> bool {
    let d0 = nm.default_graph.nodes.m();
    &&& forall|i: int| 0 <= i < j ==> d.contains_key((#[trigger] gs[i]).0) && attached(d0, gs[i].0, gs[i].1.nodes.m(), d[gs[i].0], ordered, v)
    &&& forall|k: Id<T, B>| (forall|i: int| 0 <= i < j ==> (#[trigger] gs[i]).0 != k) ==> #[trigger] d.contains_key(k) == d0.contains_key(k) && (d0.contains_key(k) ==> d[k] == d0[k])
}
pub open spec fn graph_entries<T, B>(m: Map<Id<T, B>, NodeMapGraph<T, B>>, gs: Seq<(Id<T, B>, NodeMapGraph<T, B>)>) -> bool {
    (forall|i: int| 0 <= i < gs.len() ==> m.contains_key((#[trigger] gs[i]).0) && m[gs[i].0] == gs[i].1) && (forall|i: int, j: int| 0 <= i < j < gs.len() ==> (#[trigger] gs[i]).0 != (#[trigger] gs[j]).0)
        && forall|k: Id<T, B>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k
}
proof fn entries_are<T, B>(m: HashMap<Id<T, B>, NodeMapGraph<T, B>>, gs: Seq<(Id<T, B>, NodeMapGraph<T, B>)>)
    requires gs.len() == entry_order(m).len(), forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).0 == entry_order(m)[i] && gs[i].1 == m.m()[gs[i].0],
    ensures graph_entries(m.m(), gs),
{
    broadcast use entry_order_keys;
    let o = entry_order(m);
    assert forall|i: int| 0 <= i < gs.len() implies m.m().contains_key((#[trigger] gs[i]).0) && m.m()[gs[i].0] == gs[i].1 by { assert(o.contains(o[i])); }
    assert forall|i: int, j: int| 0 <= i < j < gs.len() implies (#[trigger] gs[i]).0 != (#[trigger] gs[j]).0 by { assert(o[i] != o[j]); }
    assert forall|k: Id<T, B>| #[trigger] m.m().contains_key(k) implies exists|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k by { let i = choose|i: int| 0 <= i < o.len() && o[i] == k; assert(gs[i].0 == k); }
}
proof fn entries_sorted<T, B>(m: Map<Id<T, B>, NodeMapGraph<T, B>>, gs: Seq<(Id<T, B>, NodeMapGraph<T, B>)>, p: Seq<int>, hs: Seq<(Id<T, B>, NodeMapGraph<T, B>)>)
    requires graph_entries(m, gs), permuted(gs, p, hs),
    ensures graph_entries(m, hs),
{
    assert forall|i: int| 0 <= i < hs.len() implies m.contains_key((#[trigger] hs[i]).0) && m[hs[i].0] == hs[i].1 by { assert(gs[p[i]] == hs[i]); }
    assert forall|i: int, j: int| 0 <= i < j < hs.len() implies (#[trigger] hs[i]).0 != (#[trigger] hs[j]).0 by { assert(p[i] != p[j]); assert(gs[p[i]] == hs[i] && gs[p[j]] == hs[j]); }
    assert forall|k: Id<T, B>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).0 == k by {
        let j = choose|j: int| 0 <= j < gs.len() && (#[trigger] gs[j]).0 == k;
        assert(p.contains(j));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == j;
        assert(hs[i].0 == k);
    }
}
pub type FlattenedDocument<T, B> = Vec<IndexedNode<T, B>>;
proof fn joining_next<T, B, V>(nm: NodeMap<T, B>, gs: Seq<(Id<T, B>, NodeMapGraph<T, B>)>, j: int, d1: Nodes<T, B>, d: Nodes<T, B>, ordered: bool, v: V)
    requires graph_entries(nm.graphs.m(), gs), 0 <= j < gs.len(), joining(nm, gs, j, d1, ordered, v), d == d1.insert(gs[j].0, d[gs[j].0]), attached(nm.default_graph.nodes.m(), gs[j].0, gs[j].1.nodes.m(), d[gs[j].0], ordered, v),
    ensures joining(nm, gs, j + 1, d, ordered, v),
{
    let d0 = nm.default_graph.nodes.m();
    assert forall|i: int| 0 <= i < j + 1 implies d.contains_key((#[trigger] gs[i]).0) && attached(d0, gs[i].0, gs[i].1.nodes.m(), d[gs[i].0], ordered, v) by {
        if i < j { assert(gs[i].0 != gs[j].0); assert(d1.contains_key(gs[i].0)); }
    }
    assert forall|k: Id<T, B>| (forall|i: int| 0 <= i < j + 1 ==> (#[trigger] gs[i]).0 != k) implies #[trigger] d.contains_key(k) == d0.contains_key(k) && (d0.contains_key(k) ==> d[k] == d0[k]) by {
        assert(gs[j].0 != k);
        assert(d1.contains_key(k) == d0.contains_key(k));
    }
}
proof fn joining_all<T, B, V>(nm: NodeMap<T, B>, gs: Seq<(Id<T, B>, NodeMapGraph<T, B>)>, d: Nodes<T, B>, ordered: bool, v: V)
    requires graph_entries(nm.graphs.m(), gs), joining(nm, gs, gs.len() as int, d, ordered, v),
    ensures joined(nm, d, ordered, v),
{
    let d0 = nm.default_graph.nodes.m();
    let g = nm.graphs.m();
    assert forall|k: Id<T, B>| #[trigger] d.contains_key(k) <==> d0.contains_key(k) || g.contains_key(k) by {
        if g.contains_key(k) { let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k; assert(d.contains_key(gs[i].0)); }
        else { assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).0 != k by {} assert(d.contains_key(k) == d0.contains_key(k)); }
    }
    assert forall|k: Id<T, B>| #[trigger] d.contains_key(k) implies if g.contains_key(k) { attached(d0, k, g[k].nodes.m(), d[k], ordered, v) } else { d[k] == d0[k] } by {
        if g.contains_key(k) { let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k; assert(g[gs[i].0] == gs[i].1); }
        else { assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).0 != k by {} assert(d.contains_key(k) == d0.contains_key(k)); }
    }
}
proof fn all_kept<T, B, V>(nm: NodeMap<T, B>, d: Nodes<T, B>, ko: Seq<Id<T, B>>, r: Seq<IndexedNode<T, B>>, ordered: bool, v: V) -> (ls: Seq<Id<T, B>>)
    requires wf(nm), joined(nm, d, ordered, v), exists|vs: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedNode<T, B>>>| #[trigger] listing(d, ko, vs) && #[trigger] keeps(vs, rs) && r == somes(rs),
    ensures kept(d, ls, r), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).value.id is Some,
{
    let (vs, rs) = choose|vs: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedNode<T, B>>>| #[trigger] listing(d, ko, vs) && #[trigger] keeps(vs, rs) && r == somes(rs);
    let ls = filter_keeps(d, ko, vs, rs);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).value.id is Some by {
        let k = ls[i];
        assert(ls.contains(k));
        assert(d.contains_key(k));
        let d0 = nm.default_graph.nodes.m();
        if d0.contains_key(k) { assert(declared(nm, None::<Id<T, B>>) && graph_of(nm, None::<Id<T, B>>).contains_key(k)); }
    }
    ls
}
impl<T: Clone + Eq + Hash, B: Clone + Eq + Hash> NodeMap<T, B> {
#[verifier::loop_isolation(false)]
//@ extract fn impl NodeMap<T, B> > flatten_with from crates/core/src/flattening/mod.rs
//@ call sort_by => vx_sort(&mut $0, $1)
//@ call cmp => vx_cmp($0, $1)
//@ closure 0 (o: Ordering)
    ensures o == text_cmp(id_text(a.0, *vocabulary), id_text(b.0, *vocabulary)),
//@ closure 1 (o: Ordering)
    requires a.value.id is Some, b.value.id is Some,
    ensures o == text_cmp(id_text(a.value.id->0, *vocabulary), id_text(b.value.id->0, *vocabulary)),
//@ closure 2 (o: Ordering)
    requires a.value.id is Some, b.value.id is Some,
    ensures o == text_cmp(id_text(a.value.id->0, *vocabulary), id_text(b.value.id->0, *vocabulary)),
//@ subst named_graphs.into_iter().collect() => vx_entries(named_graphs)
//@ subst graph.into_nodes().collect() => graph.into_nodes()
//@ subst ~ nodes.into_iter().filter_map(filter_sub_graph).collect() => vx_collect(vx_sub_nodes(nodes))
//@ subst ~ default_graph.into_nodes().filter_map(filter_graph).collect() => vx_kept(default_graph.into_nodes())
//@ subst a.id => a.value.id
//@ subst b.id => b.value.id
//@ ret r
//@ spec
    requires wf(self),
    ensures flattened(self, r@, ordered, *vocabulary),
//@ start
    let ghost nm = self;
    let ghost v = *vocabulary;
//@ after "let mut named_graphs"
    let ghost gs0 = named_graphs@;
    proof { entries_are(nm.graphs, gs0); }
//@ before "for (graph_id, graph)"
    let ghost gs = named_graphs@;
    proof {
        if ordered { let p = choose|p: Seq<int>| #[trigger] permuted(gs0, p, gs); entries_sorted(nm.graphs.m(), gs0, p, gs); }
        assert(joining(nm, gs, 0, default_graph.nodes.m(), ordered, v));
    }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == gs, wf(nm), v == *vocabulary, graph_entries(nm.graphs.m(), gs), joining(nm, gs, it.index@, default_graph.nodes.m(), ordered, v),
//@ loop 0 body-start
    let ghost d1 = default_graph.nodes.m();
    let ghost id = graph_id;
    let ghost m = graph.nodes.m();
    let ghost ko = entry_order(graph.nodes);
    proof { assert(gs[it.index@] == (graph_id, graph)); }
//@ after "let mut nodes" #0
    let ghost ns0 = nodes@;
    proof {
        assert forall|i: int| 0 <= i < ns0.len() implies (#[trigger] ns0[i]).value.id is Some by { assert(ko.contains(ko[i])); assert(declared(nm, Some(id)) && graph_of(nm, Some(id)).contains_key(ko[i])); }
    }
//@ before "entry.set_graph_entry"
    let ghost ns = nodes@;
    let ghost ks = if ordered { let p = choose|p: Seq<int>| #[trigger] permuted(ns0, p, ns); moved(ko, p) } else { ko };
    proof {
        if ordered { let p = choose|p: Seq<int>| #[trigger] permuted(ns0, p, ns); listing_sorted(m, ko, ns0, p, ns); }
        assert(listing(m, ks, ns));
        assert(ordered ==> sorted(ns, v));
    }
//@ loop 0 body-end
    proof {
        let d = default_graph.nodes.m();
        let n = d[id];
        let s = n.value.graph->0.items();
        let rs = choose|rs: Seq<Option<IndexedObject<T, B>>>| #[trigger] sub_nodes(ns, rs) && s == with_all(Seq::empty(), somes(rs));
        assert(sub_graph(m, s, ordered, v));
        assert(d1.contains_key(id) == nm.default_graph.nodes.m().contains_key(id)) by { assert forall|i: int| 0 <= i < it.index@ implies (#[trigger] gs[i]).0 != id by { assert(gs[it.index@].0 == id); } }
        joining_next(nm, gs, it.index@, d1, d, ordered, v);
        assert(joining(nm, gs, it.index@ + 1, d, ordered, v));
    }
//@ before "let mut nodes" #1
    let ghost d = default_graph.nodes.m();
    let ghost ko = entry_order(default_graph.nodes);
    proof { joining_all(nm, gs, d, ordered, v); }
//@ after "let mut nodes" #1
    let ghost ns0 = nodes@;
    let ghost kk = all_kept(nm, d, ko, ns0, ordered, v);
//@ tail
    proof {
        let ks = if ordered { let p = choose|p: Seq<int>| #[trigger] permuted(ns0, p, vx_r@); kept_sorted(d, kk, ns0, p, vx_r@) } else { kk };
        assert(joined(nm, d, ordered, v) && kept(d, ks, vx_r@));
        assert(ordered ==> sorted(vx_r@, v));
    }
//@ end
#[verifier::loop_isolation(false)]
//@ extract fn impl NodeMap<T, B> > flatten_unordered from crates/core/src/flattening/mod.rs
//@ subst ~ graph.into_nodes().filter_map(filter_sub_graph).collect() => vx_collect(vx_sub_nodes(graph.into_nodes()))
//@ subst ~ default_graph.into_nodes().filter_map(filter_graph).collect() => vx_hash_set(vx_kept(default_graph.into_nodes()))
//@ ret r
//@ spec
    requires wf(self),
    ensures exists|s: Seq<IndexedNode<T, B>>| #[trigger] flattened(self, s, false, ()) && r.items() == with_all(Seq::empty(), s),
//@ start
    let ghost nm = self;
    let ghost v = ();
//@ after "let (mut default_graph"
    let ghost gs0 = named_graphs;
//@ before "for (graph_id, graph)"
    let named_graphs = vx_entries(named_graphs);
    let ghost gs = named_graphs@;
    proof { entries_are(nm.graphs, gs); assert(joining(nm, gs, 0, default_graph.nodes.m(), false, v)); }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == gs, wf(nm), graph_entries(nm.graphs.m(), gs), joining(nm, gs, it.index@, default_graph.nodes.m(), false, v),
//@ loop 0 body-start
    let ghost d1 = default_graph.nodes.m();
    let ghost id = graph_id;
    let ghost m = graph.nodes.m();
    let ghost ko = entry_order(graph.nodes);
    proof { assert(gs[it.index@] == (graph_id, graph)); }
//@ loop 0 body-end
    proof {
        let d = default_graph.nodes.m();
        let n = d[id];
        let s = n.value.graph->0.items();
        let (ns, rs) = choose|ns: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedObject<T, B>>>| #[trigger] listing(m, ko, ns) && #[trigger] sub_nodes(ns, rs) && s == with_all(Seq::empty(), somes(rs));
        assert(sub_graph(m, s, false, v));
        assert(d1.contains_key(id) == nm.default_graph.nodes.m().contains_key(id)) by { assert forall|i: int| 0 <= i < it.index@ implies (#[trigger] gs[i]).0 != id by { assert(gs[it.index@].0 == id); } }
        joining_next(nm, gs, it.index@, d1, d, false, v);
    }
//@ tail
    proof {
        let ko = entry_order(d_at);
        let d = d_at.m();
        joining_all(nm, gs, d, false, v);
        let (vs, rs) = choose|vs: Seq<IndexedNode<T, B>>, rs: Seq<Option<IndexedNode<T, B>>>| #[trigger] listing(d, ko, vs) && #[trigger] keeps(vs, rs) && vx_r.items() == with_all(Seq::empty(), somes(rs));
        let ls = all_kept(nm, d, ko, somes(rs), false, v);
        assert(joined(nm, d, false, v) && kept(d, ls, somes(rs)));
        assert(flattened(nm, somes(rs), false, v));
    }
//@ before "default_graph .into_nodes()"
    let ghost d_at = default_graph.nodes;
//@ end
}
pub type FlattenResult<I, B> = Result<FlattenedDocument<I, B>, ConflictingIndexes<I, B>>;
pub type UnorderedFlattenedDocument<I, B> = HashSet<IndexedNode<I, B>>;
pub type FlattenUnorderedResult<I, B> = Result<UnorderedFlattenedDocument<I, B>, ConflictingIndexes<I, B>>;
impl<I: Clone + Eq + Hash, B: Clone + Eq + Hash> ExpandedDocument<I, B> {
//@ extract fn impl Flatten<I, B> for ExpandedDocument > flatten_with from crates/core/src/flattening/mod.rs
//@ ret r
//@ spec
    ensures
        r matches Ok(d) ==> exists|nm: NodeMap<I, B>| #[trigger] wf(nm) && node_map_of(nm, self.0.items()) && flattened(nm, d@, ordered, *final(vocabulary)),
        r matches Err(e) ==> e.defined_index@ != e.conflicting_index@,
//@ end
//@ extract fn impl Flatten<I, B> for ExpandedDocument > flatten_unordered_with from crates/core/src/flattening/mod.rs
//@ ret r
//@ spec
    ensures
        r matches Ok(d) ==> exists|nm: NodeMap<I, B>, s: Seq<IndexedNode<I, B>>| #[trigger] wf(nm) && node_map_of(nm, self.0.items()) && #[trigger] flattened(nm, s, false, ()) && d.items() == with_all(Seq::empty(), s),
        r matches Err(e) ==> e.defined_index@ != e.conflicting_index@,
//@ end
}
}
fn main() {}
