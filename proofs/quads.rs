#![allow(warnings)]
use vstd::prelude::*;
use std::hash::Hash;
pub mod object { pub mod node { pub mod properties { pub use super::super::super::PropertiesIter as Iter; } pub mod reverse_properties { pub use super::super::super::ReversePropertiesIter as Iter; } } }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
/// an iterator over shared references: what it still has to give
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct Items<'a, T> { x: core::marker::PhantomData<&'a T> }
impl<'a, T> Items<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures r is Some == (old(self).rest().len() > 0),
            r matches Some(x) ==> *x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
}
/// an insertion ordered hash set; values are built from smaller ones
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { x: core::marker::PhantomData<T> }
impl<T> IndexSet<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<'_, T>) ensures r.rest() == self.items() { unimplemented!() }
}
pub axiom fn set_smaller<T>(s: IndexSet<T>) ensures decreases_to!(s => s.items());
pub axiom fn vec_smaller<T>(s: Vec<T>) ensures decreases_to!(s => s@);
/// an insertion ordered hash map
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { x: core::marker::PhantomData<(K, V)> }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct MapItems<'a, K, V> { x: core::marker::PhantomData<(&'a K, &'a V)> }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: MapItems<'_, K, V>) ensures r.rest() == self.entries() { unimplemented!() }
}
pub axiom fn map_smaller<K, V>(s: IndexMap<K, V>) ensures decreases_to!(s => s.entries());
impl<'a, K, V> MapItems<'a, K, V> {
    pub uninterp spec fn rest(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures r is Some == (old(self).rest().len() > 0),
            r matches Some(x) ==> (*x.0, *x.1) == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
}
/// a hash map, seen as what iterating over it gives
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: MapItems<'_, K, V>) ensures r.rest() == self.entries() { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Items<'_, V>) ensures r.rest() == self.entries().map_values(|e: (K, V)| e.1) { unimplemented!() }
}
/// the stack type of smallvec
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct SmallVec<T> { x: core::marker::PhantomData<T> }
impl<T> View for SmallVec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> SmallVec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>) ensures old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> r is None && *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(t) => old(self)@.len() > 0 && *t == old(self)@.last() && final(self)@ == old(self)@.drop_last().push(*final(t)),
            None => old(self)@.len() == 0 && *final(self) == *old(self),
        } { unimplemented!() }
}
pub enum ValidId<I, B> { Iri(I), Blank(B) }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct Value<T> { x: core::marker::PhantomData<T> }

// ---- objects in expanded form ---------------------------------------------------------------------
//@ extract struct DeterministicHasherBuilder from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Multiset from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
pub type IndexedObject<T, B> = Indexed<Object<T, B>>;
pub type IndexedNode<T, B> = Indexed<Node<T, B>>;
pub type Graph<T, B> = IndexSet<IndexedObject<T, B>>;
pub type Included<T, B> = IndexSet<IndexedNode<T, B>>;
pub type PropertyObjects<T, B> = Multiset<IndexedObject<T, B>>;
pub type ReversePropertyNodes<T, B> = Multiset<IndexedNode<T, B>>;
//@ extract struct Properties from crates/core/src/object/node/properties.rs
//@ end
//@ extract struct ReverseProperties from crates/core/src/object/node/reverse_properties.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct List from crates/core/src/object/list.rs
//@ end
//@ extract enum Object from crates/core/src/object/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct ExpandedDocument from crates/core/src/document/expanded.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract type FlattenedDocument from crates/core/src/document/flattened.rs
//@ end
//@ extract struct NodeMap from crates/core/src/flattening/node_map.rs
//@ end
//@ extract struct NodeMapGraph from crates/core/src/flattening/node_map.rs
//@ end
pub type NodeMapGraphNodes<'a, T, B> = Items<'a, IndexedNode<T, B>>;
//@ extract struct Iter from crates/core/src/flattening/node_map.rs
//@ subst Iter<'a, T, B> => NodeMapIter<'a, T, B>
//@ subst std::collections::hash_map::Iter => MapItems
//@ subst hash_map::Iter => MapItems
//@ end
//@ extract struct Iter from crates/core/src/object/node/properties.rs
//@ subst Iter<'a, T, B> => PropertiesIter<'a, T, B>
//@ subst indexmap::map::Iter<'a, => MapItems<'a,
//@ end
//@ extract struct Iter from crates/core/src/object/node/reverse_properties.rs
//@ subst Iter<'a, T, B> => ReversePropertiesIter<'a, T, B>
//@ subst indexmap::map::Iter<'a, => MapItems<'a,
//@ end
//@ extract struct QuadRef from crates/core/src/quad.rs
//@ end
//@ extract enum PropertyRef from crates/core/src/quad.rs
//@ end
//@ extract enum ObjectRef from crates/core/src/quad.rs
//@ end
//@ extract struct Quads from crates/core/src/quad.rs
//@ subst [QuadsFrame<'a, T, B>; STACK_LEN] => QuadsFrame<'a, T, B>
//@ end
//@ extract enum QuadsFrame from crates/core/src/quad.rs
//@ subst crate::flattening:: => self::
//@ subst indexmap::set::Iter<'a, => Items<'a,
//@ subst std::slice::Iter<'a, => Items<'a,
//@ end

// ---- the quads of a document ----------------------------------------------------------------------
pub type Q<'a, T, B> = QuadRef<'a, T, B>;
pub type G<'a, T, B> = Option<&'a Id<T, B>>;
/// everything said by an object in a graph: nothing by a value, what the items say by a list, what its entries say by a node
pub open spec fn of_object<'a, T, B>(g: G<'a, T, B>, o: Object<T, B>) -> Seq<Q<'a, T, B>>
    decreases o, 1int via object_dec::<T, B>
{
    match o { Object::Node(n) => of_node(g, *n), Object::List(l) => of_objects(g, l.entry@), Object::Value(_) => Seq::empty() }
}
#[via_fn]
proof fn object_dec<'a, T, B>(g: G<'a, T, B>, o: Object<T, B>) { if let Object::List(l) = o { vec_smaller(l.entry) } }
pub open spec fn of_objects<'a, T, B>(g: G<'a, T, B>, s: Seq<IndexedObject<T, B>>) -> Seq<Q<'a, T, B>>
    decreases s, 0int
{ if s.len() == 0 { Seq::empty() } else { of_object(g, s[0].value) + of_objects(g, s.drop_first()) } }
pub open spec fn of_nodes<'a, T, B>(g: G<'a, T, B>, s: Seq<IndexedNode<T, B>>) -> Seq<Q<'a, T, B>>
    decreases s, 0int
{ if s.len() == 0 { Seq::empty() } else { of_node(g, s[0].value) + of_nodes(g, s.drop_first()) } }
/// a node with an identifier has its types, properties and reverse properties stated in the graph at hand, together with what its
/// included nodes say; what its own graph says is stated in the graph named after it
pub open spec fn of_node<'a, T, B>(g: G<'a, T, B>, n: Node<T, B>) -> Seq<Q<'a, T, B>>
    decreases n, 0int via node_dec::<T, B>
{
    match n.id {
        None => Seq::empty(),
        Some(id) => {
            (match n.types { Some(t) => of_types(g, id, t@), None => Seq::empty() })
            + of_properties(g, id, n.properties.0.entries())
            + (match n.reverse_properties { Some(r) => of_reverse(g, n, r.0.entries()), None => Seq::empty() })
            + (match n.included { Some(i) => of_nodes(g, i.items()), None => Seq::empty() })
            + (match n.graph { Some(x) => of_objects(Some(&id), x.items()), None => Seq::empty() })
        }
    }
}
#[via_fn]
proof fn node_dec<'a, T, B>(g: G<'a, T, B>, n: Node<T, B>) {
    map_smaller(n.properties.0);
    if let Some(r) = n.reverse_properties { map_smaller(r.0); }
    if let Some(i) = n.included { set_smaller(i); }
    if let Some(x) = n.graph { set_smaller(x); }
}
pub open spec fn of_types<'a, T, B>(g: G<'a, T, B>, s: Id<T, B>, ts: Seq<Id<T, B>>) -> Seq<Q<'a, T, B>>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { seq![QuadRef(g, &s, PropertyRef::Type, ObjectRef::Ref(&ts[0]))] + of_types(g, s, ts.drop_first()) } }
pub open spec fn of_properties<'a, T, B>(g: G<'a, T, B>, s: Id<T, B>, e: Seq<(Id<T, B>, PropertyObjects<T, B>)>) -> Seq<Q<'a, T, B>>
    decreases e, 0int via properties_dec::<T, B>
{ if e.len() == 0 { Seq::empty() } else { of_property(g, s, e[0].0, e[0].1.data@) + of_properties(g, s, e.drop_first()) } }
#[via_fn]
proof fn properties_dec<'a, T, B>(g: G<'a, T, B>, s: Id<T, B>, e: Seq<(Id<T, B>, PropertyObjects<T, B>)>) { if e.len() > 0 { vec_smaller(e[0].1.data) } }
/// every value of the property is stated, followed by what the value itself says
pub open spec fn of_property<'a, T, B>(g: G<'a, T, B>, s: Id<T, B>, p: Id<T, B>, o: Seq<IndexedObject<T, B>>) -> Seq<Q<'a, T, B>>
    decreases o, 0int
{ if o.len() == 0 { Seq::empty() } else { seq![QuadRef(g, &s, PropertyRef::Ref(&p), ObjectRef::Object(&o[0].value))] + of_object(g, o[0].value) + of_property(g, s, p, o.drop_first()) } }
pub open spec fn of_reverse<'a, T, B>(g: G<'a, T, B>, n: Node<T, B>, e: Seq<(Id<T, B>, ReversePropertyNodes<T, B>)>) -> Seq<Q<'a, T, B>>
    decreases e, 0int via reverse_dec::<T, B>
{ if e.len() == 0 { Seq::empty() } else { of_subjects(g, n, e[0].0, e[0].1.data@) + of_reverse(g, n, e.drop_first()) } }
#[via_fn]
proof fn reverse_dec<'a, T, B>(g: G<'a, T, B>, n: Node<T, B>, e: Seq<(Id<T, B>, ReversePropertyNodes<T, B>)>) { if e.len() > 0 { vec_smaller(e[0].1.data) } }
/// every subject with an identifier has the node as value of the property
pub open spec fn of_subjects<'a, T, B>(g: G<'a, T, B>, n: Node<T, B>, p: Id<T, B>, s: Seq<IndexedNode<T, B>>) -> Seq<Q<'a, T, B>>
    decreases s, 0int
{
    if s.len() == 0 { Seq::empty() } else {
        (match s[0].value.id { Some(id) => seq![QuadRef(g, &id, PropertyRef::Ref(&p), ObjectRef::Node(&n))], None => Seq::empty() })
        + of_node(g, s[0].value) + of_subjects(g, n, p, s.drop_first())
    }
}
pub open spec fn of_frame<'a, T, B>(f: QuadsFrame<'a, T, B>) -> Seq<Q<'a, T, B>> {
    match f {
        QuadsFrame::NodeMapGraph(g, i) => of_nodes(g, i.rest()),
        QuadsFrame::IndexedObjectSet(g, i) => of_objects(g, i.rest()),
        QuadsFrame::IndexedNodeSet(g, i) => of_nodes(g, i.rest()),
        QuadsFrame::IndexedObjectSlice(g, i) => of_objects(g, i.rest()),
        QuadsFrame::IndexedNodeSlice(g, i) => of_nodes(g, i.rest()),
        QuadsFrame::NodeTypes(g, s, i) => of_types(g, *s, i.rest()),
        QuadsFrame::NodeProperties(g, s, i) => of_properties(g, *s, i.inner.rest()),
        QuadsFrame::NodeReverseProperties(g, n, i) => of_reverse(g, *n, i.inner.rest()),
        QuadsFrame::NodePropertyObjects(g, s, p, i) => of_property(g, *s, *p, i.rest()),
        QuadsFrame::NodeReversePropertySubjects(g, n, p, i) => of_subjects(g, *n, *p, i.rest()),
    }
}
/// what the iterator still has to give
pub open spec fn of_stack<'a, T, B>(s: Seq<QuadsFrame<'a, T, B>>) -> Seq<Q<'a, T, B>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { of_frame(s.last()) + of_stack(s.drop_last()) } }
broadcast proof fn assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn nothing<A>(b: Seq<A>) ensures #[trigger] (Seq::<A>::empty() + b) == b { assert(Seq::<A>::empty() + b =~= b); }
broadcast proof fn lemma_push<'a, T, B>(s: Seq<QuadsFrame<'a, T, B>>, f: QuadsFrame<'a, T, B>)
    ensures #[trigger] of_stack(s.push(f)) == of_frame(f) + of_stack(s)
{ assert(s.push(f).drop_last() =~= s); }

impl<T> Indexed<T> {
//@ extract fn impl Indexed > inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures *r == self.value,
//@ end
}
impl<T, S> Multiset<T, S> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<'_, T>) ensures r.rest() == self.data@ { unimplemented!() }
//@ extract fn impl Multiset<T, S> > as_slice from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r@ == self.data@,
//@ end
}
#[verifier::external_body]
pub fn vx_iter<'a, T>(s: &'a [T]) -> (r: Items<'a, T>) ensures r.rest() == s@ { unimplemented!() }
impl<T, B> List<T, B> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<'_, IndexedObject<T, B>>) ensures r.rest() == self.entry@ { unimplemented!() }
}
impl<T, B> Properties<T, B> {
//@ extract fn impl Properties > iter from crates/core/src/object/node/properties.rs
//@ subst Iter<'_, T, B> => PropertiesIter<'_, T, B>
//@ subst ~ Iter { => PropertiesIter {
//@ ret r
//@ spec
    ensures r.inner.rest() == self.0.entries(),
//@ end
}
impl<'a, T, B> PropertiesIter<'a, T, B> {
//@ extract fn impl Iterator for Iter > next from crates/core/src/object/node/properties.rs
//@ subst Option<Self::Item> => Option<(&'a Id<T, B>, &'a [IndexedObject<T, B>])>
//@ desugar option.map
//@ ret r
//@ spec
    ensures r is Some == (old(self).inner.rest().len() > 0),
        r matches Some(x) ==> *x.0 == old(self).inner.rest()[0].0 && x.1@ == old(self).inner.rest()[0].1.data@ && final(self).inner.rest() == old(self).inner.rest().drop_first(),
        r is None ==> *final(self) == *old(self),
//@ end
}

impl<T, B> ReverseProperties<T, B> {
//@ extract fn impl ReverseProperties > iter from crates/core/src/object/node/reverse_properties.rs
//@ subst Iter<'_, T, B> => ReversePropertiesIter<'_, T, B>
//@ subst ~ Iter { => ReversePropertiesIter {
//@ ret r
//@ spec
    ensures r.inner.rest() == self.0.entries(),
//@ end
}
impl<'a, T, B> ReversePropertiesIter<'a, T, B> {
//@ extract fn impl Iterator for Iter > next from crates/core/src/object/node/reverse_properties.rs
//@ subst Option<Self::Item> => Option<(&'a Id<T, B>, &'a [IndexedNode<T, B>])>
//@ desugar option.map
//@ ret r
//@ spec
    ensures r is Some == (old(self).inner.rest().len() > 0),
        r matches Some(x) ==> *x.0 == old(self).inner.rest()[0].0 && x.1@ == old(self).inner.rest()[0].1.data@ && final(self).inner.rest() == old(self).inner.rest().drop_first(),
        r is None ==> *final(self) == *old(self),
//@ end
}
impl<T, B> Node<T, B> {
//@ extract fn impl Node > graph_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.graph is Some, r is Some ==> *r->0 == self.graph->0,
//@ end
//@ extract fn impl Node > included_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.included is Some, r is Some ==> *r->0 == self.included->0,
//@ end
//@ extract fn impl Node > properties from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures *r == self.properties,
//@ end
//@ extract fn impl Node > reverse_properties_entry from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.reverse_properties is Some, r is Some ==> *r->0 == self.reverse_properties->0,
//@ end
}
/// dereferencing down to the node
pub trait VxNode<T, B> { spec fn node(&self) -> Node<T, B>; fn vx_node(&self) -> (r: &Node<T, B>) ensures *r == self.node(); }
impl<T, B> VxNode<T, B> for Node<T, B> { open spec fn node(&self) -> Node<T, B> { *self } fn vx_node(&self) -> (r: &Node<T, B>) { self } }
impl<T, B> VxNode<T, B> for Box<Node<T, B>> { open spec fn node(&self) -> Node<T, B> { **self } fn vx_node(&self) -> (r: &Node<T, B>) { &**self } }
impl<T, B> VxNode<T, B> for Indexed<Node<T, B>> { open spec fn node(&self) -> Node<T, B> { self.value } fn vx_node(&self) -> (r: &Node<T, B>) { &self.value } }
impl<'a, T, B> Quads<'a, T, B> {
//@ extract fn impl Quads > push_object from crates/core/src/quad.rs
//@ call push_node => $0.push_node($1, VxNode::vx_node($2))
//@ start
    broadcast use assoc; broadcast use nothing; broadcast use lemma_push;
//@ spec
    ensures of_stack(final(self).stack@) == of_object(graph, object.value) + of_stack(old(self).stack@),
//@ end
//@ extract fn impl Quads > push_node from crates/core/src/quad.rs
//@ subst types.iter() => vx_iter(types)
//@ start
    broadcast use assoc; broadcast use nothing; broadcast use lemma_push;
//@ spec
    ensures of_stack(final(self).stack@) == of_node(graph, *node) + of_stack(old(self).stack@),
//@ end
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ extract fn impl Iterator for Quads > next from crates/core/src/quad.rs
//@ subst Option<Self::Item> => Option<QuadRef<'a, T, B>>
//@ subst objects.iter(), => vx_iter(objects),
//@ subst subjects.iter(), => vx_iter(subjects),
//@ call push_node => $0.push_node($1, VxNode::vx_node($2))
//@ subst ObjectRef::Object(object) => ObjectRef::Object(object.inner())
//@ subst &subject.id => &subject.inner().id
//@ start
    broadcast use assoc; broadcast use nothing; broadcast use lemma_push;
//@ ret r
//@ spec
    ensures match r {
        Some(q) => of_stack(old(self).stack@) == seq![q] + of_stack(final(self).stack@),
        None => of_stack(old(self).stack@) == Seq::<Q<'a, T, B>>::empty() && of_stack(final(self).stack@) == Seq::<Q<'a, T, B>>::empty(),
    },
//@ loop 0
    invariant of_stack(self.stack@) == of_stack(old(self).stack@),
    ensures self.stack@.len() == 0,
//@ end
}

// ---- the documents that have quads ----------------------------------------------------------------
impl<T, B> ExpandedDocument<T, B> {
//@ extract fn impl ExpandedDocument > iter from crates/core/src/document/expanded.rs
//@ subst indexmap::set::Iter<'_, => Items<'_,
//@ ret r
//@ spec
    ensures r.rest() == self.0.items(),
//@ end
}
impl<T, B> NodeMapGraph<T, B> {
//@ extract fn impl NodeMapGraph > nodes from crates/core/src/flattening/node_map.rs
//@ ret r
//@ spec
    ensures r.rest() == nodes_of(self.nodes.entries()),
//@ end
}
impl<T, B> NodeMap<T, B> {
//@ extract fn impl NodeMap > iter from crates/core/src/flattening/node_map.rs
//@ subst Iter<'_, T, B> => NodeMapIter<'_, T, B>
//@ subst ~ Iter { => NodeMapIter {
//@ ret r
//@ spec
    ensures graphs_left(r) == graphs_of(*self),
//@ end
}
impl<'a, T, B> NodeMapIter<'a, T, B> {
//@ extract fn impl Iterator for Iter > next from crates/core/src/flattening/node_map.rs
//@ subst Option<Self::Item> => Option<(Option<&'a Id<T, B>>, &'a NodeMapGraph<T, B>)>
//@ desugar option.map
//@ ret r
//@ spec
    ensures r is Some == (graphs_left(*old(self)).len() > 0),
        r matches Some(x) ==> (x.0, nodes_of(x.1.nodes.entries())) == graphs_left(*old(self))[0] && graphs_left(*final(self)) == graphs_left(*old(self)).drop_first(),
        r is None ==> graphs_left(*final(self)).len() == 0,
//@ tail
    proof { assert(old(self).default_graph is None && old(self).graphs.rest().len() > 0 ==> named(old(self).graphs.rest()).drop_first() =~= named(old(self).graphs.rest().drop_first())); assert(old(self).default_graph is Some ==> graphs_left(*old(self)).drop_first() =~= graphs_left(*final(self))); }
//@ end
}
impl<'a, T, B> VxInto<NodeMapIter<'a, T, B>> for &'a NodeMap<T, B> {
    open spec fn into_spec(self, r: NodeMapIter<'a, T, B>) -> bool { graphs_left(r) == graphs_of(*self) }
//@ extract fn impl IntoIterator for &'a NodeMap<T, B> > into_iter from crates/core/src/flattening/node_map.rs
//@ subst Self::IntoIter => NodeMapIter<'a, T, B>
//@ end
}
pub trait VxInto<I>: Sized { spec fn into_spec(self, r: I) -> bool; fn into_iter(self) -> (r: I) ensures self.into_spec(r); }
pub open spec fn nodes_of<T, B>(e: Seq<(Id<T, B>, IndexedNode<T, B>)>) -> Seq<IndexedNode<T, B>> { e.map_values(|x: (Id<T, B>, IndexedNode<T, B>)| x.1) }
pub open spec fn named<'a, T, B>(e: Seq<(Id<T, B>, NodeMapGraph<T, B>)>) -> Seq<(G<'a, T, B>, Seq<IndexedNode<T, B>>)> {
    e.map_values(|x: (Id<T, B>, NodeMapGraph<T, B>)| (Some(&x.0), nodes_of(x.1.nodes.entries())))
}
/// the graphs of a node map: the default graph and the named ones
pub open spec fn graphs_of<'a, T, B>(m: NodeMap<T, B>) -> Seq<(G<'a, T, B>, Seq<IndexedNode<T, B>>)> {
    seq![(None, nodes_of(m.default_graph.nodes.entries()))] + named(m.graphs.entries())
}
pub open spec fn graphs_left<'a, T, B>(i: NodeMapIter<'a, T, B>) -> Seq<(G<'a, T, B>, Seq<IndexedNode<T, B>>)> {
    (match i.default_graph { Some(g) => seq![(None, nodes_of(g.nodes.entries()))], None => Seq::empty() }) + named(i.graphs.rest())
}
/// what the graphs say (the last one first)
pub open spec fn of_graphs<'a, T, B>(s: Seq<(G<'a, T, B>, Seq<IndexedNode<T, B>>)>) -> Seq<Q<'a, T, B>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { of_nodes(s.last().0, s.last().1) + of_graphs(s.drop_last()) } }
proof fn lemma_graphs<'a, T, B>(s: Seq<(G<'a, T, B>, Seq<IndexedNode<T, B>>)>, x: (G<'a, T, B>, Seq<IndexedNode<T, B>>))
    ensures of_graphs(s.push(x)) == of_nodes(x.0, x.1) + of_graphs(s)
{ assert(s.push(x).drop_last() =~= s); }
pub trait LdQuads<T, B> {
    spec fn said<'a>(&self) -> Seq<Q<'a, T, B>>;
    fn quads(&self) -> (r: Quads<'_, T, B>) ensures of_stack(r.stack@) == self.said();
}
proof fn lemma_end<A>(s: Seq<A>) ensures s + Seq::<A>::empty() == s { assert(s + Seq::<A>::empty() =~= s); }
impl<T, B> LdQuads<T, B> for ExpandedDocument<T, B> {
    open spec fn said<'a>(&self) -> Seq<Q<'a, T, B>> { of_objects(None, self.0.items()) }
//@ extract fn impl LdQuads<T, B> for ExpandedDocument > quads from crates/core/src/quad.rs
//@ start
    broadcast use lemma_push;
//@ after "stack.push"
    proof { lemma_end(of_objects::<T, B>(None, self.0.items())); }
//@ end
}
impl<T, B> LdQuads<T, B> for FlattenedDocument<T, B> {
    open spec fn said<'a>(&self) -> Seq<Q<'a, T, B>> { of_nodes(None, self@) }
//@ extract fn impl LdQuads<T, B> for FlattenedDocument > quads from crates/core/src/quad.rs
//@ subst self.iter() => vx_iter(self)
//@ start
    broadcast use lemma_push;
//@ after "stack.push"
    proof { lemma_end(of_nodes::<T, B>(None, self@)); }
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> LdQuads<T, B> for NodeMap<T, B> {
    open spec fn said<'a>(&self) -> Seq<Q<'a, T, B>> { of_graphs(graphs_of(*self)) }
//@ extract fn impl LdQuads<T, B> for NodeMap > quads from crates/core/src/quad.rs
//@ start
    broadcast use lemma_push;
    let ghost mut k: int = 0;
//@ desugar-for 0 vx_g
    invariant 0 <= k <= graphs_of(*self).len(), graphs_of(*self).skip(k) =~= graphs_left(vx_g), of_stack(stack@) == of_graphs(graphs_of(*self).take(k)),
    ensures k == graphs_of(*self).len(),
    decreases graphs_of(*self).len() - k,
//@ loop 0 body-start
    let ghost s0 = stack@;
//@ loop 0 body-end
    proof {
        assert(graphs_of(*self).skip(k)[0] == graphs_of(*self)[k]);
        assert(graphs_of(*self).skip(k).drop_first() =~= graphs_of(*self).skip(k + 1));
        assert(graphs_of(*self).take(k + 1) =~= graphs_of(*self).take(k).push((id, nodes_of(graph.nodes.entries()))));
        lemma_graphs(graphs_of(*self).take(k), (id, nodes_of(graph.nodes.entries())));
        assert(of_graphs(graphs_of(*self).take(k + 1)) == of_nodes(id, nodes_of(graph.nodes.entries())) + of_graphs(graphs_of(*self).take(k)));
        lemma_push(s0, stack@.last());
        assert(s0.push(stack@.last()) =~= stack@);
        assert(s0 =~= stack@.drop_last());
        assert(of_stack(stack@.drop_last()) == of_graphs(graphs_of(*self).take(k)));
        assert(of_frame(stack@.last()) == of_nodes(id, nodes_of(graph.nodes.entries())));
        k = k + 1;
    }
//@ tail
    proof { assert(graphs_of(*self).take(k) =~= graphs_of(*self)); }
//@ end
}

} // verus!
fn main() {}
