#![allow(warnings)]
use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::cmp::*;
verus! {
//@ vacuity-decls
//@ extract struct StackNode from crates/context-processing/src/stack.rs
//@ end
//@ extract struct ProcessingStack from crates/context-processing/src/stack.rs
//@ end

pub open spec fn inner<I>(a: Arc<StackNode<I>>) -> StackNode<I> { *a }
/// the loaded URLs, oldest first
pub open spec fn node_urls<I>(n: StackNode<I>) -> Seq<I>
    decreases n
{
    match n.previous { None => seq![n.url], Some(p) => node_urls(*p).push(n.url) }
}
pub open spec fn urls<I>(s: ProcessingStack<I>) -> Seq<I> {
    match s.head { None => seq![], Some(h) => node_urls(*h) }
}
/// no URL is loaded twice in one chain
pub open spec fn acyclic<I>(s: ProcessingStack<I>) -> bool { urls(s).no_duplicates() }

proof fn push_contains<I>(s: Seq<I>, x: I, y: I)
    ensures s.push(x).contains(y) == (s.contains(y) || x == y),
{
    assert(s.push(x).last() == x);
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    if s.push(x).contains(y) && x != y { let i = choose|i: int| 0 <= i < s.len() + 1 && s.push(x)[i] == y; assert(s[i] == y); }
}

proof fn node_lemma<I>(n: StackNode<I>, url: I)
    ensures
        node_urls(n).len() > 0,
        node_urls(n).contains(url) == (n.url == url || (n.previous is Some && node_urls(inner(n.previous->0)).contains(url))),
{
    if n.previous is None { assert(node_urls(n)[0] == n.url); } else { push_contains(node_urls(inner(n.previous->0)), n.url, url); }
}
proof fn stack_lemma<I>(s: ProcessingStack<I>)
    ensures s.head is Some == (urls(s).len() > 0),
{
    if s.head is Some { node_lemma(inner(s.head->0), inner(s.head->0).url); }
}
/// in an acyclic chain over finitely many documents the depth is bounded by their number
proof fn depth_bounded<I>(s: ProcessingStack<I>, documents: Set<I>)
    requires acyclic(s), documents.finite(), forall|i: int| 0 <= i < urls(s).len() ==> documents.contains(#[trigger] urls(s)[i]),
    ensures urls(s).len() <= documents.len(),
{
    urls(s).unique_seq_to_set();
    vstd::set_lib::lemma_len_subset(urls(s).to_set(), documents);
}

impl<I> StackNode<I> {
//@ extract fn impl StackNode > new from crates/context-processing/src/stack.rs
//@ ret r
//@ spec
    ensures r.previous == previous, r.url == url,
//@ end
//@ extract fn impl StackNode > contains from crates/context-processing/src/stack.rs
//@ ret r
//@ start
    proof { reveal(vstd::laws_eq::obeys_concrete_eq); node_lemma(*self, *url); }
//@ spec
    requires vstd::laws_eq::obeys_concrete_eq::<I>(),
    ensures r == node_urls(*self).contains(*url),
    decreases self,
//@ end
}
impl<I> ProcessingStack<I> {
//@ extract fn impl ProcessingStack > new from crates/context-processing/src/stack.rs
//@ ret r
//@ spec
    ensures urls(r) == Seq::<I>::empty(), acyclic(r),
//@ end
//@ extract fn impl ProcessingStack > is_empty from crates/context-processing/src/stack.rs
//@ ret r
//@ start
    proof { stack_lemma(*self); }
//@ spec
    ensures r == (urls(*self).len() == 0),
//@ end
//@ extract fn impl ProcessingStack > cycle from crates/context-processing/src/stack.rs
//@ ret r
//@ spec
    requires vstd::laws_eq::obeys_concrete_eq::<I>(),
    ensures r == urls(*self).contains(*url),
//@ end
//@ extract fn impl ProcessingStack > push from crates/context-processing/src/stack.rs
//@ ret r
//@ tail bool
    proof {
        let o = urls(*old(self));
        if vx_r { assert(urls(*self) =~= o.push(url)); }
    }
//@ spec
    requires vstd::laws_eq::obeys_concrete_eq::<I>(), acyclic(*old(self)),
    ensures
        r == !urls(*old(self)).contains(url),
        acyclic(*final(self)),
        r ==> urls(*final(self)) == urls(*old(self)).push(url),
        !r ==> *final(self) == *old(self),
//@ end
}
}
fn main() {}
