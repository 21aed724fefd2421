#![allow(warnings)]
use vstd::prelude::*;
use vstd::multiset::Multiset as Bag;
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl};
verus! {
//@ vacuity-decls

// ---- specification --------------------------------------------------------------------------
/// what `==` decides
pub open spec fn eqv<T: PartialEq<U>, U>(a: &T, b: &U) -> bool { PartialEqSpec::eq_spec(a, b) }
pub open spec fn obeys<T: PartialEq<U>, U>() -> bool { <T as PartialEqSpec<U>>::obeys_eq_spec() }
pub open spec fn eqr<T: PartialEq<U>, U>() -> spec_fn(T, U) -> bool { |a: T, b: U| eqv(&a, &b) }
/// `f` and `g` number the equality classes of `==` between `T` and `U`
pub open spec fn classes<T, U>(rel: spec_fn(T, U) -> bool, f: spec_fn(T) -> int, g: spec_fn(U) -> int) -> bool {
    forall|a: T, b: U| rel(a, b) <==> #[trigger] f(a) == #[trigger] g(b)
}
/// how many members of each class a sequence has: all that may matter when order does not
pub open spec fn bag<T>(s: Seq<T>, f: spec_fn(T) -> int) -> Bag<int> { s.map_values(f).to_multiset() }
/// equality up to order
pub open spec fn same_bag<T, U>(rel: spec_fn(T, U) -> bool, a: Seq<T>, b: Seq<U>) -> bool {
    forall|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g) ==> bag(a, f) == bag(b, g)
}
pub open spec fn some_classes<T, U>(rel: spec_fn(T, U) -> bool) -> bool {
    exists|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g)
}

/// the members of `b` that are still free
pub open spec fn rest<U>(b: Seq<U>, g: spec_fn(U) -> int, free: Seq<bool>, n: nat) -> Bag<int>
    decreases n,
{
    if n == 0 { Bag::empty() } else {
        let m = rest(b, g, free, (n - 1) as nat);
        if free[n - 1] { m.insert(g(b[n - 1])) } else { m }
    }
}
proof fn bag_push<T>(s: Seq<T>, x: T, f: spec_fn(T) -> int)
    ensures bag(s.push(x), f) == bag(s, f).insert(f(x)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.push(x).map_values(f) =~= s.map_values(f).push(f(x)));
}
proof fn bag_empty<T>(s: Seq<T>, f: spec_fn(T) -> int)
    requires s.len() == 0,
    ensures bag(s, f) == Bag::<int>::empty(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(bag(s, f).len() == 0);
    assert(bag(s, f) =~= Bag::empty());
}
proof fn rest_all<U>(b: Seq<U>, g: spec_fn(U) -> int, free: Seq<bool>, n: nat)
    requires n <= b.len(), forall|j: int| 0 <= j < n ==> free[j],
    ensures rest(b, g, free, n) == bag(b.take(n as int), g),
    decreases n,
{
    if n == 0 { bag_empty(b.take(0), g); } else {
        rest_all(b, g, free, (n - 1) as nat);
        assert(b.take(n as int) =~= b.take(n - 1).push(b[n - 1]));
        bag_push(b.take(n - 1), b[n - 1], g);
    }
}
proof fn rest_use<U>(b: Seq<U>, g: spec_fn(U) -> int, free: Seq<bool>, j: int, n: nat)
    requires 0 <= j < n <= free.len(), free[j],
    ensures rest(b, g, free, n) == rest(b, g, free.update(j, false), n).insert(g(b[j])),
    decreases n,
{
    let h = free.update(j, false);
    if j == n - 1 {
        rest_same(b, g, free, h, j as nat);
    } else {
        rest_use(b, g, free, j, (n - 1) as nat);
        let m = rest(b, g, h, (n - 1) as nat);
        if free[n - 1] { assert(m.insert(g(b[j])).insert(g(b[n - 1])) =~= m.insert(g(b[n - 1])).insert(g(b[j]))); }
    }
}
proof fn rest_same<U>(b: Seq<U>, g: spec_fn(U) -> int, x: Seq<bool>, y: Seq<bool>, n: nat)
    requires forall|j: int| 0 <= j < n ==> x[j] == y[j],
    ensures rest(b, g, x, n) == rest(b, g, y, n),
    decreases n,
{ if n > 0 { rest_same(b, g, x, y, (n - 1) as nat); } }
proof fn rest_none<U>(b: Seq<U>, g: spec_fn(U) -> int, free: Seq<bool>, c: int, n: nat)
    requires forall|j: int| 0 <= j < n && free[j] ==> g(b[j]) != c,
    ensures rest(b, g, free, n).count(c) == 0,
    decreases n,
{ if n > 0 { rest_none(b, g, free, c, (n - 1) as nat); } }
proof fn bag_prefix<T>(s: Seq<T>, f: spec_fn(T) -> int, k: int, c: int)
    requires 0 <= k <= s.len(),
    ensures bag(s.take(k), f).count(c) <= bag(s, f).count(c),
    decreases s.len() - k,
{
    if k < s.len() {
        assert(s.take(k + 1) =~= s.take(k).push(s[k]));
        bag_push(s.take(k), s[k], f);
        bag_prefix(s, f, k + 1, c);
    } else { assert(s.take(k) =~= s); }
}
/// what the search for partners keeps true: what was matched and what is free make up `b`
pub open spec fn matched<T, U>(rel: spec_fn(T, U) -> bool, a: Seq<T>, k: int, b: Seq<U>, free: Seq<bool>) -> bool {
    forall|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g) ==> bag(a.take(k), f).add(rest(b, g, free, b.len())) == bag(b, g)
}
proof fn matched_start<T, U>(rel: spec_fn(T, U) -> bool, a: Seq<T>, b: Seq<U>, free: Seq<bool>)
    requires forall|j: int| 0 <= j < b.len() ==> free[j],
    ensures matched(rel, a, 0, b, free),
{
    assert forall|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g) implies bag(a.take(0), f).add(rest(b, g, free, b.len())) == bag(b, g) by {
        rest_all(b, g, free, b.len());
        bag_empty(a.take(0), f);
        assert(b.take(b.len() as int) =~= b);
        assert(Bag::<int>::empty().add(bag(b, g)) =~= bag(b, g));
    }
}
proof fn matched_step<T, U>(rel: spec_fn(T, U) -> bool, a: Seq<T>, k: int, b: Seq<U>, free: Seq<bool>, j: int)
    requires matched(rel, a, k, b, free), 0 <= k < a.len(), 0 <= j < b.len(), free.len() == b.len(), free[j], rel(a[k], b[j]),
    ensures matched(rel, a, k + 1, b, free.update(j, false)),
{
    assert forall|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g) implies bag(a.take(k + 1), f).add(rest(b, g, free.update(j, false), b.len())) == bag(b, g) by {
        rest_use(b, g, free, j, b.len());
        assert(a.take(k + 1) =~= a.take(k).push(a[k]));
        bag_push(a.take(k), a[k], f);
        assert(f(a[k]) == g(b[j]));
        let m = rest(b, g, free.update(j, false), b.len());
        assert(bag(a.take(k), f).insert(f(a[k])).add(m) =~= bag(a.take(k), f).add(m.insert(g(b[j]))));
    }
}
proof fn matched_stuck<T, U>(rel: spec_fn(T, U) -> bool, a: Seq<T>, k: int, b: Seq<U>, free: Seq<bool>)
    requires matched(rel, a, k, b, free), 0 <= k < a.len(), free.len() == b.len(), forall|j: int| 0 <= j < b.len() && free[j] ==> !rel(a[k], b[j]),
        some_classes(rel),
    ensures !same_bag(rel, a, b),
{
    let (f, g) = choose|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g);
    let c = f(a[k]);
    assert(a.take(k + 1) =~= a.take(k).push(a[k]));
    bag_push(a.take(k), a[k], f);
    bag_prefix(a, f, k + 1, c);
    assert forall|j: int| 0 <= j < b.len() && free[j] implies g(b[j]) != c by { assert(!rel(a[k], b[j])); }
    rest_none(b, g, free, c, b.len());
    assert(bag(b, g).count(c) == bag(a.take(k), f).add(rest(b, g, free, b.len())).count(c));
    assert(bag(a, f).count(c) > bag(b, g).count(c));
}
proof fn matched_all<T, U>(rel: spec_fn(T, U) -> bool, a: Seq<T>, b: Seq<U>, free: Seq<bool>)
    requires matched(rel, a, a.len() as int, b, free), a.len() == b.len(),
    ensures same_bag(rel, a, b),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g) implies bag(a, f) == bag(b, g) by {
        assert(a.take(a.len() as int) =~= a);
        let m = rest(b, g, free, b.len());
        assert(bag(a, f).len() == a.len() && bag(b, g).len() == b.len());
        assert(bag(a, f).add(m).len() == bag(a, f).len() + m.len());
        assert(m.len() == 0);
        assert forall|v: int| m.count(v) == 0 by { if m.count(v) > 0 { assert(m.remove(v).len() == m.len() - 1); } }
        assert(bag(a, f).add(m) =~= bag(a, f));
    }
}
proof fn bag_len<T, U>(rel: spec_fn(T, U) -> bool, a: Seq<T>, b: Seq<U>)
    requires some_classes(rel), same_bag(rel, a, b),
    ensures a.len() == b.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (f, g) = choose|f: spec_fn(T) -> int, g: spec_fn(U) -> int| #[trigger] classes(rel, f, g);
    assert(bag(a, f).len() == a.len() && bag(b, g).len() == b.len());
}
/// equality up to order is an equivalence wherever `==` is one
proof fn law_equivalence<T>(rel: spec_fn(T, T) -> bool, a: Seq<T>, b: Seq<T>, c: Seq<T>, f: spec_fn(T) -> int)
    requires classes(rel, f, f),
    ensures bag(a, f) == bag(a, f), (bag(a, f) == bag(b, f)) == (bag(b, f) == bag(a, f)),
        bag(a, f) == bag(b, f) && bag(b, f) == bag(c, f) ==> bag(a, f) == bag(c, f),
        same_bag(rel, a, b) ==> bag(a, f) == bag(b, f),
{}

// ---- hashing: a hasher is what was fed to it, a digest is a function of that -----------------
pub uninterp spec fn digest(s: Seq<int>) -> u64;
pub trait Hasher {
    spec fn fed(&self) -> Seq<int>;
    fn write_u64(&mut self, x: u64) ensures final(self).fed() == old(self).fed().push(x as int);
    fn finish(&self) -> (r: u64) ensures r == digest(self.fed());
}
pub trait Hash {
    spec fn hseq(&self) -> Seq<int>;
    fn hash<H: Hasher>(&self, h: &mut H) ensures final(h).fed() == old(h).fed() + self.hseq();
}
#[verifier::external_body]
pub struct DefaultHasher { x: u8 }
impl Hasher for DefaultHasher {
    uninterp spec fn fed(&self) -> Seq<int>;
    #[verifier::external_body]
    fn write_u64(&mut self, x: u64) { unimplemented!() }
    #[verifier::external_body]
    fn finish(&self) -> (r: u64) { unimplemented!() }
}
impl DefaultHasher {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fed() == Seq::<int>::empty() { unimplemented!() }
}
/// std::hash::BuildHasher: `hash_one` feeds the value to a new hasher and finishes it
pub trait BuildHasher {
    fn hash_one<T: Hash>(&self, x: &T) -> (r: u64) ensures r == digest(x.hseq());
}
/// the sum of the digests, modulo 2^64
pub open spec fn wsum<T: Hash>(s: Seq<T>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { (wsum(s.drop_last()) + digest(s.last().hseq()) as int) % 0x1_0000_0000_0000_0000 } }
pub open spec fn dsum(m: Seq<int>) -> int
    decreases m.len(),
{ if m.len() == 0 { 0 } else { (dsum(m.drop_last()) + m.last()) % 0x1_0000_0000_0000_0000 } }
/// removing one member anywhere takes its digest out of the sum
proof fn dsum_remove(s: Seq<int>, i: int)
    requires 0 <= i < s.len(),
    ensures dsum(s) == (dsum(s.remove(i)) + s[i]) % 0x1_0000_0000_0000_0000,
    decreases s.len(),
{
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        dsum_remove(s.drop_last(), i);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        let d = dsum(s.drop_last().remove(i));
        let (x, y) = (s[i], s.last());
        assert(((d + x) % 0x1_0000_0000_0000_0000int + y) % 0x1_0000_0000_0000_0000int == ((d + y) % 0x1_0000_0000_0000_0000int + x) % 0x1_0000_0000_0000_0000int);
    }
}
/// the sum does not depend on the order
proof fn dsum_bag(a: Seq<int>, b: Seq<int>)
    requires a.to_multiset() == b.to_multiset(),
    ensures dsum(a) == dsum(b),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    if a.len() > 0 {
        let x = a.last();
        assert(a.to_multiset().count(x) > 0) by { assert(a.contains(x)); }
        assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        dsum_remove(b, i);
        dsum_remove(a, a.len() - 1);
        assert(a.remove(a.len() - 1) =~= a.drop_last());
        assert(a.remove(a.len() - 1).to_multiset() =~= a.to_multiset().remove(x));
        assert(b.remove(i).to_multiset() =~= b.to_multiset().remove(x));
        dsum_bag(a.drop_last(), b.remove(i));
    }
}
pub open spec fn digests<T: Hash>(s: Seq<T>) -> Seq<int> { s.map_values(|x: T| digest(x.hseq()) as int) }
proof fn wsum_dsum<T: Hash>(s: Seq<T>)
    ensures wsum(s) == dsum(digests(s)), 0 <= wsum(s) <= u64::MAX,
    decreases s.len(),
{
    if s.len() > 0 {
        wsum_dsum(s.drop_last());
        assert(digests(s).drop_last() =~= digests(s.drop_last()));
        assert(digests(s).last() == digest(s.last().hseq()) as int);
    }
}
proof fn digests_push<T: Hash>(s: Seq<T>, x: T)
    ensures wsum(s.push(x)) == (wsum(s) + digest(x.hseq()) as int) % 0x1_0000_0000_0000_0000,
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); }
/// members that are equal feed the hasher the same
pub open spec fn hash_law<T: Hash>(f: spec_fn(T) -> int) -> bool {
    forall|x: T, y: T| #[trigger] f(x) == #[trigger] f(y) ==> x.hseq() == y.hseq()
}
/// sequences with the same classes have the same sum of digests: equal multisets hash alike
proof fn law_hash<T: Hash>(a: Seq<T>, b: Seq<T>, f: spec_fn(T) -> int)
    requires hash_law(f), bag(a, f) == bag(b, f),
    ensures wsum(a) == wsum(b),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(bag(a, f).len() == a.len() && bag(b, f).len() == b.len());
    if a.len() > 0 {
        let fa = a.map_values(f);
        let fb = b.map_values(f);
        let x = fa.last();
        assert(fa.contains(x));
        assert(fa.to_multiset().count(x) > 0);
        assert(fb.contains(x));
        let i = choose|i: int| 0 <= i < fb.len() && fb[i] == x;
        assert(f(a.last()) == f(b[i]));
        assert(fa.remove(a.len() - 1) =~= a.drop_last().map_values(f));
        assert(fb.remove(i) =~= b.remove(i).map_values(f));
        assert(fa.remove(a.len() - 1).to_multiset() =~= fa.to_multiset().remove(x));
        assert(fb.remove(i).to_multiset() =~= fb.to_multiset().remove(x));
        law_hash(a.drop_last(), b.remove(i), f);
        wsum_dsum(b);
        wsum_dsum(b.remove(i));
        dsum_remove(digests(b), i);
        assert(digests(b).remove(i) =~= digests(b.remove(i)));
    }
}

pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures obeys::<T, T>() ==> r == exists|i: int| 0 <= i < s@.len() && eqv(&#[trigger] s@[i], x);

// ---- the multiset -----------------------------------------------------------------------------
//@ extract struct Multiset from crates/core/src/object/node/multiset.rs
//@ subst <T, S = DeterministicHasherBuilder> => <T, S>
//@ end
impl<T, S: Default> Multiset<T, S> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.data@ == Seq::<T>::empty() { unimplemented!() }
}
impl<T, S> Multiset<T, S> {
//@ extract fn impl Multiset > new from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == Seq::<T>::empty(),
//@ end
//@ extract fn impl Multiset > len from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r == self.data@.len(),
//@ end
//@ extract fn impl Multiset > is_empty from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r == (self.data@.len() == 0),
//@ end
//@ extract fn impl Multiset > contains from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    requires obeys::<T, T>(),
    ensures r == exists|i: int| 0 <= i < self.data@.len() && eqv(&#[trigger] self.data@[i], value),
//@ end
//@ extract fn impl Multiset > as_slice from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r@ == self.data@,
//@ end
}
impl<T: Hash, S: BuildHasher> Multiset<T, S> {
//@ extract fn impl Multiset > singleton from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures r.data@ == seq![value],
//@ end
//@ extract fn impl Multiset > insert from crates/core/src/object/node/multiset.rs
//@ spec
    ensures final(self).data@ == old(self).data@.push(value),
//@ end
//@ extract fn impl Multiset > insert_unique from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    requires obeys::<T, T>(),
    ensures r == !exists|i: int| 0 <= i < old(self).data@.len() && eqv(&#[trigger] old(self).data@[i], &value),
        final(self).data@ == (if r { old(self).data@.push(value) } else { old(self).data@ }),
//@ end
}
//@ extract fn compare_unordered from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures obeys::<T, U>() && some_classes(eqr::<T, U>()) ==> r == same_bag(eqr::<T, U>(), a@, b@),
//@ start
    let ghost rel = eqr::<T, U>();
    let ghost ok = obeys::<T, U>() && some_classes(rel);
    proof { if ok && same_bag(rel, a@, b@) { bag_len(rel, a@, b@); } }
//@ loop 0 iter it
//@ before "for item in a"
    proof { matched_start(rel, a@, b@, free_indexes@); if a@.len() == 0 { matched_all(rel, a@, b@, free_indexes@); } }
//@ loop 0
    invariant
        rel == eqr::<T, U>(), ok == (obeys::<T, U>() && some_classes(rel)), a@.len() == b@.len(), free_indexes@.len() == b@.len(),
        ok ==> matched(rel, a@, it.index@, b@, free_indexes@), ok && it.index@ == a@.len() ==> same_bag(rel, a@, b@),
//@ loop 0 body-start
    let ghost k = it.index@;
    let ghost before = free_indexes@;
//@ desugar-find 0
    invariant_except_break !vx_found,
    invariant
        ok ==> obeys::<T, U>(), 0 <= vx_i <= free_indexes@.len(), free_indexes@.len() == b@.len(), free_indexes@ == before,
        ok && !vx_found ==> forall|j: int| 0 <= j < vx_i && before[j] ==> !eqv(item, &#[trigger] b@[j]),
        vx_found ==> vx_i < b@.len() && before[vx_i as int], ok && vx_found ==> eqv(item, &b@[vx_i as int]),
    ensures
        vx_found || vx_i == free_indexes@.len(),
    decreases free_indexes@.len() - vx_i,
after:
    proof { if ok && !vx_found { matched_stuck(rel, a@, k, b@, before); } }
//@ loop 0 body-end
    proof {
        if ok {
        assert(exists|j: int| 0 <= j < b@.len() && before[j] && eqv(&a@[k], &b@[j]) && free_indexes@ == before.update(j, false));
        let j = choose|j: int| 0 <= j < b@.len() && before[j] && eqv(&a@[k], &b@[j]) && free_indexes@ == before.update(j, false);
        matched_step(rel, a@, k, b@, before, j);
        if k + 1 == a@.len() { matched_all(rel, a@, b@, free_indexes@); }
        }
    }
//@ end
//@ extract fn compare_unordered_opt from crates/core/src/object/node/multiset.rs
//@ ret r
//@ spec
    ensures obeys::<T, U>() && some_classes(eqr::<T, U>()) ==> r == same_opt(a, b),
//@ end
impl<T: PartialEq<U>, U, S, P> PartialEqSpecImpl<Multiset<U, P>> for Multiset<T, S> {
    open spec fn obeys_eq_spec() -> bool { obeys::<T, U>() && some_classes(eqr::<T, U>()) }
    open spec fn eq_spec(&self, o: &Multiset<U, P>) -> bool { same_bag(eqr::<T, U>(), self.data@, o.data@) }
}
impl<T: PartialEq<U>, U, S, P> PartialEq<Multiset<U, P>> for Multiset<T, S> {
//@ extract fn impl PartialEq for Multiset > eq from crates/core/src/object/node/multiset.rs
//@ end
}
impl<T: Hash, S: BuildHasher> Hash for Multiset<T, S> {
    open spec fn hseq(&self) -> Seq<int> { seq![wsum(self.data@)] }
//@ extract fn impl Hash for Multiset > hash from crates/core/src/object/node/multiset.rs
//@ subst std::hash::Hasher => Hasher
//@ subst in self => in it: self.as_slice()
//@ start
    proof { assert forall|x: int| #[trigger] old(state).fed().push(x) =~= old(state).fed() + seq![x] by {} assert(self.data@.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant
        hash == wsum(self.data@.take(it.index@)), it.index@ == self.data@.len() ==> hash == wsum(self.data@), state.fed() == old(state).fed(),
//@ loop 0 body-start
    proof { let k = it.index@; if k + 1 == self.data@.len() { assert(self.data@.take(k + 1) =~= self.data@); } assert(self.data@.take(it.index@ + 1) =~= self.data@.take(it.index@).push(self.data@[it.index@])); digests_push(self.data@.take(it.index@), self.data@[it.index@]); wsum_dsum(self.data@.take(it.index@)); }
//@ end
}
pub open spec fn same_opt<T: PartialEq<U>, U>(a: Option<&[T]>, b: Option<&[U]>) -> bool {
    match (a, b) { (Some(x), Some(y)) => same_bag(eqr::<T, U>(), x@, y@), (None, None) => true, _ => false }
}

// ---- sets and maps: what iterating them yields is a sequence -----------------------------------
pub trait IntoIterator: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
    fn each(self) -> (r: Vec<Self::Item>) ensures r@ == self.items();
}
impl<A: Hash> Hash for &A {
    open spec fn hseq(&self) -> Seq<int> { (**self).hseq() }
    fn hash<H: Hasher>(&self, h: &mut H) { (**self).hash(h) }
}
impl<A: Hash, B: Hash> Hash for (A, B) {
    open spec fn hseq(&self) -> Seq<int> { self.0.hseq() + self.1.hseq() }
    fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h); self.1.hash(h); proof { assert(old(h).fed() + self.0.hseq() + self.1.hseq() =~= old(h).fed() + self.hseq()); } }
}
//@ extract fn hash_set from crates/core/src/utils/hash.rs
//@ subst in set => in it: set.each()
//@ start
    proof { assert forall|x: int| #[trigger] old(hasher).fed().push(x) =~= old(hasher).fed() + seq![x] by {} assert(set.items().take(0) =~= Seq::empty()); }
//@ spec
    ensures final(hasher).fed() == old(hasher).fed() + seq![wsum(set.items())],
//@ loop 0
    invariant
        hash == wsum(set.items().take(it.index@)), it.index@ == set.items().len() ==> hash == wsum(set.items()), hasher.fed() == old(hasher).fed(),
//@ loop 0 body-start
    let ghost k = it.index@;
    proof { if k + 1 == set.items().len() { assert(set.items().take(k + 1) =~= set.items()); } assert(set.items().take(k + 1) =~= set.items().take(k).push(set.items()[k])); digests_push(set.items().take(k), set.items()[k]); wsum_dsum(set.items().take(k)); assert(Seq::<int>::empty() + item.hseq() =~= item.hseq()); }
//@ end
//@ extract fn hash_set_opt from crates/core/src/utils/hash.rs
//@ spec
    ensures final(hasher).fed() == old(hasher).fed() + opt_set(set_opt),
//@ end
pub open spec fn opt_set<S: IntoIterator>(o: Option<S>) -> Seq<int> where S::Item: Hash {
    match o { Some(s) => seq![wsum(s.items())], None => Seq::empty() }
}
//@ extract fn hash_map from crates/core/src/utils/hash.rs
//@ subst map: impl 'a + IntoIterator<Item = (&'a K, &'a V)> => map: M
//@ subst H: Hasher> => H: Hasher, M: IntoIterator<Item = (&'a K, &'a V)>>
//@ subst in map => in it: map.each()
//@ start
    proof { assert forall|x: int| #[trigger] old(hasher).fed().push(x) =~= old(hasher).fed() + seq![x] by {} assert(map.items().take(0) =~= Seq::empty()); }
//@ spec
    ensures final(hasher).fed() == old(hasher).fed() + seq![wsum(map.items())],
//@ loop 0
    invariant
        hash == wsum(map.items().take(it.index@)), it.index@ == map.items().len() ==> hash == wsum(map.items()), hasher.fed() == old(hasher).fed(),
//@ loop 0 body-start
    let ghost k = it.index@;
    proof { if k + 1 == map.items().len() { assert(map.items().take(k + 1) =~= map.items()); } assert(map.items().take(k + 1) =~= map.items().take(k).push(map.items()[k])); digests_push(map.items().take(k), map.items()[k]); wsum_dsum(map.items().take(k)); assert(Seq::<int>::empty() + entry.hseq() =~= entry.hseq()); }
//@ end

// ---- equality under a renaming of blank nodes -----------------------------------------------------
/// the renaming: `F: Clone + Fn(&B) -> &B`
pub trait Renaming: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub trait MappedEq: Sized {
    spec fn meq<F>(self, o: Self, f: F) -> bool;
    fn mapped_eq<F: Renaming>(&self, o: &Self, f: F) -> (r: bool) ensures r == self.meq(*o, f);
}
pub open spec fn mrel<T: MappedEq, F>(fun: F) -> spec_fn(T, T) -> bool { |a: T, b: T| a.meq(b, fun) }
/// the members an iterator has yet to yield
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Each<'a, T> { x: &'a T }
impl<'a, T> Each<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<&'a T>) ensures r@.len() == self.rest().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.rest()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
/// a collection that yields references to its members
pub trait UnorderedMappedEq: Sized {
    type Item: MappedEq;
    spec fn members(self) -> Seq<Self::Item>;
    fn len(&self) -> (r: usize) ensures r == self.members().len();
    fn into_iter<'a>(&'a self) -> (r: Each<'a, Self::Item>) ensures r.rest() == self.members();
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn trait UnorderedMappedEq > unordered_mapped_eq from crates/core/src/object/mapped_eq.rs
//@ subst F: Clone + Fn(&'a <Self::Item as MappedEq>::BlankId) -> &'b <Self::Item as MappedEq>::BlankId, => F: Renaming,
//@ subst where => /* where
//@ subst <Self::Item as MappedEq>::BlankId: 'a + 'b, => */
//@ ret r
//@ spec
    ensures some_classes(mrel::<Self::Item, F>(f)) ==> r == same_bag(mrel::<Self::Item, F>(f), self.members(), other.members()),
//@ start
    let ghost rel = mrel::<Self::Item, F>(f);
    let ghost ok = some_classes(rel);
    let ghost (a, b) = (self.members(), other.members());
    proof { if ok && same_bag(rel, a, b) { bag_len(rel, a, b); } }
    let ghost mut k = 0int;
    let ghost mut free = Seq::new(b.len(), |i: int| true);
    proof { matched_start(rel, a, b, free); if a.len() == 0 && b.len() == 0 { matched_all(rel, a, b, free); } }
//@ desugar-for 0 it
    invariant
        rel == mrel::<Self::Item, F>(f), ok == some_classes(rel), a == self.members(), b == other.members(), a.len() == b.len(), selected@.len() == b.len(),
        other_vec@.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> *#[trigger] other_vec@[i] == b[i],
        0 <= k <= a.len(), it.rest() == a.skip(k),
        free.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] free[i] == !selected@[i],
        ok ==> matched(rel, a, k, b, free), ok && k == a.len() ==> same_bag(rel, a, b),
    ensures k == a.len(),
    decreases it.rest().len(),
//@ loop 0 body-start
    let ghost n = k;
    proof { assert(a.skip(n).skip(1) =~= a.skip(n + 1)); k = n + 1; }
//@ desugar-slots 1
    invariant
        rel == mrel::<Self::Item, F>(f), ok == some_classes(rel), a == self.members(), b == other.members(), a.len() == b.len(), selected@.len() == b.len(),
        other_vec@.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> *#[trigger] other_vec@[i] == b[i],
        0 <= n < a.len(), k == n + 1, it.rest() == a.skip(k), *item == a[n],
        free.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] free[i] == !selected@[i],
        ok ==> matched(rel, a, n, b, free), 0 <= vx_k <= b.len(),
        forall|j: int| 0 <= j < vx_k && free[j] ==> !rel(a[n], #[trigger] b[j]),
    decreases selected@.len() - vx_k,
//@ before "continue 'self_items"
    proof {
        let was = free;
        free = free.update(i as int, false);
        if ok {
            matched_step(rel, a, n, b, was, i as int);
            if n + 1 == a.len() { matched_all(rel, a, b, free); }
        }
    }
//@ before "return false" #0
    proof { if ok { matched_stuck(rel, a, n, b, free); } }
//@ end
}

// ---- node objects -----------------------------------------------------------------------------------
pub mod multiset { pub(crate) use super::compare_unordered_opt; }
pub mod utils { pub(crate) use super::hash_set_opt; }
pub assume_specification<T: std::ops::Deref> [Option::<T>::as_deref] (o: &Option<T>) -> (r: Option<&T::Target>)
    ensures r is Some == o is Some, o is Some ==> call_ensures(T::deref, (&o->0,), r->0);
/// Id, Graph (a set of objects), Included (a set of nodes), Properties, ReverseProperties: each with its own `==` and `hash`
macro_rules! component { ($($t:ident, $d:tt);*) => { verus!{ $(
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
    pub struct $t<T, B> { x: core::marker::PhantomData<(T, B)> }
    impl<T, B> PartialEqSpecImpl for $t<T, B> { open spec fn obeys_eq_spec() -> bool { true } uninterp spec fn eq_spec(&self, o: &Self) -> bool; }
    impl<T, B> PartialEq for $t<T, B> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl<T, B> Hash for $t<T, B> { uninterp spec fn hseq(&self) -> Seq<int>; #[verifier::external_body] fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() } }
)* } } }
component!{ Id, (); Object, (); Properties, (); ReverseProperties, (); Graph, (); Included, () }
impl<T, B> Graph<T, B> { pub uninterp spec fn members(self) -> Seq<Object<T, B>>; }
impl<T, B> Included<T, B> { pub uninterp spec fn members(self) -> Seq<Object<T, B>>; }
macro_rules! set { ($($t:ident, $d:tt);*) => { verus!{ $(
    impl<T, B> IntoIterator for &$t<T, B> {
        type Item = Object<T, B>;
        open spec fn items(self) -> Seq<Object<T, B>> { self.members() }
        #[verifier::external_body] fn each(self) -> Vec<Object<T, B>> { unimplemented!() }
    }
)* } } }
set!{ Graph, (); Included, () }
impl<A> IntoIterator for &Vec<A> {
    type Item = A;
    open spec fn items(self) -> Seq<A> { self@ }
    #[verifier::external_body] fn each(self) -> Vec<A> { unimplemented!() }
}
impl<X: Hash> Hash for Option<X> {
    uninterp spec fn hseq(&self) -> Seq<int>;
    #[verifier::external_body] fn hash<H: Hasher>(&self, h: &mut H) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
pub open spec fn oref<A>(o: &Option<A>) -> Option<&A> { match o { Some(x) => Some(x), None => None } }
/// two nodes are the same when every one of their entries is
pub open spec fn same_node<T, B>(a: Node<T, B>, b: Node<T, B>) -> bool {
    &&& eqv(&a.id, &b.id)
    &&& match (a.types, b.types) { (Some(x), Some(y)) => same_bag(eqr::<Id<T, B>, Id<T, B>>(), x@, y@), (None, None) => true, _ => false }
    &&& eqv(&a.graph, &b.graph) && eqv(&a.included, &b.included)
    &&& eqv(&a.properties, &b.properties) && eqv(&a.reverse_properties, &b.reverse_properties)
}
impl<T, B> PartialEqSpecImpl for Node<T, B> {
    open spec fn obeys_eq_spec() -> bool { some_classes(eqr::<Id<T, B>, Id<T, B>>()) }
    open spec fn eq_spec(&self, o: &Node<T, B>) -> bool { same_node(*self, *o) }
}
impl<T, B> PartialEq for Node<T, B> {
//@ extract fn impl PartialEq for Node > eq from crates/core/src/object/node/mod.rs
//@ end
}
impl<T, B> Hash for Node<T, B> {
    open spec fn hseq(&self) -> Seq<int> {
        self.id.hseq() + opt_set(oref(&self.types)) + opt_set(oref(&self.graph)) + opt_set(oref(&self.included)) + self.properties.hseq() + self.reverse_properties.hseq()
    }
//@ extract fn impl Hash for Node > hash from crates/core/src/object/node/mod.rs
//@ end
}
/// equal nodes hash alike, as soon as the components' equal values do
proof fn law_node_hash<T, B>(a: Node<T, B>, b: Node<T, B>, f: spec_fn(Id<T, B>) -> int, g: spec_fn(Object<T, B>) -> int)
    requires
        same_node(a, b), classes(eqr::<Id<T, B>, Id<T, B>>(), f, f), hash_law(f), hash_law(g),
        forall|x: Option<Id<T, B>>, y: Option<Id<T, B>>| #[trigger] eqv(&x, &y) ==> x.hseq() == y.hseq(),
        forall|x: Properties<T, B>, y: Properties<T, B>| #[trigger] eqv(&x, &y) ==> x.hseq() == y.hseq(),
        forall|x: Option<ReverseProperties<T, B>>, y: Option<ReverseProperties<T, B>>| #[trigger] eqv(&x, &y) ==> x.hseq() == y.hseq(),
        forall|x: Graph<T, B>, y: Graph<T, B>| #[trigger] eqv(&x, &y) ==> bag(x.members(), g) == bag(y.members(), g),
        forall|x: Included<T, B>, y: Included<T, B>| #[trigger] eqv(&x, &y) ==> bag(x.members(), g) == bag(y.members(), g),
    ensures a.hseq() == b.hseq(),
{
    if a.types is Some { law_hash(a.types->0@, b.types->0@, f); }
    if a.graph is Some { assert(eqv(&a.graph->0, &b.graph->0)); law_hash(a.graph->0.members(), b.graph->0.members(), g); }
    if a.included is Some { assert(eqv(&a.included->0, &b.included->0)); law_hash(a.included->0.members(), b.included->0.members(), g); }
}

fn main() {}
}
