#![allow(warnings)]
use vstd::prelude::*;
verus! {
//@ vacuity-decls

// ---- types extracted from the repository -------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum ContainerKind from crates/syntax/src/container.rs
//@ end
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
// the repository's two types called `Container` live in different crates; the syntax one is renamed here
//@ extract enum Container from crates/syntax/src/container.rs
//@ subst enum Container => enum SynContainer
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum TypeContainer from crates/syntax/src/context/definition/type_.rs
//@ end
pub struct InvalidContainer;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Container from crates/core/src/container.rs
//@ end

// ---- specification ------------------------------------------------------------------------
/// Does the container mapping `c` (a set of kinds) contain the kind `k`?
pub open spec fn has(c: Container, k: ContainerKind) -> bool {
    match k {
        ContainerKind::Graph => c == Container::Graph || c == Container::GraphSet || c == Container::GraphId
            || c == Container::GraphIndex || c == Container::GraphIdSet || c == Container::GraphIndexSet,
        ContainerKind::Id => c == Container::Id || c == Container::GraphId || c == Container::IdSet || c == Container::GraphIdSet,
        ContainerKind::Index => c == Container::Index || c == Container::GraphIndex || c == Container::IndexSet || c == Container::GraphIndexSet,
        ContainerKind::Language => c == Container::Language || c == Container::LanguageSet,
        ContainerKind::List => c == Container::List,
        ContainerKind::Set => c == Container::Set || c == Container::GraphSet || c == Container::IdSet || c == Container::IndexSet
            || c == Container::LanguageSet || c == Container::SetType || c == Container::GraphIdSet || c == Container::GraphIndexSet,
        ContainerKind::Type => c == Container::Type || c == Container::SetType,
    }
}
pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
pub open spec fn count(c: Container) -> nat {
    b2n(has(c, ContainerKind::Graph)) + b2n(has(c, ContainerKind::Id)) + b2n(has(c, ContainerKind::Index))
        + b2n(has(c, ContainerKind::Language)) + b2n(has(c, ContainerKind::List)) + b2n(has(c, ContainerKind::Set))
        + b2n(has(c, ContainerKind::Type))
}
/// JSON-LD 1.1, 9.15.1: the combinations of kinds a container mapping may have.
pub open spec fn valid(g: bool, id: bool, ix: bool, la: bool, li: bool, st: bool, ty: bool) -> bool {
    if li { !g && !id && !ix && !la && !st && !ty }      // @list stands alone
    else if g { !la && !ty && !(id && ix) }              // @graph, at most one of @id and @index, optional @set
    else {                                               // at most one of these, optional @set
        !(id && ix) && !(id && la) && !(id && ty) && !(ix && la) && !(ix && ty) && !(la && ty)
    }
}
pub open spec fn valid_pred(p: spec_fn(ContainerKind) -> bool) -> bool {
    valid(p(ContainerKind::Graph), p(ContainerKind::Id), p(ContainerKind::Index), p(ContainerKind::Language),
        p(ContainerKind::List), p(ContainerKind::Set), p(ContainerKind::Type))
}
pub open spec fn plus(c: Container, k: ContainerKind) -> spec_fn(ContainerKind) -> bool {
    |x: ContainerKind| has(c, x) || x == k
}
pub open spec fn valid_seq(s: Seq<ContainerKind>) -> bool { valid_pred(|k: ContainerKind| s.contains(k)) }
/// `c` stands for exactly the kinds in `s`
pub open spec fn stands_for(c: Container, s: Seq<ContainerKind>) -> bool {
    forall|k: ContainerKind| #![trigger has(c, k)] #![trigger s.contains(k)] has(c, k) == s.contains(k)
}
pub open spec fn syn_kinds(c: Nullable<&SynContainer>) -> Seq<ContainerKind> {
    match c {
        Nullable::Null => Seq::empty(),
        Nullable::Some(SynContainer::One(k)) => seq![*k],
        Nullable::Some(SynContainer::Many(m)) => m@,
    }
}
/// lemma: distinct container mappings stand for distinct sets of kinds
proof fn kinds_injective(a: Container, b: Container)
    requires forall|k: ContainerKind| has(a, k) == has(b, k),
    ensures a == b,
{
    assert(has(a, ContainerKind::Graph) == has(b, ContainerKind::Graph));
    assert(has(a, ContainerKind::Id) == has(b, ContainerKind::Id));
    assert(has(a, ContainerKind::Index) == has(b, ContainerKind::Index));
    assert(has(a, ContainerKind::Language) == has(b, ContainerKind::Language));
    assert(has(a, ContainerKind::List) == has(b, ContainerKind::List));
    assert(has(a, ContainerKind::Set) == has(b, ContainerKind::Set));
    assert(has(a, ContainerKind::Type) == has(b, ContainerKind::Type));
}
proof fn kinds_valid(a: Container)
    ensures valid_pred(|x: ContainerKind| has(a, x)),
{}
/// lemma: subsets of a valid set of kinds are valid, so adding kinds one by one fails exactly on invalid sets
proof fn add_one(s: Seq<ContainerKind>, i: int, c: Container)
    requires
        0 <= i < s.len(),
        stands_for(c, s.subrange(0, i)),
    ensures
        !valid_pred(plus(c, s[i])) ==> !valid_seq(s),
        forall|k: ContainerKind| #[trigger] s.subrange(0, i + 1).contains(k) == (has(c, k) || k == s[i]),
{
    let t = s.subrange(0, i);
    let u = s.subrange(0, i + 1);
    assert forall|k: ContainerKind| plus(c, s[i])(k) implies s.contains(k) && u.contains(k) by {
        if has(c, k) {
            assert(t.contains(k));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == k;
            assert(s[j] == k && u[j] == k);
        } else { assert(u[i] == k); }
    }
    assert forall|k: ContainerKind| #[trigger] u.contains(k) implies has(c, k) || k == s[i] by {
        let j = choose|j: int| 0 <= j < u.len() && u[j] == k;
        if j < i { assert(t[j] == k); assert(t.contains(k)); }
    }
}

// derived PartialEq on a field-less enum is equality (checked by Verus for `Structural` derives)
impl vstd::std_specs::cmp::PartialEqSpecImpl for ContainerKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ContainerKind) -> bool { *self == *o }
}

// ---- assumed contracts (std) -----------------------------------------------------------
pub assume_specification<T> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    where T: PartialEq
    ensures vstd::laws_eq::obeys_concrete_eq::<T>() ==> r == s@.contains(*x);

pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    where T: Clone
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);

// ---- functions under contract ------------------------------------------------------------
impl Container {
//@ extract fn impl Container > new from crates/core/src/container.rs
//@ ret r
//@ spec
    ensures stands_for(r, Seq::empty()),
//@ end
//@ extract fn impl From<ContainerKind> for Container > from from crates/core/src/container.rs
//@ rename from_kind
//@ ret r
//@ spec
    ensures forall|k: ContainerKind| #[trigger] has(r, k) == (k == c),
//@ start
    broadcast use vstd::laws_eq::group_laws_eq;
//@ end
//@ extract fn impl From<TypeContainer> for Container > from from crates/core/src/container.rs
//@ rename from_type_container
//@ ret r
//@ spec
    ensures forall|k: ContainerKind| #[trigger] has(r, k) == (k == ContainerKind::Set),
//@ end
//@ extract fn impl Container > with from crates/core/src/container.rs
//@ ret r
//@ subst c.into() => Container::from_kind(c)
//@ spec
    ensures
        r matches Some(n) ==> forall|k: ContainerKind| #[trigger] has(n, k) == (has(*self, k) || k == c),
        r is Some == valid_pred(plus(*self, c)),
//@ start
    broadcast use vstd::laws_eq::group_laws_eq;
//@ end
//@ extract fn impl Container > add from crates/core/src/container.rs
//@ ret r
//@ spec
    ensures
        r ==> forall|k: ContainerKind| #[trigger] has(*final(self), k) == (has(*old(self), k) || k == c),
        !r ==> *final(self) == *old(self),
        r == valid_pred(plus(*old(self), c)),
//@ end
//@ extract fn impl Container > as_slice from crates/core/src/container.rs
//@ ret r
//@ spec
    ensures
        stands_for(*self, r@),
        r@.no_duplicates(),
        r@.len() == count(*self),
//@ start
    broadcast use vstd::laws_eq::group_laws_eq;
//@ end
//@ extract fn impl Container > len from crates/core/src/container.rs
//@ ret r
//@ spec
    ensures r == count(*self),
//@ start
    broadcast use vstd::laws_eq::group_laws_eq;
//@ end
//@ extract fn impl Container > is_empty from crates/core/src/container.rs
//@ ret r
//@ spec
    ensures r == (count(*self) == 0), r == (*self == Container::None),
//@ end
//@ extract fn impl Container > contains from crates/core/src/container.rs
//@ ret r
//@ spec
    ensures r == has(*self, c),
//@ start
    broadcast use vstd::laws_eq::group_laws_eq;
    assert(vstd::laws_eq::obeys_concrete_eq::<ContainerKind>());
//@ end
//@ extract fn impl Container > from_syntax from crates/core/src/container.rs
//@ ret ret
//@ subst json_ld_syntax::Container => SynContainer
//@ subst (*c).into() => Container::from_kind(*c)
//@ spec
    ensures
        ret is Ok == valid_seq(syn_kinds(r)),
        ret matches Ok(c) ==> stands_for(c, syn_kinds(r)),
//@ start
    proof {
        assert(forall|k: ContainerKind| !Seq::<ContainerKind>::empty().contains(k));
        if let Nullable::Some(SynContainer::One(c)) = r { assert(seq![*c][0] == *c); assert(forall|k: ContainerKind| seq![*c].contains(k) ==> k == *c); assert(seq![*c].contains(*c)); }
        if let Nullable::Some(SynContainer::Many(m)) = r { assert(m@.subrange(0, m@.len() as int) =~= m@); }
    }
//@ loop 0 iter it
//@ loop 0
    invariant stands_for(container, m@.subrange(0, it.index@)), syn_kinds(r) == m@,
//@ loop 0 body-start
    let ghost i0 = it.index@;
    assert(*t == m@[i0]);
    proof { add_one(m@, it.index@, container); }
//@ end
//@ extract fn impl Container > into_syntax from crates/core/src/container.rs
//@ ret r
//@ subst json_ld_syntax::Container => SynContainer
//@ spec
    ensures
        r is None == (self == Container::None),
        r matches Some(c) ==> stands_for(self, syn_kinds(Nullable::Some(&c))),
        r matches Some(SynContainer::Many(m)) ==> m@.len() > 1 && m@.no_duplicates(),
//@ start
    assert(forall|k: ContainerKind| seq![k].contains(k)) by { assert(forall|k: ContainerKind| seq![k][0] == k); }
    broadcast use vstd::laws_eq::group_laws_eq;
//@ tail Option<SynContainer>
    proof {
        if let Some(SynContainer::Many(m)) = &vx_r { assert(m@ =~= slice@); }
    }
//@ end
}
}
fn main() {}
