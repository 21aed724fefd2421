#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::HashMap;
use std::hash::{Hash, BuildHasher};
use std::borrow::Borrow;
use vstd::std_specs::hash::*;
use core::alloc::Allocator;
verus! {
//@ vacuity-decls
broadcast use vstd::std_specs::hash::group_hash_axioms;

#[derive(PartialEq, Eq, Hash)]
#[verifier::external_body]
pub struct Key { pub x: String }
#[derive(PartialEq, Eq, Hash, Structural, Clone, Copy)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
#[derive(PartialEq, Eq, Hash)]
//@ extract enum KeyOrKeyword from crates/syntax/src/context/definition/key.rs
//@ end
pub enum Error { CyclicIriMapping }
//@ extract struct DefinedTerms from crates/context-processing/src/algorithm/define.rs
//@ end
//@ extract struct DefinedTerm from crates/context-processing/src/algorithm/define.rs
//@ end

// ---- assumed: KeyOrKeyword is a lawful hash map key, its clone is equal to it --------------------
impl Clone for KeyOrKeyword {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
axiom fn key_model() ensures obeys_key_model::<KeyOrKeyword>();
pub assume_specification<'a, 'b, K, V, S, A: Allocator, Q: ?Sized> [HashMap::<K, V, S, A>::get_mut::<Q>] (m: &'a mut HashMap<K, V, S, A>, k: &'b Q) -> (r: Option<&'a mut V>)
    where K: Eq + Hash + Borrow<Q>, Q: Hash + Eq, S: BuildHasher
    ensures
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> (
            r is Some == contains_borrowed_key(old(m)@, k)
            && (r matches Some(v) ==> maps_borrowed_key_to_value(old(m)@, k, *v)
                && final(m)@.dom() == old(m)@.dom()
                && maps_borrowed_key_to_value(final(m)@, k, *final(v))
                && forall|j: K| old(m)@.dom().contains(j) && !vx_borrowed_is(j, k) ==> #[trigger] final(m)@[j] == old(m)@[j])
            && (r is None ==> final(m)@ == old(m)@));
pub uninterp spec fn vx_borrowed_is<K, Q: ?Sized>(j: K, k: &Q) -> bool;
axiom fn borrowed_refl() ensures forall|j: KeyOrKeyword, k: &KeyOrKeyword| #[trigger] vx_borrowed_is::<KeyOrKeyword, KeyOrKeyword>(j, k) == (j == *k);

// ---- specification: which terms are being defined, which are done --------------------------------
pub open spec fn pending(d: DefinedTerms, k: KeyOrKeyword) -> bool { d.0@.dom().contains(k) && d.0@[k].pending }
pub open spec fn done(d: DefinedTerms, k: KeyOrKeyword) -> bool { d.0@.dom().contains(k) && !d.0@[k].pending }
pub open spec fn same_except(a: DefinedTerms, b: DefinedTerms, k: KeyOrKeyword) -> bool {
    forall|j: KeyOrKeyword| j != k ==> (#[trigger] pending(a, j) == pending(b, j)) && (done(a, j) == done(b, j))
}
impl DefinedTerms {
//@ extract fn impl DefinedTerms > begin from crates/context-processing/src/algorithm/define.rs
//@ ret r
//@ start
    proof { key_model(); }
//@ spec
    ensures
        // a term met again while it is being defined is an error; a finished one is not defined again
        match r {
            Err(_) => pending(*old(self), *key) && *final(self) == *old(self),
            Ok(false) => done(*old(self), *key) && *final(self) == *old(self),
            Ok(true) => !pending(*old(self), *key) && !done(*old(self), *key) && pending(*final(self), *key),
        },
        same_except(*final(self), *old(self), *key),
//@ end
//@ extract fn impl DefinedTerms > end from crates/context-processing/src/algorithm/define.rs
//@ start
    proof { key_model(); borrowed_refl(); }
//@ spec
    requires pending(*old(self), *key),
    ensures done(*final(self), *key), same_except(*final(self), *old(self), *key),
//@ end
}

// ---- string helpers of term creation -------------------------------------------------------------
//@ extract fn is_gen_delim from crates/context-processing/src/algorithm/define.rs
//@ ret r
//@ spec
    ensures r == (c == ':' || c == '/' || c == '?' || c == '#' || c == '[' || c == ']' || c == '@'),
//@ end
}
fn main() {}
