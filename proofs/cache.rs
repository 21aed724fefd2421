#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use std::borrow::Borrow;
use std::hash::Hash;
// The inverse context a context gives is the one of its present contents: whatever is set after it was first asked for.
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
#[verifier::external_body] pub struct LenientLangTagBuf { x: u8 }
#[verifier::external_body] pub struct Key { x: u8 }
#[verifier::external_body] pub struct TypeTermDefinition { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Term<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct NormalTermDefinition<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct InverseContext<T, B> { x: core::marker::PhantomData<(T, B)> }
/// the definitions; what setting does is proved in defs.rs
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Definitions<T, B> { x: core::marker::PhantomData<(T, B)> }
pub open spec fn insert_opt<K, V>(m: Map<K, V>, k: K, v: Option<V>) -> Map<K, V> { match v { Some(v) => m.insert(k, v), None => m.remove(k) } }
impl<T, B> Definitions<T, B> {
    pub uninterp spec fn normal(&self) -> Map<Key, NormalTermDefinition<T, B>>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.normal() == Map::<Key, NormalTermDefinition<T, B>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_normal(&mut self, key: Key, d: Option<NormalTermDefinition<T, B>>) -> (r: Option<NormalTermDefinition<T, B>>) ensures final(self).normal() == insert_opt(old(self).normal(), key, d) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_type(&mut self, d: Option<TypeTermDefinition>) -> (r: Option<TypeTermDefinition>) ensures final(self).normal() == old(self).normal() { unimplemented!() }
}
impl<T: Clone, B: Clone> Clone for Definitions<T, B> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for LenientLangTagBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Clone, B: Clone> Clone for Term<T, B> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// cloning an optional field gives the same
#[verifier::external_body]
pub fn vx_same<T: Clone>(t: &Option<T>) -> (r: Option<T>) ensures r == *t { unimplemented!() }
/// once_cell: a cell keeps the first value given
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct OnceCell<T> { x: core::marker::PhantomData<T> }
pub uninterp spec fn cell<T>(c: OnceCell<T>) -> Option<T>;
impl<T> OnceCell<T> {
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Option<T>) ensures cell(*final(self)) is None, r == cell(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures cell(r) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures cell(r) is None { unimplemented!() }
    /// what it holds, or else what `f` makes
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> (r: &T)
        requires f.requires(()),
        ensures cell(*self) is Some ==> *r == cell(*self)->0, cell(*self) is None ==> f.ensures((), *r) { unimplemented!() }
}
// ---- contexts ----------------------------------------------------------------------------------------
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct Context from crates/core/src/context/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
/// what the inverse of a context depends on (inverse.rs: the normal definitions and the defaults; the @type definition has no part in it)
pub open spec fn relevant<T, B>(c: Context<T, B>) -> (Map<Key, NormalTermDefinition<T, B>>, Option<LenientLangTagBuf>, Option<Direction>) {
    (c.definitions.normal(), c.default_language, c.default_base_direction)
}
/// `i` is an inverse made of these (what InverseContext::from gives is proved in inverse.rs)
pub uninterp spec fn is_inverse<T, B>(i: InverseContext<T, B>, of: (Map<Key, NormalTermDefinition<T, B>>, Option<LenientLangTagBuf>, Option<Direction>)) -> bool;
impl<T: Clone + Hash + Eq, B: Clone + Hash + Eq> InverseContext<T, B> {
    #[verifier::external_body]
    pub fn from(c: &Context<T, B>) -> (r: Self) ensures is_inverse(r, relevant(*c)) { unimplemented!() }
}
/// the invariant: an inverse that is held is one of the present contents
pub open spec fn sound<T, B>(c: Context<T, B>) -> bool { cell(c.inverse) is Some ==> is_inverse(cell(c.inverse)->0, relevant(c)) }
impl<T, B> Context<T, B> {
//@ extract fn impl Default for Context > default from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures sound(r), relevant(r) == (Map::<Key, NormalTermDefinition<T, B>>::empty(), None::<LenientLangTagBuf>, None::<Direction>),
//@ end
//@ extract fn impl Context > new from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures sound(r), relevant(r) == (Map::<Key, NormalTermDefinition<T, B>>::empty(), None::<LenientLangTagBuf>, None::<Direction>),
//@ end
//@ extract fn impl Context > inverse from crates/core/src/context/mod.rs
//@ ret r
//@ subst self.into() => InverseContext::from(self)
//@ closure 0 (i: InverseContext<T, B>)
    ensures is_inverse(i, relevant(*self))
//@ spec
    requires sound(*self),
    ensures is_inverse(*r, relevant(*self)),
//@ end
//@ extract fn impl Context > set_normal from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    requires sound(*old(self)),
    ensures sound(*final(self)), relevant(*final(self)) == (insert_opt(relevant(*old(self)).0, key, definition), relevant(*old(self)).1, relevant(*old(self)).2),
//@ end
//@ extract fn impl Context > set_type from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    requires sound(*old(self)),
    ensures sound(*final(self)), relevant(*final(self)) == relevant(*old(self)),
//@ end
//@ extract fn impl Context > set_base_iri from crates/core/src/context/mod.rs
//@ spec
    requires sound(*old(self)),
    ensures sound(*final(self)), relevant(*final(self)) == relevant(*old(self)),
//@ end
//@ extract fn impl Context > set_vocabulary from crates/core/src/context/mod.rs
//@ spec
    requires sound(*old(self)),
    ensures sound(*final(self)), relevant(*final(self)) == relevant(*old(self)),
//@ end
//@ extract fn impl Context > set_default_language from crates/core/src/context/mod.rs
//@ spec
    requires sound(*old(self)),
    ensures sound(*final(self)), relevant(*final(self)) == (relevant(*old(self)).0, lang, relevant(*old(self)).2),
//@ end
//@ extract fn impl Context > set_default_base_direction from crates/core/src/context/mod.rs
//@ spec
    requires sound(*old(self)),
    ensures sound(*final(self)), relevant(*final(self)) == (relevant(*old(self)).0, relevant(*old(self)).1, dir),
//@ end
//@ extract fn impl Context > set_previous_context from crates/core/src/context/mod.rs
//@ spec
    requires sound(*old(self)),
    ensures sound(*final(self)), relevant(*final(self)) == relevant(*old(self)),
//@ end
}
impl<T: Clone, B: Clone> Context<T, B> {
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn impl Clone for Context > clone from crates/core/src/context/mod.rs
//@ ret r
//@ rename copied
//@ subst self.default_language.clone() => vx_same(&self.default_language)
//@ subst self.previous_context.clone() => vx_boxed(&self.previous_context)
//@ spec
    requires sound(*self),
    ensures sound(r), relevant(r) == relevant(*self),
//@ end
}
#[verifier::external_body]
pub fn vx_boxed<T: Clone, B: Clone>(c: &Option<Box<Context<T, B>>>) -> (r: Option<Box<Context<T, B>>>) { unimplemented!() }
}
fn main() {}
