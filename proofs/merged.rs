#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use std::ops::Deref;
pub mod syntax {
    pub use super::*;
    pub mod context {
        pub use super::super::*;
        pub mod definition { pub use super::super::super::*; }
    }
}
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
#[verifier::external_body] pub struct IriRef { x: u8 }
#[verifier::external_body] pub struct IriRefBuf { x: u8 }
#[verifier::external_body] pub struct LenientLangTagBuf { x: u8 }
#[verifier::external_body] pub struct Vocab { x: u8 }
#[verifier::external_body] pub struct TermDefinition { x: u8 }
#[verifier::external_body] pub struct Bindings { x: u8 }
#[verifier::external_body] pub struct BindingsIter<'a> { x: &'a u8 }
pub uninterp spec fn ir(b: IriRefBuf) -> IriRef;
impl Deref for IriRefBuf {
    type Target = IriRef;
    #[verifier::external_body]
    fn deref(&self) -> (r: &IriRef) ensures *r == ir(*self) { unimplemented!() }
}
pub assume_specification<T: Deref> [Option::<T>::as_deref] (o: &Option<T>) -> (r: Option<&T::Target>)
    ensures r is Some == o is Some, o is Some ==> call_ensures(T::deref, (&o->0,), r->0);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Version from crates/syntax/src/context/definition/version.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum TypeContainer from crates/syntax/src/context/definition/type_.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract struct Type from crates/syntax/src/context/definition/type_.rs
//@ end
//@ extract struct Key from crates/syntax/src/context/definition/key.rs
//@ end
//@ extract enum KeyOrKeyword from crates/syntax/src/context/definition/key.rs
//@ end
impl Key {
    /// derived Clone
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Key) ensures r == *self { unimplemented!() }
}
#[derive(Clone, Copy)]
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
//@ extract struct Definition from crates/syntax/src/context/definition/mod.rs
//@ end
//@ extract enum ContextEntry from crates/syntax/src/context/mod.rs
//@ end
//@ extract enum Context from crates/syntax/src/context/mod.rs
//@ end
//@ extract enum EntryValueRef from crates/syntax/src/context/definition/reference.rs
//@ end
//@ extract struct Merged from crates/context-processing/src/algorithm/merged.rs
//@ end
//@ extract struct MergedBindings from crates/context-processing/src/algorithm/merged.rs
//@ end
//@ extract type BindingRef from crates/context-processing/src/algorithm/merged.rs
//@ end

pub type Entries = Seq<(Key, Nullable<TermDefinition>)>;
/// the bindings of a context definition, in order; no key twice (they live in an index map)
pub uninterp spec fn binds(b: Bindings) -> Entries;
pub uninterp spec fn rest(b: BindingsIter) -> Entries;
pub open spec fn bound_at(s: Entries, k: Key, i: int) -> bool { 0 <= i < s.len() && s[i].0 == k }
pub open spec fn bound(s: Entries, k: Key) -> bool { exists|i: int| #[trigger] bound_at(s, k, i) }
pub open spec fn distinct(s: Entries) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn und<T>(n: Nullable<&T>) -> Nullable<T> { match n { Nullable::Null => Nullable::Null, Nullable::Some(t) => Nullable::Some(*t) } }
impl Bindings {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: BindingsIter<'_>) ensures rest(r) == binds(*self), distinct(binds(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, key: &Key) -> (r: Option<Nullable<&TermDefinition>>)
        ensures
            r is Some == bound(binds(*self), *key),
            r is Some ==> exists|i: int| #[trigger] bound_at(binds(*self), *key, i) && und(r->0) == binds(*self)[i].1,
            distinct(binds(*self)),
    { unimplemented!() }
}
impl<'a> BindingsIter<'a> {
    /// IntoIterator of a mutable reference to an iterator is the reference itself
    #[verifier::external_body]
    pub fn into_iter(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a Key, Nullable<&'a TermDefinition>)>)
        ensures
            rest(*old(self)).len() == 0 ==> r is None && *final(self) == *old(self),
            rest(*old(self)).len() > 0 ==> r is Some && *(r->0).0 == rest(*old(self))[0].0 && und((r->0).1) == rest(*old(self))[0].1
                && rest(*final(self)) == rest(*old(self)).skip(1),
    { unimplemented!() }
}

impl<T> Nullable<T> {
//@ extract fn impl Nullable > as_ref from crates/syntax/src/nullable.rs
//@ ret r
//@ spec
    ensures und(r) == *self,
//@ end
//@ extract fn impl Nullable > as_deref from crates/syntax/src/nullable.rs
//@ ret r
//@ spec
    ensures r is Null == self is Null, self is Some ==> call_ensures(T::deref, (&self->Some_0,), r->Some_0),
//@ end
}

// ---- the imported definition, and the entry chosen for each key ------------------------------------
pub open spec fn imp(m: Merged) -> Option<Definition> {
    match m.imported { Some(Context::One(ContextEntry::Definition(d))) => Some(d), _ => None }
}
/// own entry if present, else the imported one
pub open spec fn choose_entry<T>(own: Option<T>, imported: Option<T>) -> Option<T> { if own is Some { own } else { imported } }
pub open spec fn ir_null(n: Nullable<IriRefBuf>) -> Nullable<IriRef> { match n { Nullable::Null => Nullable::Null, Nullable::Some(b) => Nullable::Some(ir(b)) } }
pub open spec fn omap<T, U>(o: Option<T>, f: spec_fn(T) -> U) -> Option<U> { match o { Some(t) => Some(f(t)), None => None } }
pub open spec fn ound<T>(o: Option<Nullable<&T>>) -> Option<Nullable<T>> { omap(o, |n: Nullable<&T>| und(n)) }
pub open spec fn unbound(s: Entries, own: Entries) -> Entries
    decreases s.len()
{
    if s.len() == 0 { s } else if bound(own, s[0].0) { unbound(s.skip(1), own) } else { seq![s[0]] + unbound(s.skip(1), own) }
}
pub open spec fn remaining(m: MergedBindings) -> Entries {
    (match m.imported_bindings { None => Seq::empty(), Some(i) => unbound(rest(i), binds(m.base.bindings)) }) + rest(m.base_bindings)
}

/// what an entry value says: its key and its content, references erased
pub enum Val { Base(Nullable<IriRef>), Import(IriRef), Language(Nullable<LenientLangTagBuf>), Direction(Nullable<Direction>), Propagate(bool), Protected(bool),
    Type(Type), Version(Version), Vocab(Nullable<Vocab>), Term(Nullable<TermDefinition>) }
pub open spec fn val(v: EntryValueRef) -> Val {
    match v {
        EntryValueRef::Base(n) => Val::Base(und(n)), EntryValueRef::Import(i) => Val::Import(*i), EntryValueRef::Language(l) => Val::Language(und(l)),
        EntryValueRef::Direction(d) => Val::Direction(d), EntryValueRef::Propagate(b) => Val::Propagate(b), EntryValueRef::Protected(b) => Val::Protected(b),
        EntryValueRef::Type(t) => Val::Type(t), EntryValueRef::Version(v) => Val::Version(v), EntryValueRef::Vocab(v) => Val::Vocab(und(v)),
        EntryValueRef::Definition(d) => Val::Term(und(d)),
    }
}
pub open spec fn lookup(s: Entries, k: Key) -> Option<Nullable<TermDefinition>> {
    if bound(s, k) { Some(s[choose|i: int| bound_at(s, k, i)].1) } else { None }
}
/// the value a context definition gives to a key
pub open spec fn entry_of(d: Definition, k: KeyOrKeyword) -> Option<Val> {
    match k {
        KeyOrKeyword::Key(k) => omap(lookup(binds(d.bindings), k), |t: Nullable<TermDefinition>| Val::Term(t)),
        KeyOrKeyword::Keyword(Keyword::Base) => omap(d.base, |b: Nullable<IriRefBuf>| Val::Base(ir_null(b))),
        KeyOrKeyword::Keyword(Keyword::Import) => omap(d.import, |b: IriRefBuf| Val::Import(ir(b))),
        KeyOrKeyword::Keyword(Keyword::Language) => omap(d.language, |b: Nullable<LenientLangTagBuf>| Val::Language(b)),
        KeyOrKeyword::Keyword(Keyword::Direction) => omap(d.direction, |b: Nullable<Direction>| Val::Direction(b)),
        KeyOrKeyword::Keyword(Keyword::Propagate) => omap(d.propagate, |b: bool| Val::Propagate(b)),
        KeyOrKeyword::Keyword(Keyword::Protected) => omap(d.protected, |b: bool| Val::Protected(b)),
        KeyOrKeyword::Keyword(Keyword::Type) => omap(d.type_, |b: Type| Val::Type(b)),
        KeyOrKeyword::Keyword(Keyword::Version) => omap(d.version, |b: Version| Val::Version(b)),
        KeyOrKeyword::Keyword(Keyword::Vocab) => omap(d.vocab, |b: Nullable<Vocab>| Val::Vocab(b)),
        _ => None,
    }
}
pub open spec fn oval(v: Option<EntryValueRef>) -> Option<Val> { omap(v, |v: EntryValueRef| val(v)) }

proof fn lookup_at(s: Entries, k: Key, i: int)
    requires distinct(s), bound_at(s, k, i),
    ensures lookup(s, k) == Some(s[i].1),
{
    let j = choose|j: int| bound_at(s, k, j);
    assert(bound_at(s, k, j));
    if i < j { assert(s[i].0 != s[j].0); } else if j < i { assert(s[j].0 != s[i].0); }
}

proof fn unbound_lemma(s: Entries, own: Entries)
    requires distinct(s),
    ensures
        distinct(unbound(s, own)),
        forall|i: int| 0 <= i < unbound(s, own).len() ==> !bound(own, (#[trigger] unbound(s, own)[i]).0) && s.contains(unbound(s, own)[i]),
        forall|i: int| 0 <= i < s.len() && !bound(own, (#[trigger] s[i]).0) ==> unbound(s, own).contains(s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i + 1]);
        unbound_lemma(t, own);
        let u = unbound(t, own);
        let f = unbound(s, own);
        assert forall|i: int| 0 <= i < u.len() implies s.contains(#[trigger] u[i]) && u[i].0 != s[0].0 by {
            let j = choose|j: int| 0 <= j < t.len() && t[j] == u[i];
            assert(s[j + 1] == u[i]);
        }
        if !bound(own, s[0].0) {
            assert(f[0] == s[0]);
            assert(forall|i: int| 0 < i < f.len() ==> #[trigger] f[i] == u[i - 1]);
        }
        assert forall|i: int| 0 <= i < s.len() && !bound(own, (#[trigger] s[i]).0) implies f.contains(s[i]) by {
            if i > 0 {
                assert(t[i - 1] == s[i]);
                let j = choose|j: int| 0 <= j < u.len() && u[j] == s[i];
                if !bound(own, s[0].0) { assert(f[j + 1] == s[i]); } else { assert(f[j] == s[i]); }
            }
        }
    }
}
/// the merged bindings give each term its own binding if there is one, else the imported one, and no term twice
proof fn merged_lookup(imported: Entries, own: Entries, k: Key)
    requires distinct(imported), distinct(own),
    ensures
        distinct(unbound(imported, own) + own),
        lookup(unbound(imported, own) + own, k) == choose_entry(lookup(own, k), lookup(imported, k)),
{
    unbound_lemma(imported, own);
    let u = unbound(imported, own);
    let m = u + own;
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).0 != (#[trigger] m[j]).0 by {
        if i < u.len() && j >= u.len() { assert(m[i] == u[i]); assert(bound_at(own, m[j].0, j - u.len())); }
        else if i < u.len() { assert(m[i] == u[i] && m[j] == u[j]); } else { assert(m[i] == own[i - u.len()] && m[j] == own[j - u.len()]); }
    }
    if bound(own, k) {
        let i = choose|i: int| bound_at(own, k, i);
        assert(bound_at(m, k, i + u.len()));
        lookup_at(own, k, i);
        lookup_at(m, k, i + u.len());
    } else if bound(imported, k) {
        let i = choose|i: int| bound_at(imported, k, i);
        assert(u.contains(imported[i]));
        let j = choose|j: int| 0 <= j < u.len() && u[j] == imported[i];
        assert(bound_at(m, k, j));
        lookup_at(imported, k, i);
        lookup_at(m, k, j);
    } else if bound(m, k) {
        let i = choose|i: int| bound_at(m, k, i);
        if i < u.len() {
            let j = choose|j: int| 0 <= j < imported.len() && imported[j] == u[i];
            assert(bound_at(imported, k, j));
        } else { assert(bound_at(own, k, i - u.len())); }
    }
}

impl Definition {
//@ extract fn impl Definition > get_binding from crates/syntax/src/context/definition/mod.rs
//@ ret r
//@ tail Option<Nullable<&TermDefinition>>
    proof {
        if vx_r is Some { let i = choose|i: int| #[trigger] bound_at(binds(self.bindings), *key, i) && und(vx_r->0) == binds(self.bindings)[i].1; lookup_at(binds(self.bindings), *key, i); }
    }
//@ spec
    ensures ound(r) == lookup(binds(self.bindings), *key),
//@ end
//@ extract fn impl Definition > get from crates/syntax/src/context/definition/mod.rs
//@ ret r
//@ desugar option.map
//@ tail Option<EntryValueRef<'_>>
    proof {
        if let KeyOrKeyword::Key(kk) = key { let k = *kk; if let Some(EntryValueRef::Definition(d)) = vx_r {
            let i = choose|i: int| #[trigger] bound_at(binds(self.bindings), k, i) && und(d) == binds(self.bindings)[i].1; lookup_at(binds(self.bindings), k, i); } }
    }
//@ spec
    ensures oval(r) == entry_of(*self, *key),
//@ end
}

impl<'a> Merged<'a> {
//@ extract fn impl Merged > new from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ spec
    ensures r.base == base, r.imported == imported,
//@ end
//@ extract fn impl Merged > imported from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.and_then
//@ spec
    ensures r is Some == imp(*self) is Some, r is Some ==> *r->0 == imp(*self)->0,
//@ end
//@ extract fn impl Merged > base from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map option.or_else option.and_then
//@ spec
    ensures ound(r) == omap(choose_entry(self.base.base, match imp(*self) { Some(i) => i.base, None => None }), |b: Nullable<IriRefBuf>| ir_null(b)),
//@ end
//@ extract fn impl Merged > vocab from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map option.or_else option.and_then
//@ spec
    ensures ound(r) == choose_entry(self.base.vocab, match imp(*self) { Some(i) => i.vocab, None => None }),
//@ end
//@ extract fn impl Merged > language from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map option.or_else option.and_then
//@ spec
    ensures ound(r) == choose_entry(self.base.language, match imp(*self) { Some(i) => i.language, None => None }),
//@ end
//@ extract fn impl Merged > direction from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map option.or_else option.and_then
//@ spec
    ensures r == choose_entry(self.base.direction, match imp(*self) { Some(i) => i.direction, None => None }),
//@ end
//@ extract fn impl Merged > protected from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map option.or_else option.and_then
//@ spec
    ensures r == choose_entry(self.base.protected, match imp(*self) { Some(i) => i.protected, None => None }),
//@ end
//@ extract fn impl Merged > type_ from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map option.or_else option.and_then
//@ spec
    ensures r == choose_entry(self.base.type_, match imp(*self) { Some(i) => i.type_, None => None }),
//@ end
//@ extract fn impl Merged > bindings from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map
//@ spec
    ensures
        r.base == self.base,
        remaining(r) == (match imp(*self) { Some(i) => unbound(binds(i.bindings), binds(self.base.bindings)), None => Seq::empty() }) + binds(self.base.bindings),
//@ end
//@ extract fn impl Merged > get from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ desugar option.map option.or_else option.and_then
//@ spec
    ensures oval(r) == choose_entry(entry_of(*self.base, *key), match imp(*self) { Some(i) => entry_of(i, *key), None => None }),
//@ end
}
impl<'a> MergedBindings<'a> {
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl Iterator for MergedBindings > next from crates/context-processing/src/algorithm/merged.rs
//@ ret r
//@ subst Self::Item => BindingRef<'a>
//@ desugar-for 0 it
    invariant
        remaining(*old(self)) == unbound(rest(*it), binds(self.base.bindings)) + rest(self.base_bindings),
    ensures rest(*it).len() == 0,
    decreases rest(*it).len(),
//@ before "return Some((key_ref"
    proof {
        let u = unbound(rest(*it), binds(self.base.bindings));
        assert(remaining(*old(self)) == seq![(*key_ref, und(def))] + u + rest(self.base_bindings));
        assert((seq![(*key_ref, und(def))] + u + rest(self.base_bindings)).skip(1) =~= u + rest(self.base_bindings));
    }
//@ tail Option<BindingRef<'a>>
    proof {
        let o = remaining(*old(self));
        assert(Seq::<(Key, Nullable<TermDefinition>)>::empty() + rest(old(self).base_bindings) =~= rest(old(self).base_bindings));
        assert(Seq::<(Key, Nullable<TermDefinition>)>::empty() + rest(self.base_bindings) =~= rest(self.base_bindings));
    }
//@ spec
    ensures
        final(self).base == old(self).base,
        // imported bindings that the definition itself does not bind, then its own, each once and in order
        remaining(*old(self)).len() == 0 ==> r is None && remaining(*final(self)).len() == 0,
        remaining(*old(self)).len() > 0 ==> r is Some && *(r->0).0 == remaining(*old(self))[0].0 && und((r->0).1) == remaining(*old(self))[0].1
            && remaining(*final(self)) == remaining(*old(self)).skip(1),
//@ end
}
}
fn main() {}
