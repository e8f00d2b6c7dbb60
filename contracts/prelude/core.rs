// ---------------------------------------------------------------------------
// core.rs: the trusted prelude. Every `external_body` here is an assumption:
// it states what a std / indexmap collection or iterator adaptor does. None of
// it is autocxx code.
// ---------------------------------------------------------------------------
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_assignments, unused_parens, unused_braces, unreachable_patterns, non_camel_case_types, unreachable_code, mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
use core::mem::swap;
verus! {

pub open spec fn vx_eq<T>(a: T, b: T) -> bool { a == b }

#[verifier::external_body]
pub struct VxOpaque { x: u8 }
impl Clone for VxOpaque {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// Opaque text: message strings built with format!.
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }

#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_assert(b: bool)
    requires b,
{ unimplemented!() }

pub fn drop<T>(t: T) { }

// --- iterators -------------------------------------------------------------
// An iterator is its sequence of items plus a position. Adaptors are eager;
// laziness is unobservable because closures handed to adaptors are pure
// (Verus rejects closures that capture by mutable reference).

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { v: std::vec::Vec<T> }

pub open spec fn vx_has<T>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }

pub open spec fn folded<T, B, F: Fn(B, T) -> B>(all: Seq<T>, init: B, f: F, accs: Seq<B>, r: B) -> bool {
    &&& accs.len() == all.len() + 1
    &&& accs[0] == init
    &&& accs.last() == r
    &&& forall|i: int| 0 <= i < all.len() ==> f.ensures((#[trigger] accs[i], all[i]), accs[i + 1])
}
/// filter_map and flat_map, exactly: the answers in order.
pub open spec fn vx_somes<U>(s: Seq<Option<U>>) -> Seq<U>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Some(u) => vx_somes(s.drop_last()).push(u), None => vx_somes(s.drop_last()) } } }
pub open spec fn vx_fm<T, U, F: Fn(T) -> Option<U>>(all: Seq<T>, f: F, o: Seq<Option<U>>, r: Seq<U>) -> bool {
    &&& o.len() == all.len()
    &&& forall|i: int| 0 <= i < all.len() ==> f.ensures((all[i],), #[trigger] o[i])
    &&& r == vx_somes(o)
}
/// map_while
pub open spec fn vx_mw<T, U, F: Fn(T) -> Option<U>>(all: Seq<T>, f: F, r: Seq<U>) -> bool {
    &&& r.len() <= all.len()
    &&& forall|i: int| 0 <= i < r.len() ==> f.ensures((all[i],), Some(#[trigger] r[i]))
    &&& r.len() < all.len() ==> f.ensures((all[r.len() as int],), None)
}
pub open spec fn vx_flat<U>(s: Seq<It<U>>) -> Seq<U>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { vx_flat(s.drop_last()) + s.last().all() } }
pub open spec fn vx_fl<T, U, F: Fn(T) -> It<U>>(all: Seq<T>, f: F, o: Seq<It<U>>, r: Seq<U>) -> bool {
    &&& o.len() == all.len()
    &&& forall|i: int| 0 <= i < all.len() ==> f.ensures((all[i],), #[trigger] o[i])
    &&& r == vx_flat(o)
}
impl<T> It<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;

    #[verifier::external_body]
    pub fn vx_has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self.all().len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self).all().len(),
        ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1,
            r == old(self).all()[old(self).pos()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos(),
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(self) -> (r: It<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> f.requires((&#[trigger] self.all()[i],)),
        ensures r.pos() == 0,
            r.all().len() <= self.all().len(),
            forall|j: int| 0 <= j < r.all().len() ==> f.ensures((&#[trigger] r.all()[j],), true) && vx_has(self.all(), r.all()[j]),
            forall|i: int| 0 <= i < self.all().len() ==> (f.ensures((&#[trigger] self.all()[i],), false) || vx_has(r.all(), self.all()[i])),
            vx_filtered(self.all(), r.all(), f),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],)),
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| 0 <= i < r.all().len() ==> f.ensures((#[trigger] self.all()[i],), r.all()[i]),
            forall|i: int| 0 <= i < r.all().len() ==> f.ensures((self.all()[i],), #[trigger] r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],)),
        ensures r.pos() == 0, r.all().len() <= self.all().len(),
            forall|j: int| 0 <= j < r.all().len() ==> exists|i: int| 0 <= i < self.all().len() && f.ensures((#[trigger] self.all()[i],), Some(#[trigger] r.all()[j])),
            forall|i: int| 0 <= i < self.all().len() ==> f.ensures((#[trigger] self.all()[i],), None) || exists|u: U| f.ensures((self.all()[i],), Some(u)) && #[trigger] vx_has(r.all(), u),
            exists|o: Seq<Option<U>>| #[trigger] vx_fm(self.all(), f, o, r.all()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map_while<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],)),
        ensures r.pos() == 0, r.all().len() <= self.all().len(),
            forall|i: int| 0 <= i < r.all().len() ==> f.ensures((self.all()[i],), Some(#[trigger] r.all()[i])),
            r.all().len() < self.all().len() ==> f.ensures((self.all()[r.all().len() as int],), None),
            vx_mw(self.all(), f, r.all()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::<T>::empty() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<U, F: Fn(T) -> It<U>>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],)),
        ensures r.pos() == 0,
            forall|x: U| #[trigger] vx_has(r.all(), x) ==> exists|i: int, inner: It<U>| 0 <= i < self.all().len() && #[trigger] f.ensures((self.all()[i],), inner) && vx_has(inner.all(), x),
            forall|i: int| 0 <= i < self.all().len() ==> exists|inner: It<U>| #[trigger] f.ensures((#[trigger] self.all()[i],), inner) && forall|x: U| #[trigger] vx_has(inner.all(), x) ==> vx_has(r.all(), x),
            exists|o: Seq<It<U>>| #[trigger] vx_fl(self.all(), f, o, r.all()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires self.pos() == 0, forall|i: int, b: B| 0 <= i < self.all().len() ==> #[trigger] f.requires((b, self.all()[i])),
        ensures exists|accs: Seq<B>| #[trigger] folded(self.all(), init, f, accs, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).pos() == 0, forall|i: int| 0 <= i < old(self).all().len() ==> f.requires((#[trigger] old(self).all()[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self).all().len() && f.ensures((#[trigger] old(self).all()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).all().len() ==> f.ensures((#[trigger] old(self).all()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all_<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).pos() == 0, forall|i: int| 0 <= i < old(self).all().len() ==> f.requires((#[trigger] old(self).all()[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self).all().len() && f.ensures((#[trigger] old(self).all()[i],), false),
            r ==> forall|i: int| 0 <= i < old(self).all().len() ==> f.ensures((#[trigger] old(self).all()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: It<T>) -> (r: It<T>)
        requires 0 <= self.pos() <= self.all().len(), 0 <= o.pos() <= o.all().len(),
        ensures r.pos() == 0,
            r.all() == (if self.pos() == 0 { self.all() } else { self.all().skip(self.pos()) }) + (if o.pos() == 0 { o.all() } else { o.all().skip(o.pos()) }),
            self.pos() == 0 && o.pos() == 0 ==> (forall|x: T| #[trigger] vx_has(r.all(), x) <==> (vx_has(self.all(), x) || vx_has(o.all(), x))),
            self.pos() == 0 ==> (forall|x: T| #[trigger] vx_has(self.all(), x) ==> vx_has(r.all(), x)),
            o.pos() == 0 ==> (forall|x: T| #[trigger] vx_has(o.all(), x) ==> vx_has(r.all(), x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn partition<C: VxCollect<T>, F: Fn(&T) -> bool>(self, f: F) -> (r: (C, C))
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> f.requires((&#[trigger] self.all()[i],)),
        ensures
            exists|a: Seq<T>, b: Seq<T>| #[trigger] C::collected(a, r.0) && #[trigger] C::collected(b, r.1)
            && a.len() + b.len() == self.all().len()
            && (forall|j: int| 0 <= j < a.len() ==> f.ensures((&#[trigger] a[j],), true) && vx_has(self.all(), a[j]))
            && (forall|j: int| 0 <= j < b.len() ==> f.ensures((&#[trigger] b[j],), false) && vx_has(self.all(), b[j]))
            && (forall|i: int| 0 <= i < self.all().len() ==> vx_has(a, #[trigger] self.all()[i]) || vx_has(b, self.all()[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VxCollect<T>>(self) -> (r: C)
        requires self.pos() == 0,
        ensures C::collected(self.all(), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        requires self.pos() == 0,
        ensures r == self.all().len(),
    { unimplemented!() }
}
impl<T> It<T> {
    /// No collection is longer than the address space.
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(), self.all().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == (i as usize, self.all()[i]),
    { unimplemented!() }
}
/// `[a, b].iter()`.
#[verifier::external_body]
pub fn vx_lend<'a, T>(v: Vec<T>) -> (r: It<&'a T>)
    ensures r.pos() == 0, r.all().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *#[trigger] r.all()[i] == v@[i], vx_derefs(r.all()) == v@,
{ unimplemented!() }
impl<T> It<Option<T>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == vx_somes(self.all()),
    { unimplemented!() }
}
/// All results, or the first error.
impl<T, E> VxCollect<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<T, E>(v@[i]))
                && (forall|i: int| 0 <= i < s.len() ==> s[i] == Ok::<T, E>(#[trigger] v@[i])),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
        }
    }
    #[verifier::external_body]
    fn vx_new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, x: Result<T, E>) { unimplemented!() }
}
impl<'a, T> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == *self.all()[i],
            forall|i: int| 0 <= i < r.all().len() ==> r.all()[i] == *#[trigger] self.all()[i],
            forall|x: T| #[trigger] vx_has(r.all(), x) <==> vx_has(self.all(), &x),
            forall|x: T| #[trigger] vx_has(self.all(), &x) ==> vx_has(r.all(), x),
            r.all() == vx_derefs(self.all()),
    { unimplemented!() }
}
pub open spec fn vx_derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/// Every indexed element is an element.
pub broadcast proof fn lemma_has_index<T>(s: Seq<T>, i: int)
    ensures 0 <= i < s.len() ==> vx_has(s, #[trigger] s[i]),
{}
pub broadcast proof fn lemma_has_push<T>(s: Seq<T>, a: T, x: T)
    ensures #[trigger] vx_has(s.push(a), x) == (vx_has(s, x) || a == x),
{
    if vx_has(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x; assert(s.push(a)[i] == x); }
    if a == x { assert(s.push(a)[s.len() as int] == x); }
}
pub broadcast proof fn lemma_has_cat<T>(s: Seq<T>, t: Seq<T>, x: T)
    ensures #[trigger] vx_has(s + t, x) == (vx_has(s, x) || vx_has(t, x)),
{
    if vx_has(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x; assert((s + t)[i] == x); }
    if vx_has(t, x) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == x; assert((s + t)[s.len() + i] == x); }
}
pub broadcast proof fn lemma_has_empty<T>(x: T)
    ensures !#[trigger] vx_has(Seq::<T>::empty(), x),
{}
pub broadcast proof fn lemma_has_one<T>(a: T, x: T)
    ensures #[trigger] vx_has(seq![a], x) == (a == x),
{ assert(seq![a][0] == a); }
pub broadcast group vx_has_lemmas { lemma_has_push, lemma_has_cat, lemma_has_empty, lemma_has_one }
#[verifier::external_body]
pub fn once<T>(t: T) -> (r: It<T>) ensures r.pos() == 0, r.all() == seq![t] { unimplemented!() }
#[verifier::external_body]
pub fn empty<T>() -> (r: It<T>) ensures r.pos() == 0, r.all() == Seq::<T>::empty() { unimplemented!() }

pub trait VxCollect<T>: Sized {
    spec fn collected(s: Seq<T>, r: Self) -> bool;
    fn vx_new() -> (r: Self)
        ensures Self::collected(Seq::empty(), r);
    fn vx_push(&mut self, x: T)
        ensures forall|s: Seq<T>| #[trigger] Self::collected(s, *old(self)) ==> Self::collected(s.push(x), *final(self));
}
pub trait VxIntoIt<T>: Sized {
    spec fn into_it_spec(self, r: It<T>) -> bool;
    fn vx_into_it(self) -> (r: It<T>)
        ensures r.pos() == 0, self.into_it_spec(r);
}
impl<T> VxIntoIt<T> for It<T> {
    open spec fn into_it_spec(self, r: It<T>) -> bool { self.pos() == 0 ==> r == self }
    #[verifier::external_body]
    fn vx_into_it(self) -> (r: It<T>) { unimplemented!() }
}

// --- Vec -------------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { v: std::vec::Vec<T> }
impl<T> View for Vec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: T)
        requires i < old(self)@.len(),
        ensures final(self)@ == old(self)@.remove(i as int), r == old(self)@[i as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, i: usize) -> (r: T)
        requires i < old(self)@.len(),
        ensures r == old(self)@[i as int],
            final(self)@ == old(self)@.update(i as int, old(self)@.last()).drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, it: It<T>)
        requires it.pos() == 0,
        ensures final(self)@ == old(self)@ + it.all(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Vec<T>)
        ensures final(self)@ == old(self)@ + old(o)@, final(o)@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, it: &Vec<T>)
        ensures final(self)@ == old(self)@ + it@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&T>)
        ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *#[trigger] r.all()[i] == self@[i],
            forall|i: int| 0 <= i < self@.len() ==> *r.all()[i] == #[trigger] self@[i],
            forall|x: T| #[trigger] vx_has(r.all(), &x) <==> vx_has(self@, x),
            forall|x: T| #[trigger] vx_has(self@, x) ==> vx_has(r.all(), &x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<T>)
        ensures r.pos() == 0, r.all() == self@,
    { unimplemented!() }
    /// `.drain(..)`: all elements, leaving the vector empty.
    #[verifier::external_body]
    pub fn drain(&mut self, _r: core::ops::RangeFull) -> (r: It<T>)
        ensures r.pos() == 0, r.all() == old(self)@, final(self)@ == Seq::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((&#[trigger] old(self)@[i],)),
        ensures
            vx_retained(old(self)@, final(self)@, vx_ret_m(old(self)@, final(self)@), f),
    { unimplemented!() }
}
/// The positions retain() kept: `to[j]` is `from[vx_ret_m(from, to)[j]]`.
pub uninterp spec fn vx_ret_m<T>(from: Seq<T>, to: Seq<T>) -> Seq<int>;
/// `to` is the subsequence of `from` of the elements on which `f` answered true.
pub open spec fn vx_retained<T, F: Fn(&T) -> bool>(from: Seq<T>, to: Seq<T>, m: Seq<int>, f: F) -> bool {
    &&& m.len() == to.len()
    &&& forall|j: int| 0 <= j < m.len() ==> 0 <= #[trigger] m[j] < from.len() && to[j] == from[m[j]] && f.ensures((&from[m[j]],), true)
    &&& forall|j: int| 0 <= j < to.len() ==> #[trigger] to[j] == from[m[j]] && f.ensures((&to[j],), true)
    &&& forall|j: int, k: int| 0 <= j < k < m.len() ==> #[trigger] m[j] < #[trigger] m[k]
    &&& forall|i: int| 0 <= i < from.len() ==> f.ensures((&#[trigger] from[i],), false) || vx_has(m, i)
}
/// The same, for the verifier to look into only where it is told to.
#[verifier::opaque]
pub open spec fn vx_filtered<T, F: Fn(&T) -> bool>(from: Seq<T>, to: Seq<T>, f: F) -> bool { vx_retained(from, to, vx_ret_m(from, to), f) }
impl<T> VxCollect<T> for Vec<T> {
    open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s }
    #[verifier::external_body]
    fn vx_new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, x: T) { unimplemented!() }
}
impl<'a, T> VxIntoIt<&'a T> for &'a Vec<T> {
    open spec fn into_it_spec(self, r: It<&'a T>) -> bool {
        r.all().len() == self@.len() && (forall|i: int| 0 <= i < self@.len() ==> *#[trigger] r.all()[i] == self@[i])
    }
    #[verifier::external_body]
    fn vx_into_it(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T> VxIntoIt<T> for Vec<T> {
    open spec fn into_it_spec(self, r: It<T>) -> bool { r.all() == self@ }
    #[verifier::external_body]
    fn vx_into_it(self) -> (r: It<T>) { unimplemented!() }
}

// --- VecDeque --------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: std::vec::Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures (r is Some) == (self@.len() > 0), r matches Some(x) ==> *x == self@[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&T>)
        ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *#[trigger] r.all()[i] == self@[i],
            forall|i: int| 0 <= i < self@.len() ==> *r.all()[i] == #[trigger] self@[i],
            forall|x: T| #[trigger] vx_has(r.all(), &x) <==> vx_has(self@, x),
            forall|x: T| #[trigger] vx_has(self@, x) ==> vx_has(r.all(), &x),
    { unimplemented!() }
}
impl<T> VxCollect<T> for VecDeque<T> {
    open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s }
    #[verifier::external_body]
    fn vx_new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, x: T) { unimplemented!() }
}

// --- sets (std HashSet / indexmap IndexSet; iteration order left open) -------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { v: std::vec::Vec<T> }
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: HashSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|x: T| #[trigger] old(self)@.contains(x) ==> f.requires((&x,)),
        ensures forall|x: T| #[trigger] final(self)@.contains(x) ==> old(self)@.contains(x) && f.ensures((&x,), true),
            forall|x: T| #[trigger] old(self)@.contains(x) ==> final(self)@.contains(x) || f.ensures((&x,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, it: It<T>)
        requires it.pos() == 0,
        ensures forall|x: T| #[trigger] final(self)@.contains(x) <==> (old(self)@.contains(x) || vx_has(it.all(), x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.vx_len() { unimplemented!() }
    pub uninterp spec fn vx_len(&self) -> nat;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&T>)
        ensures r.pos() == 0, r.all().len() == self.vx_len(), forall|i: int| 0 <= i < r.all().len() ==> self@.contains(*#[trigger] r.all()[i]),
            forall|x: T| #[trigger] self@.contains(x) ==> vx_has(r.all(), &x),
            forall|x: T| #[trigger] vx_has(r.all(), &x) ==> self@.contains(x),
    { unimplemented!() }
}
impl<T> VxCollect<T> for HashSet<T> {
    open spec fn collected(s: Seq<T>, r: Self) -> bool {
        &&& forall|x: T| #[trigger] r@.contains(x) ==> vx_has(s, x)
        &&& forall|i: int| 0 <= i < s.len() ==> r@.contains(#[trigger] s[i])
    }
    #[verifier::external_body]
    fn vx_new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, x: T) { unimplemented!() }
}
impl<'a, T> VxIntoIt<&'a T> for &'a HashSet<T> {
    open spec fn into_it_spec(self, r: It<&'a T>) -> bool {
        &&& forall|i: int| 0 <= i < r.all().len() ==> self@.contains(*#[trigger] r.all()[i])
        &&& forall|x: T| #[trigger] self@.contains(x) ==> exists|i: int| 0 <= i < r.all().len() && *#[trigger] r.all()[i] == x
    }
    #[verifier::external_body]
    fn vx_into_it(self) -> (r: It<&'a T>) { unimplemented!() }
}

// --- maps -------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::vec::Vec<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VxEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
pub trait VxDefault: Sized { spec fn default_spec(r: Self) -> bool; }
impl<'a, K, V> VxEntry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K;
    pub uninterp spec fn cur(&self) -> Map<K, V>;
    pub uninterp spec fn fin(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V) where V: VxDefault
        ensures self.cur().dom().contains(self.key()) ==> *r == self.cur()[self.key()],
            !self.cur().dom().contains(self.key()) ==> V::default_spec(*r),
            self.fin() == self.cur().insert(self.key(), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if self.cur().dom().contains(self.key()) { self.cur()[self.key()] } else { v }),
            self.fin() == self.cur().insert(self.key(), *final(r)),
    { unimplemented!() }
}
/// Collecting pairs into a map: every key has the value of one of its pairs.
impl<K, V> VxCollect<(K, V)> for HashMap<K, V> {
    open spec fn collected(s: Seq<(K, V)>, r: Self) -> bool {
        &&& forall|k: K| #[trigger] r@.dom().contains(k) ==> vx_has(s, (k, r@[k]))
        &&& forall|i: int| 0 <= i < s.len() ==> r@.dom().contains((#[trigger] s[i]).0)
    }
    #[verifier::external_body]
    fn vx_new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, x: (K, V)) { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<(&K, &V)>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.all().len() ==> self@.dom().contains(*(#[trigger] r.all()[i]).0) && *r.all()[i].1 == self@[*r.all()[i].0],
            forall|k: K| #[trigger] self@.dom().contains(k) ==> vx_has(r.all(), (&k, &self@[k])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_keys(self) -> (r: It<K>)
        ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() ==> self@.dom().contains(#[trigger] r.all()[i]),
            forall|k: K| #[trigger] self@.dom().contains(k) ==> vx_has(r.all(), k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: It<&K>)
        ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() ==> self@.dom().contains(*#[trigger] r.all()[i]),
            forall|k: K| #[trigger] self@.dom().contains(k) ==> vx_has(r.all(), &k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures (r is Some) == self@.dom().contains(*k), r matches Some(v) ==> *v == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures (r is Some) == old(self)@.dom().contains(*k),
            r is None ==> final(self)@ == old(self)@,
            r matches Some(v) ==> *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: VxEntry<'_, K, V>)
        ensures r.key() == k, r.cur() == old(self)@, final(self)@ == r.fin(),
    { unimplemented!() }
}

// --- Option ------------------------------------------------------------------
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    requires o matches Some(x) ==> p.requires((&x,)),
    ensures o is None ==> r is None,
        o matches Some(x) ==> (p.ensures((&x,), true) && r == Some(x)) || (p.ensures((&x,), false) && r is None);
/// `.unwrap_or_default()` on an Option
pub trait VxOptDefault<T>: Sized {
    spec fn od(self, r: T) -> bool;
    fn vx_unwrap_or_default(self) -> (r: T) ensures self.od(r);
}
impl<T: VxDefault> VxOptDefault<T> for Option<T> {
    open spec fn od(self, r: T) -> bool { match self { Some(x) => r == x, None => T::default_spec(r) } }
    #[verifier::external_body]
    fn vx_unwrap_or_default(self) -> (r: T) { unimplemented!() }
}
impl VxDefault for bool { open spec fn default_spec(r: bool) -> bool { !r } }
pub assume_specification<T, P: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, p: P) -> (r: bool)
    requires o matches Some(x) ==> p.requires((x,)),
    ensures o is None ==> !r, o matches Some(x) ==> p.ensures((x,), r);

// --- strings ----------------------------------------------------------------
pub trait VxStr { spec fn vx_chars(&self) -> Seq<char>; }
impl VxStr for str { open spec fn vx_chars(&self) -> Seq<char> { self@ } }
impl VxStr for String { open spec fn vx_chars(&self) -> Seq<char> { self@ } }
impl<'a, T: VxStr + ?Sized> VxStr for &'a T { open spec fn vx_chars(&self) -> Seq<char> { (**self).vx_chars() } }
pub open spec fn vx_str_eq_spec<A: VxStr, B: VxStr>(a: A, b: B) -> bool { a.vx_chars() == b.vx_chars() }
pub open spec fn vx_starts_with_spec<A: VxStr, B: VxStr>(a: A, b: B) -> bool { b.vx_chars().is_prefix_of(a.vx_chars()) }
/// `a.starts_with("literal")`
#[verifier::external_body]
#[verifier::when_used_as_spec(vx_starts_with_spec)]
pub fn vx_starts_with<A: VxStr, B: VxStr>(a: A, b: B) -> (r: bool)
    ensures r == vx_starts_with_spec(a, b),
{ unimplemented!() }
#[verifier::external_body]
#[verifier::when_used_as_spec(vx_str_eq_spec)]
pub fn vx_str_eq<A: VxStr, B: VxStr>(a: A, b: B) -> (r: bool)
    ensures r == vx_str_eq_spec(a, b),
{ unimplemented!() }

} // verus!
