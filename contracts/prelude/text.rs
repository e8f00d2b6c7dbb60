verus! {
// Text and token streams built with format!/quote!/parse_quote! are terms: an
// uninterpreted function of the literal and of the interpolated values. The
// axioms below say which literals mean the same C++ or Rust expression.
pub uninterp spec fn fmt1(l: Seq<char>, a: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt2(l: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt3(l: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt4(l: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt5(l: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt6(l: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn num_text(n: int) -> Seq<char>;
impl VxStr for usize { open spec fn vx_chars(&self) -> Seq<char> { num_text(*self as int) } }
#[verifier::external_body]
pub fn vx_f0(l: &str) -> (r: String) ensures r@ == l@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_f1<A: VxStr + ?Sized>(l: &str, a: &A) -> (r: String) ensures r@ == fmt1(l@, a.vx_chars()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f2<A: VxStr + ?Sized, B: VxStr + ?Sized>(l: &str, a: &A, b: &B) -> (r: String) ensures r@ == fmt2(l@, a.vx_chars(), b.vx_chars()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f3<A: VxStr + ?Sized, B: VxStr + ?Sized, C: VxStr + ?Sized>(l: &str, a: &A, b: &B, c: &C) -> (r: String) ensures r@ == fmt3(l@, a.vx_chars(), b.vx_chars(), c.vx_chars()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f4<A: VxStr + ?Sized, B: VxStr + ?Sized, C: VxStr + ?Sized, D: VxStr + ?Sized>(l: &str, a: &A, b: &B, c: &C, d: &D) -> (r: String) ensures r@ == fmt4(l@, a.vx_chars(), b.vx_chars(), c.vx_chars(), d.vx_chars()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f5<A: VxStr + ?Sized, B: VxStr + ?Sized, C: VxStr + ?Sized, D: VxStr + ?Sized, E: VxStr + ?Sized>(l: &str, a: &A, b: &B, c: &C, d: &D, e: &E) -> (r: String) ensures r@ == fmt5(l@, a.vx_chars(), b.vx_chars(), c.vx_chars(), d.vx_chars(), e.vx_chars()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f6<A: VxStr + ?Sized, B: VxStr + ?Sized, C: VxStr + ?Sized, D: VxStr + ?Sized, E: VxStr + ?Sized, F: VxStr + ?Sized>(l: &str, a: &A, b: &B, c: &C, d: &D, e: &E, f: &F) -> (r: String) ensures r@ == fmt6(l@, a.vx_chars(), b.vx_chars(), c.vx_chars(), d.vx_chars(), e.vx_chars(), f.vx_chars()) { unimplemented!() }
/// A panic where the contract allows one: the run ends, nothing is generated.
#[verifier::external_body]
pub fn vx_refuse() -> ! { unimplemented!() }
pub trait VxUnwrap<T>: Sized { spec fn vx_holds(self, t: T) -> bool; fn vx_unwrap(self) -> (r: T) ensures self.vx_holds(r); }
impl<T> VxUnwrap<T> for Option<T> {
    open spec fn vx_holds(self, t: T) -> bool { self == Some(t) }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { unimplemented!() }
}
impl<T, E> VxUnwrap<T> for Result<T, E> {
    open spec fn vx_holds(self, t: T) -> bool { self == Ok::<T, E>(t) }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { unimplemented!() }
}
/// itertools' `join`.
pub uninterp spec fn joined(sep: Seq<char>, s: Seq<Seq<char>>) -> Seq<char>;
pub open spec fn texts<S: VxStr>(s: Seq<S>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].vx_chars()) }
pub broadcast proof fn lemma_texts_push<S: VxStr>(s: Seq<S>, x: S) ensures #[trigger] texts(s.push(x)) == texts(s).push(x.vx_chars()) { assert(texts(s.push(x)) =~= texts(s).push(x.vx_chars())); }
pub broadcast proof fn lemma_texts_empty<S: VxStr>() ensures #[trigger] texts(Seq::<S>::empty()) == Seq::<Seq<char>>::empty() { assert(texts(Seq::<S>::empty()) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_texts_cat<S: VxStr>(s: Seq<S>, t: Seq<S>) ensures #[trigger] texts(s + t) == texts(s) + texts(t) { assert(texts(s + t) =~= texts(s) + texts(t)); }
pub broadcast proof fn lemma_texts_skip<S: VxStr>(s: Seq<S>, n: int) requires 0 <= n <= s.len() ensures #[trigger] texts(s.skip(n)) == texts(s).skip(n) { assert(texts(s.skip(n)) =~= texts(s).skip(n)); }
pub broadcast proof fn lemma_skip_two<T>(s: Seq<T>) requires s.len() >= 2 ensures #[trigger] s.skip(1).skip(1) == s.skip(2) { assert(s.skip(1).skip(1) =~= s.skip(2)); }
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn opt_texts(o: Seq<Option<String>>) -> Seq<Option<Seq<char>>> { Seq::new(o.len(), |i: int| opt_text(o[i])) }
pub broadcast proof fn lemma_somes_text(o: Seq<Option<String>>)
    ensures texts(#[trigger] vx_somes(o)) == vx_somes(opt_texts(o)),
    decreases o.len(),
{
    if o.len() > 0 {
        lemma_somes_text(o.drop_last());
        assert(opt_texts(o).drop_last() =~= opt_texts(o.drop_last()));
        assert(opt_texts(o).last() == opt_text(o.last()));
        match o.last() { Some(u) => { lemma_texts_push(vx_somes(o.drop_last()), u); }, None => {} }
    } else {
        assert(texts(vx_somes(o)) =~= vx_somes(opt_texts(o)));
    }
}
pub broadcast group text_seqs { lemma_texts_push, lemma_texts_empty, lemma_texts_cat, lemma_texts_skip, lemma_skip_two, lemma_somes_text }
impl<S: VxStr> It<S> {
    #[verifier::external_body]
    pub fn join(self, sep: &str) -> (r: String)
        requires 0 <= self.pos() <= self.all().len(),
        ensures r@ == joined(sep@, if self.pos() == 0 { texts(self.all()) } else { texts(self.all().skip(self.pos())) }),
    { unimplemented!() }
}
impl<S: VxStr> Vec<S> {
    #[verifier::external_body]
    pub fn join(&self, sep: &str) -> (r: String) ensures r@ == joined(sep@, texts(self@)) { unimplemented!() }
}
/// Token streams.
pub trait VxTok { spec fn tok(&self) -> Tok; }
impl<'a, T: VxTok + ?Sized> VxTok for &'a T { open spec fn tok(&self) -> Tok { (**self).tok() } }
#[verifier::external_body]
pub struct TokenStream { x: u8 }
impl TokenStream { pub uninterp spec fn view(&self) -> Tok; }
impl Clone for TokenStream { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxTok for TokenStream { open spec fn tok(&self) -> Tok { self.view() } }
pub uninterp spec fn q0(l: Seq<char>) -> Tok;
pub uninterp spec fn q1(l: Seq<char>, a: Tok) -> Tok;
pub uninterp spec fn q2(l: Seq<char>, a: Tok, b: Tok) -> Tok;
pub uninterp spec fn q3(l: Seq<char>, a: Tok, b: Tok, c: Tok) -> Tok;
/// `#( #x ),*` over a list.
impl<T: VxTok> VxTok for Vec<T> { open spec fn tok(&self) -> Tok { Tok::List(toks(self@)) } }
pub open spec fn toks<T: VxTok>(s: Seq<T>) -> Seq<Tok> { Seq::new(s.len(), |i: int| s[i].tok()) }
pub broadcast proof fn lemma_toks_push<S: VxTok>(s: Seq<S>, x: S) ensures #[trigger] toks(s.push(x)) == toks(s).push(x.tok()) { assert(toks(s.push(x)) =~= toks(s).push(x.tok())); }
impl<T: VxTok> VxTok for Option<T> { open spec fn tok(&self) -> Tok { match self { Some(t) => t.tok(), None => Tok::List(Seq::empty()) } } }
#[verifier::external_body]
pub fn vx_q3<A: VxTok + ?Sized, B: VxTok + ?Sized, C: VxTok + ?Sized>(l: &str, a: &A, b: &B, c: &C) -> (r: TokenStream) ensures r@ == q3(l@, a.tok(), b.tok(), c.tok()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p3<A: VxTok + ?Sized, B: VxTok + ?Sized, C: VxTok + ?Sized, T: VxTok>(l: &str, a: &A, b: &B, c: &C) -> (r: T) ensures r.tok() == q3(l@, a.tok(), b.tok(), c.tok()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_q0(l: &str) -> (r: TokenStream) ensures r@ == q0(l@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_q1<A: VxTok + ?Sized>(l: &str, a: &A) -> (r: TokenStream) ensures r@ == q1(l@, a.tok()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_q2<A: VxTok + ?Sized, B: VxTok + ?Sized>(l: &str, a: &A, b: &B) -> (r: TokenStream) ensures r@ == q2(l@, a.tok(), b.tok()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p0<T: VxTok>(l: &str) -> (r: T) ensures r.tok() == q0(l@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p1<A: VxTok + ?Sized, T: VxTok>(l: &str, a: &A) -> (r: T) ensures r.tok() == q1(l@, a.tok()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p2<A: VxTok + ?Sized, B: VxTok + ?Sized, T: VxTok>(l: &str, a: &A, b: &B) -> (r: T) ensures r.tok() == q2(l@, a.tok(), b.tok()) { unimplemented!() }
} // verus!
