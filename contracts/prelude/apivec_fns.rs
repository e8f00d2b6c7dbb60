verus! {
impl<P: AnalysisPhase> ApiVec<P> {
@@fn engine/src/conversion/apivec.rs <Default for ApiVec>::default
%ensures
    r.wf(), r.apis@ == Seq::<Api<P>>::empty(),
%prerewrite `apis : Default :: default ()` => `apis : Vec::new()`
%prerewrite `names : Default :: default ()` => `names : HashSet::new()`
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::new
%ensures
    r.wf(), r.apis@ == Seq::<Api<P>>::empty(),
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::already_contains
%requires
    self.wf(),
%ensures
    r == has_name(self.apis@, *name),
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::is_empty
%ensures
    r == (self.apis@.len() == 0),
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::iter
%ensures
    r.pos() == 0, r.all().len() == self.apis@.len(),
    forall|i: int| 0 <= i < r.all().len() ==> *#[trigger] r.all()[i] == self.apis@[i],
    forall|i: int| 0 <= i < r.all().len() ==> *r.all()[i] == #[trigger] self.apis@[i],
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::into_iter
%ensures
    r.pos() == 0, r.all() == self.apis@,
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::retain
%sig
pub fn retain<F>(&mut self, f: F) where F: Fn(&Api<P>) -> bool
%requires
    old(self).wf(),
    forall|i: int| 0 <= i < old(self).apis@.len() ==> f.requires((&#[trigger] old(self).apis@[i],)),
%ensures
    final(self).wf(),
    vx_retained(old(self).apis@, final(self).apis@, vx_ret_m(old(self).apis@, final(self).apis@), f),
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::push
%requires
    old(self).wf(),
%ensures
    final(self).wf(),
    pushed(old(self).apis@, api, final(self).apis@),
%decreases
    (if has_name(old(self).apis@, api.qname()) { 1int } else { 0int }),
%begin
    broadcast use apivec_lemmas;
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::extend
%requires
    old(self).wf(), it.pos() == 0,
%ensures
    final(self).wf(),
    pushed_all(old(self).apis@, it.all(), final(self).apis@),
%nloops 1
%loopbefore 0
    let ghost start = self.apis@;
    let ghost mut hist: Seq<Seq<Api<P>>> = seq![start];
%loop 0
    invariant self.wf(), push_trace(start, __all0, __it0.pos(), hist), hist.last() == self.apis@,
%loopend 0
    proof { hist = hist.push(self.apis@); }
%end
    assert(push_trace(start, __all0, __all0.len() as int, hist));
@@end
@@fn engine/src/conversion/apivec.rs ApiVec::append
%requires
    old(self).wf(), old(more).wf(),
%ensures
    final(self).wf(),
    pushed_all(old(self).apis@, old(more).apis@, final(self).apis@),
@@end
@@fn engine/src/conversion/apivec.rs <FromIterator for ApiVec>::from_iter
%requires
    iter.pos() == 0,
%ensures
    r.wf(),
    pushed_all(Seq::empty(), iter.all(), r.apis@),
%nloops 1
%loopbefore 0
    let ghost start = this.apis@;
    let ghost mut hist: Seq<Seq<Api<P>>> = seq![start];
%loop 0
    invariant this.wf(), push_trace(start, __all0, __it0.pos(), hist), hist.last() == this.apis@, start == Seq::<Api<P>>::empty(),
%loopend 0
    proof { hist = hist.push(this.apis@); }
%end
    assert(push_trace(start, __all0, __all0.len() as int, hist));
@@end
}
/// Adding the items of `items` one after the other.
pub open spec fn push_trace<P: AnalysisPhase>(before: Seq<Api<P>>, items: Seq<Api<P>>, n: int, hist: Seq<Seq<Api<P>>>) -> bool {
    &&& hist.len() == n + 1
    &&& hist[0] == before
    &&& forall|k: int| 0 <= k < n ==> pushed(#[trigger] hist[k], items[k], hist[k + 1])
}
pub open spec fn pushed_all<P: AnalysisPhase>(before: Seq<Api<P>>, items: Seq<Api<P>>, after: Seq<Api<P>>) -> bool {
    exists|hist: Seq<Seq<Api<P>>>| #[trigger] push_trace(before, items, items.len() as int, hist) && hist.last() == after
}
impl<P: AnalysisPhase> VxDefault for ApiVec<P> { open spec fn default_spec(r: Self) -> bool { r.wf() && r.apis@ == Seq::<Api<P>>::empty() } }
pub proof fn lemma_pushed_one<P: AnalysisPhase>(before: Seq<Api<P>>, api: Api<P>, after: Seq<Api<P>>)
    requires pushed_all(before, seq![api], after), !has_name(before, api.qname()),
    ensures after == before.push(api),
{
    let hist = choose|hist: Seq<Seq<Api<P>>>| #[trigger] push_trace(before, seq![api], 1, hist) && hist.last() == after;
    assert(pushed(hist[0], seq![api][0], hist[0int + 1int]));
}
} // verus!
