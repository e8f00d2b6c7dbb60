verus! {
// --- error_reporter.rs: an item which fails is replaced by a marker ---------------
/// What becomes of one item: what the conversion made of it, or a marker of the
/// same name carrying the error.
pub open spec fn conv_item<A: AnalysisPhase, B: AnalysisPhase>(api: Api<A>, r: Result<It<Api<B>>, ConvertErrorFromCpp>, out: It<Api<B>>) -> bool {
    &&& out.pos() == 0
    &&& match r {
        Ok(it) => out == it,
        Err(e) => out.all().len() == 1 && out.all()[0].is_ignored() && out.all()[0].info() == api.info() && out.all()[0]->IgnoredItem_err == e && out.all()[0]->IgnoredItem_ctx is Some,
    }
}
pub open spec fn conv_one<A: AnalysisPhase, B: AnalysisPhase, F: Fn(Api<A>) -> Result<It<Api<B>>, ConvertErrorFromCpp>>(api: Api<A>, f: F, out: It<Api<B>>) -> bool {
    exists|r: Result<It<Api<B>>, ConvertErrorFromCpp>| #[trigger] f.ensures((api,), r) && conv_item(api, r, out)
}
pub open spec fn converted<A: AnalysisPhase, B: AnalysisPhase, F: Fn(Api<A>) -> Result<It<Api<B>>, ConvertErrorFromCpp>>(a: Seq<Api<A>>, f: F, outs: Seq<It<Api<B>>>) -> bool {
    &&& outs.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> conv_one(a[i], f, #[trigger] outs[i])
}
@@fn engine/src/conversion/error_reporter.rs fn api_or_error
%sig
pub fn api_or_error<T: AnalysisPhase>(name: ApiName, res: Result<It<Api<T>>, ConvertErrorWithContext>) -> (r: It<Api<T>>)
%prerewrite? `Box :: new` => `vx_box`
%prerewrite? `api_or_error` => `res`
%requires
    res matches Ok(it) ==> it.pos() == 0,
%ensures
    r.pos() == 0,
    res matches Ok(it) ==> r == it,
    res matches Err(e) ==> r.all().len() == 1 && r.all()[0].is_ignored() && r.all()[0].info() == name && r.all()[0]->IgnoredItem_err == e.0 && r.all()[0]->IgnoredItem_ctx == e.1,
@@end
@@fn engine/src/conversion/error_reporter.rs fn convert_item_apis
%sig
pub fn convert_item_apis<F, A, B>(in_apis: ApiVec<A>, out_apis: &mut ApiVec<B>, fun: F) where F: Fn(Api<A>) -> Result<It<Api<B>>, ConvertErrorFromCpp>, A: AnalysisPhase, B: AnalysisPhase
%requires
    old(out_apis).wf(),
    forall|i: int| 0 <= i < in_apis.apis@.len() ==> fun.requires((#[trigger] in_apis.apis@[i],)),
    forall|a: Api<A>, r: Result<It<Api<B>>, ConvertErrorFromCpp>| #[trigger] fun.ensures((a,), r) ==> (r matches Ok(it) ==> it.pos() == 0),
%ensures
    final(out_apis).wf(),
    exists|outs: Seq<It<Api<B>>>| #![trigger vx_flat(outs)] converted(in_apis.apis@, fun, outs) && pushed_all(old(out_apis).apis@, vx_flat(outs), final(out_apis).apis@),
%closure 0
 -> (vr: It<Api<B>>) requires fun.requires((api,)) ensures conv_one(api, fun, vr)
%closure 1
 -> (vr: ConvertErrorWithContext) ensures vr.0 == e && vr.1 is Some
@@end
pub fn vx_box<T>(t: T) -> (r: T) ensures r == t { t }
/// Adding items whose names are all fresh simply appends them.
pub proof fn lemma_pushed_fresh<P: AnalysisPhase>(before: Seq<Api<P>>, items: Seq<Api<P>>, after: Seq<Api<P>>)
    requires pushed_all(before, items, after), names_unique(before + items),
    ensures after == before + items,
{
    let hist = choose|hist: Seq<Seq<Api<P>>>| #[trigger] push_trace(before, items, items.len() as int, hist) && hist.last() == after;
    lemma_push_fresh_to(before, items, hist, items.len() as int);
    assert(items.take(items.len() as int) =~= items);
}
pub proof fn lemma_push_fresh_to<P: AnalysisPhase>(before: Seq<Api<P>>, items: Seq<Api<P>>, hist: Seq<Seq<Api<P>>>, k: int)
    requires push_trace(before, items, items.len() as int, hist), names_unique(before + items), 0 <= k <= items.len(),
    ensures hist[k] == before + items.take(k),
    decreases k,
{
    if k == 0 { assert(items.take(0) =~= Seq::empty()); assert(before + items.take(0) =~= before); }
    else {
        lemma_push_fresh_to(before, items, hist, k - 1);
        let h = hist[k - 1];
        assert(pushed(hist[k - 1], items[k - 1], hist[k - 1 + 1]));
        if has_name(h, items[k - 1].qname()) {
            let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).qname() == items[k - 1].qname();
            let all = before + items;
            assert(all[i] == h[i]);
            assert(all[before.len() + k - 1] == items[k - 1]);
            assert(all[i].qname() == all[before.len() + k - 1].qname());
        }
        assert(h.push(items[k - 1]) =~= before + items.take(k));
    }
}
/// One output per input: the outputs in order.
pub proof fn lemma_flat_ones<U>(o: Seq<It<U>>)
    requires forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).all().len() == 1,
    ensures vx_flat(o).len() == o.len(), forall|i: int| 0 <= i < o.len() ==> vx_flat(o)[i] == (#[trigger] o[i]).all()[0],
    decreases o.len(),
{
    if o.len() > 0 {
        lemma_flat_ones(o.drop_last());
        assert forall|i: int| 0 <= i < o.len() implies vx_flat(o)[i] == (#[trigger] o[i]).all()[0] by {
            if i < o.len() - 1 { assert(o.drop_last()[i] == o[i]); }
        }
    }
}
impl<P: AnalysisPhase> VxCollect<Api<P>> for ApiVec<P> {
    /// `collect()` is `from_iter`
    open spec fn collected(s: Seq<Api<P>>, r: Self) -> bool { r.wf() && pushed_all(Seq::empty(), s, r.apis@) }
    #[verifier::external_body]
    fn vx_new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, x: Api<P>) { unimplemented!() }
}
} // verus!
