verus! {
@@type engine/src/conversion/apivec.rs ApiVec
pre #[verifier::reject_recursive_types(P)]
keep apis names
@@end
pub open spec fn has_name<P: AnalysisPhase>(s: Seq<Api<P>>, n: QualifiedName) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).qname() == n
}
pub open spec fn names_unique<P: AnalysisPhase>(s: Seq<Api<P>>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).qname() == (#[trigger] s[j]).qname() ==> i == j
}
/// `to` is the subsequence of `from` of the items not named `n`.
pub open spec fn without_name<P: AnalysisPhase>(from: Seq<Api<P>>, to: Seq<Api<P>>, m: Seq<int>, n: QualifiedName) -> bool {
    &&& m.len() == to.len()
    &&& forall|j: int| 0 <= j < m.len() ==> 0 <= #[trigger] m[j] < from.len() && to[j] == from[m[j]] && from[m[j]].qname() != n
    &&& forall|j: int| 0 <= j < to.len() ==> #[trigger] to[j] == from[m[j]] && to[j].qname() != n
    &&& forall|j: int, k: int| 0 <= j < k < m.len() ==> #[trigger] m[j] < #[trigger] m[k]
    &&& forall|i: int| 0 <= i < from.len() ==> (#[trigger] from[i]).qname() == n || vx_has(m, i)
}
/// The contract of adding one item: fresh names are appended; a second item of
/// the same name is either dropped (error markers) or replaces every item of
/// that name by a single error marker.
pub open spec fn pushed<P: AnalysisPhase>(before: Seq<Api<P>>, api: Api<P>, after: Seq<Api<P>>) -> bool {
    if !has_name(before, api.qname()) { after == before.push(api) }
    else if api.is_ignored() { after == before }
    else {
        &&& after.len() >= 1
        &&& after.last().is_ignored() && after.last().qname() == api.qname()
        &&& without_name(before, after.drop_last(), vx_ret_m(before, after.drop_last()), api.qname())
    }
}
impl<P: AnalysisPhase> ApiVec<P> {
    pub open spec fn wf(&self) -> bool {
        &&& names_unique(self.apis@)
        &&& forall|n: QualifiedName| #[trigger] self.names@.contains(n) <==> has_name(self.apis@, n)
    }
}
pub broadcast proof fn lemma_has_name_push<P: AnalysisPhase>(s: Seq<Api<P>>, a: Api<P>, n: QualifiedName)
    ensures #[trigger] has_name(s.push(a), n) == (has_name(s, n) || a.qname() == n),
{
    if has_name(s, n) {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).qname() == n;
        assert(s.push(a)[i].qname() == n);
    }
    if a.qname() == n { assert(s.push(a)[s.len() as int].qname() == n); }
}
pub broadcast proof fn lemma_push_drop_last<T>(s: Seq<T>, a: T)
    ensures #[trigger] s.push(a).drop_last() == s,
{
    assert(s.push(a).drop_last() =~= s);
}
pub broadcast group apivec_lemmas { lemma_has_name_push, lemma_push_drop_last }
} // verus!
