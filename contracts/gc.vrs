@@include core.rs
@@include qname.rs
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
@@include fnphase.rs
verus! {
// The allowlist is abstract here; the `config` unit gives it its meaning.
#[verifier::external_body]
pub struct IncludeCppConfig { x: u8 }
#[verifier::external_body]
pub struct CppNameStr { x: u8 }
impl QualifiedName {
    pub uninterp spec fn cpp_name_spec(&self) -> CppNameStr;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(cpp_name_spec)]
    pub fn to_cpp_name(&self) -> (r: CppNameStr) ensures r == self.cpp_name_spec() { unimplemented!() }
}
impl IncludeCppConfig {
    pub uninterp spec fn on_allowlist(&self, n: &CppNameStr) -> bool;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(on_allowlist)]
    pub fn is_on_allowlist(&self, n: &CppNameStr) -> (r: bool) ensures r == self.on_allowlist(n) { unimplemented!() }
}
impl Api<FnPhase> {
    pub uninterp spec fn allow_name(&self) -> QualifiedName;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(allow_name)]
    pub fn name_for_allowlist(&self) -> (r: QualifiedName) ensures r == self.allow_name() { unimplemented!() }
}
/// The user asked for this item.
pub open spec fn is_root(api: Api<FnPhase>, config: IncludeCppConfig) -> bool {
    config.on_allowlist(&api.allow_name().cpp_name_spec())
}
pub open spec fn root_name(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, n: QualifiedName) -> bool {
    exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).qname() == n && is_root(a[i], config)
}
/// Item n needs item d.
pub open spec fn edge(a: Seq<Api<FnPhase>>, n: QualifiedName, d: QualifiedName) -> bool {
    exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).qname() == n && is_dep(a[i], d)
}
pub open spec fn is_path(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, p: Seq<QualifiedName>) -> bool {
    &&& p.len() > 0
    &&& root_name(a, config, p[0])
    &&& forall|k: int| 0 <= k < p.len() - 1 ==> edge(a, #[trigger] p[k], p[k + 1])
}
/// n is wanted: asked for, or needed (transitively) by something asked for.
pub open spec fn wanted(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, n: QualifiedName) -> bool {
    exists|p: Seq<QualifiedName>| #[trigger] is_path(a, config, p) && p.last() == n
}
pub proof fn lemma_wanted_root(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, n: QualifiedName)
    requires root_name(a, config, n),
    ensures wanted(a, config, n),
{ let p = seq![n]; assert(is_path(a, config, p) && p.last() == n); }
pub proof fn lemma_wanted_edge(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, n: QualifiedName, d: QualifiedName)
    requires wanted(a, config, n), edge(a, n, d),
    ensures wanted(a, config, d),
{
    let p = choose|p: Seq<QualifiedName>| #[trigger] is_path(a, config, p) && p.last() == n;
    let q = p.push(d);
    assert forall|k: int| 0 <= k < q.len() - 1 implies edge(a, #[trigger] q[k], q[k + 1]) by {
        if k < p.len() - 1 { assert(edge(a, p[k], p[k + 1])); }
    }
    assert(q[0] == p[0]);
    assert(is_path(a, config, q) && q.last() == d);
}
/// Anything wanted lies in every set that holds the roots and is closed.
pub proof fn lemma_wanted_in_closed(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, s: Set<QualifiedName>, n: QualifiedName)
    requires wanted(a, config, n),
        forall|m: QualifiedName| #[trigger] root_name(a, config, m) ==> s.contains(m),
        forall|m: QualifiedName, d: QualifiedName| s.contains(m) && #[trigger] edge(a, m, d) ==> s.contains(d),
    ensures s.contains(n),
{
    let p = choose|p: Seq<QualifiedName>| #[trigger] is_path(a, config, p) && p.last() == n;
    lemma_path_in_closed(a, config, s, p, p.len() - 1);
}
pub proof fn lemma_path_in_closed(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, s: Set<QualifiedName>, p: Seq<QualifiedName>, k: int)
    requires is_path(a, config, p), 0 <= k < p.len(),
        forall|m: QualifiedName| #[trigger] root_name(a, config, m) ==> s.contains(m),
        forall|m: QualifiedName, d: QualifiedName| s.contains(m) && #[trigger] edge(a, m, d) ==> s.contains(d),
    ensures s.contains(p[k]),
    decreases k,
{
    if k > 0 { lemma_path_in_closed(a, config, s, p, k - 1); assert(edge(a, p[k - 1], p[k - 1 + 1])); }
}
pub open spec fn names_of(a: Seq<Api<FnPhase>>, n: int) -> Set<QualifiedName>
    decreases n,
{ if n <= 0 { Set::empty() } else { names_of(a, n - 1).insert(a[n - 1].qname()) } }
/// by_typename after indexing the first n items.
pub open spec fn indexed(m: Map<QualifiedName, ApiVec<FnPhase>>, a: Seq<Api<FnPhase>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains((#[trigger] a[i]).qname()) && m[a[i].qname()].apis@ == seq![a[i]] && m[a[i].qname()].wf()
    &&& forall|q: QualifiedName| #[trigger] m.dom().contains(q) ==> exists|i: int| 0 <= i < n && (#[trigger] a[i]).qname() == q
}
#[verifier::opaque]
pub open spec fn gc_inv(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, todos: Seq<QualifiedName>, done: Set<QualifiedName>, m: Map<QualifiedName, ApiVec<FnPhase>>, out: Seq<Api<FnPhase>>) -> bool {
    &&& forall|i: int| 0 <= i < todos.len() ==> wanted(a, config, #[trigger] todos[i])
    &&& forall|n: QualifiedName| #[trigger] done.contains(n) ==> wanted(a, config, n)
    &&& forall|n: QualifiedName| #[trigger] root_name(a, config, n) ==> done.contains(n) || vx_has(todos, n)
    &&& forall|n: QualifiedName, d: QualifiedName| done.contains(n) && #[trigger] edge(a, n, d) ==> done.contains(d) || vx_has(todos, d)
    &&& forall|i: int| 0 <= i < a.len() ==> (done.contains((#[trigger] a[i]).qname()) <==> vx_has(out, a[i]))
    &&& forall|i: int| 0 <= i < a.len() && !done.contains((#[trigger] a[i]).qname()) ==> m.dom().contains(a[i].qname()) && m[a[i].qname()].apis@ == seq![a[i]] && m[a[i].qname()].wf()
    &&& forall|q: QualifiedName| #[trigger] m.dom().contains(q) ==> !done.contains(q) && has_name(a, q)
    &&& forall|j: int| 0 <= j < out.len() ==> vx_has(a, #[trigger] out[j]) && done.contains(out[j].qname())
}
pub proof fn lemma_has_remove0(t: Seq<QualifiedName>, n: QualifiedName)
    requires t.len() > 0,
    ensures vx_has(t, n) == (t[0] == n || vx_has(t.remove(0), n)),
{
    let u = t.remove(0);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == t[i + 1] by {}
    if vx_has(t, n) {
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == n;
        if i > 0 { assert(u[i - 1] == n); }
    }
    if vx_has(u, n) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == n; assert(t[i + 1] == n); }
}
pub proof fn lemma_step_skip(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, todos: Seq<QualifiedName>, done: Set<QualifiedName>, m: Map<QualifiedName, ApiVec<FnPhase>>, out: Seq<Api<FnPhase>>)
    requires gc_inv(a, config, todos, done, m, out), todos.len() > 0, done.contains(todos[0]),
    ensures gc_inv(a, config, todos.remove(0), done, m, out),
{
    reveal(gc_inv);
    assert forall|n: QualifiedName| #[trigger] vx_has(todos, n) implies n == todos[0] || vx_has(todos.remove(0), n) by { lemma_has_remove0(todos, n); }
    assert forall|i: int| 0 <= i < todos.remove(0).len() implies wanted(a, config, #[trigger] todos.remove(0)[i]) by { assert(todos.remove(0)[i] == todos[i + 1]); }
}
pub proof fn lemma_step_missing(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, todos: Seq<QualifiedName>, done: Set<QualifiedName>, m: Map<QualifiedName, ApiVec<FnPhase>>, out: Seq<Api<FnPhase>>)
    requires gc_inv(a, config, todos, done, m, out), todos.len() > 0, !done.contains(todos[0]), !m.dom().contains(todos[0]),
    ensures gc_inv(a, config, todos.remove(0), done.insert(todos[0]), m.remove(todos[0]), out),
{
    reveal(gc_inv);
    let t = todos[0];
    assert(wanted(a, config, todos[0]));
    assert forall|n: QualifiedName| #[trigger] vx_has(todos, n) implies n == todos[0] || vx_has(todos.remove(0), n) by { lemma_has_remove0(todos, n); }
    assert forall|i: int| 0 <= i < todos.remove(0).len() implies wanted(a, config, #[trigger] todos.remove(0)[i]) by { assert(todos.remove(0)[i] == todos[i + 1]); }
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).qname() != t by {}
    assert(m.remove(t) =~= m);
}
pub proof fn lemma_step_item(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, todos: Seq<QualifiedName>, done: Set<QualifiedName>, m: Map<QualifiedName, ApiVec<FnPhase>>, out: Seq<Api<FnPhase>>, item: Api<FnPhase>, todos2: Seq<QualifiedName>)
    requires gc_inv(a, config, todos, done, m, out), todos.len() > 0, !done.contains(todos[0]), m.dom().contains(todos[0]),
        names_unique(a),
        m[todos[0]].apis@ == seq![item],
        forall|d: QualifiedName| #[trigger] vx_has(todos2, d) <==> (vx_has(todos.remove(0), d) || is_dep(item, d)),
    ensures gc_inv(a, config, todos2, done.insert(todos[0]), m.remove(todos[0]), out.push(item)),
        !has_name(out, item.qname()),
{
    reveal(gc_inv);
    broadcast use vx_has_lemmas;
    let t = todos[0];
    let done2 = done.insert(t);
    assert(wanted(a, config, todos[0]));
    assert(has_name(a, t));
    let k = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).qname() == t;
    assert(seq![item][0] == item && seq![a[k]][0] == a[k]);
    assert(item == a[k]);
    assert forall|n: QualifiedName| #[trigger] vx_has(todos, n) implies n == t || vx_has(todos2, n) by { lemma_has_remove0(todos, n); }
    assert forall|d: QualifiedName| #[trigger] edge(a, t, d) implies vx_has(todos2, d) by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).qname() == t && is_dep(a[i], d);
        assert(i == k);
        assert(is_dep(item, d));
    }
    assert forall|i: int| 0 <= i < todos2.len() implies wanted(a, config, #[trigger] todos2[i]) by {
        let d = todos2[i];
        assert(vx_has(todos2, d));
        if vx_has(todos.remove(0), d) { lemma_has_remove0(todos, d); let q = choose|q: int| 0 <= q < todos.len() && #[trigger] todos[q] == d; }
        else {
            assert(edge(a, t, d)) by { assert(a[k].qname() == t && is_dep(a[k], d)); }
            lemma_wanted_edge(a, config, t, d);
        }
    }
    assert forall|i: int| 0 <= i < a.len() implies (done2.contains((#[trigger] a[i]).qname()) <==> vx_has(out.push(item), a[i])) by {
        if a[i].qname() == t { assert(i == k); }
    }
}
pub proof fn lemma_inv_item(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, todos: Seq<QualifiedName>, done: Set<QualifiedName>, m: Map<QualifiedName, ApiVec<FnPhase>>, out: Seq<Api<FnPhase>>, q: QualifiedName)
    requires gc_inv(a, config, todos, done, m, out), m.dom().contains(q),
    ensures m[q].wf(), m[q].apis@ == seq![m[q].apis@[0]],
{
    reveal(gc_inv);
    assert(has_name(a, q));
    let k = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).qname() == q;
    assert(m[q].apis@ =~= seq![m[q].apis@[0]]);
}
pub proof fn lemma_gc_init(a: Seq<Api<FnPhase>>, config: IncludeCppConfig, todos: Seq<QualifiedName>, m: Map<QualifiedName, ApiVec<FnPhase>>)
    requires indexed(m, a, a.len() as int),
        forall|j: int| 0 <= j < todos.len() ==> root_name(a, config, #[trigger] todos[j]),
        forall|n: QualifiedName| #[trigger] root_name(a, config, n) ==> vx_has(todos, n),
    ensures gc_inv(a, config, todos, Set::empty(), m, Seq::empty()),
{
    reveal(gc_inv);
    assert forall|i: int| 0 <= i < todos.len() implies wanted(a, config, #[trigger] todos[i]) by { lemma_wanted_root(a, config, todos[i]); }
}
@@fn engine/src/conversion/analysis/gc.rs fn filter_apis_by_following_edges_from_allowlist
%requires
    apis.wf(),
%ensures
    r.wf(),
    // sound and complete: exactly the wanted items survive, each unchanged.
    forall|j: int| 0 <= j < r.apis@.len() ==> vx_has(apis.apis@, #[trigger] r.apis@[j]) && wanted(apis.apis@, *config, r.apis@[j].qname()),
    forall|i: int| 0 <= i < apis.apis@.len() && wanted(apis.apis@, *config, (#[trigger] apis.apis@[i]).qname()) ==> vx_has(r.apis@, apis.apis@[i]),
%begin
    broadcast use vx_has_lemmas;
    broadcast use apivec_lemmas;
    let ghost a = apis.apis@;
%nloops 2
%closure 1
 -> (vr: It<QualifiedName>) ensures vr.pos() == 0, forall|d: QualifiedName| #[trigger] vx_has(vr.all(), d) <==> is_dep(*api, d), forall|d: QualifiedName| #[trigger] is_dep(*api, d) ==> vx_has(vr.all(), d)
%loop 0
    invariant __all0 == a, names_unique(a), indexed(by_typename@, a, __it0.pos()),
%loopbegin 0
    let ghost pos0 = __it0.pos();
%loopbefore 0
    proof {
        assert forall|n: QualifiedName| #[trigger] root_name(a, *config, n) implies vx_has(todos@, n) by {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).qname() == n && is_root(a[i], *config);
        }
        assert forall|j: int| 0 <= j < todos@.len() implies root_name(a, *config, #[trigger] todos@[j]) by {}
    }
    let ghost todos0 = todos@;
%loopbefore 1
    proof { lemma_gc_init(a, *config, todos@, by_typename@); }
%loopbegin 1
    broadcast use vx_has_lemmas; broadcast use apivec_lemmas;
    let ghost t0 = todos@; let ghost d0 = done@; let ghost m0 = by_typename@; let ghost o0 = output.apis@;
    proof { if t0.len() > 0 && d0.contains(t0[0]) { lemma_step_skip(a, *config, t0, d0, m0, o0); }
        if t0.len() > 0 && m0.dom().contains(t0[0]) { lemma_inv_item(a, *config, t0, d0, m0, o0, t0[0]); } }
%loopend 1
    proof {
        if d0.contains(t0[0]) { }
        else if m0.dom().contains(t0[0]) {
            let item = m0[t0[0]].apis@[0];
            assert forall|d: QualifiedName| #[trigger] vx_has(todos@, d) <==> (vx_has(t0.remove(0), d) || is_dep(item, d)) by { }
            lemma_step_item(a, *config, t0, d0, m0, o0, item, todos@);
            lemma_pushed_one(o0, item, output.apis@);
        } else { lemma_step_missing(a, *config, t0, d0, m0, o0); }
    }
%loop 1
    invariant names_unique(a), output.wf(), gc_inv(a, *config, todos@, done@, by_typename@, output.apis@),
    decreases by_typename@.dom().len(), todos@.len(),
%end
    proof {
        reveal(gc_inv);
        assert forall|i: int| 0 <= i < a.len() && wanted(a, *config, (#[trigger] a[i]).qname()) implies vx_has(output.apis@, a[i]) by {
            lemma_wanted_in_closed(a, *config, done@, a[i].qname());
        }
    }
@@end
} // verus!
fn main(){}
