@@include core.rs
@@include qname.rs
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
@@include fnphase.rs
verus! {
pub type A = Api<FnPhase>;
pub struct TypeDatabase;
#[verifier::external_body]
pub fn known_types() -> (r: TypeDatabase) { unimplemented!() }
pub uninterp spec fn known(q: QualifiedName) -> bool;
impl TypeDatabase {
    #[verifier::external_body]
    pub fn is_known_type(&self, q: &QualifiedName) -> (r: bool) ensures r == known(*q) { unimplemented!() }
}
pub fn vx_drop<T>(t: T) {}
// --- the names an item makes available ---------------------------------------
pub uninterp spec fn sub_cpp(n: SubclassName) -> QualifiedName;
pub uninterp spec fn sub_holder(n: SubclassName) -> Ident;
pub uninterp spec fn root_name(i: Ident) -> QualifiedName;
impl SubclassName {
    #[verifier::external_body]
    pub fn cpp(&self) -> (r: QualifiedName) ensures r == sub_cpp(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn holder(&self) -> (r: Ident) ensures r == sub_holder(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_root_name(i: Ident) -> (r: QualifiedName) ensures r == root_name(i) { unimplemented!() }
pub open spec fn offers(x: A, q: QualifiedName) -> bool {
    q == x.qname() || (x matches Api::Subclass { name, .. } && (q == root_name(sub_holder(name)) || q == sub_cpp(name)))
}
impl Api<FnPhase> {
@@fn engine/src/conversion/api.rs Api::valid_types
%sig
pub fn valid_types(&self) -> (r: It<QualifiedName>)
%prerewrite? `Box :: new` => `vx_id`
%prerewrite? `QualifiedName :: new (& Namespace :: new () , name . holder ())` => `vx_root_name(name.holder())`
%ensures
    r.pos() == 0,
    forall|q: QualifiedName| #[trigger] vx_has(r.all(), q) <==> offers(*self, q),
    forall|q: QualifiedName| #[trigger] offers(*self, q) ==> vx_has(r.all(), q),
%begin
    broadcast use vx_has_lemmas;
@@end
}
pub uninterp spec fn ident_of(s: Seq<char>) -> Ident;
#[verifier::external_body]
pub fn make_ident(s: &String) -> (r: Ident) ensures r == ident_of(s@) { unimplemented!() }
/// The name users know an item by.
pub open spec fn known_as(x: A) -> Ident { match x { Api::Function { analysis, .. } => ident_of(analysis.rust_name@), _ => x.qname().final_ident() } }
/// Where the error goes: next to where the item itself would have been.
pub open spec fn marker_for(x: A) -> Option<ErrorContext> {
    match x {
        Api::Function { analysis, .. } if analysis.kind is TraitMethod => None,
        Api::Function { analysis, .. } if analysis.kind is Method => Some(method_ctx(analysis.kind->Method_impl_for.final_ident(), known_as(x))),
        _ => Some(item_ctx(known_as(x))),
    }
}
@@fn engine/src/conversion/analysis/remove_ignored.rs fn create_ignore_item
%ensures
    r is IgnoredItem, r.info() == api.info(), r->IgnoredItem_err == err, r->IgnoredItem_ctx == marker_for(api),
@@end
// --- which items have to go ---------------------------------------------------
/// n needs d
pub open spec fn edge(a: Seq<A>, n: QualifiedName, d: QualifiedName) -> bool {
    exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).qname() == n && is_dep(a[i], d)
}
pub open spec fn failed(a: Seq<A>, d: QualifiedName) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is IgnoredItem && a[i].qname() == d }
pub open spec fn offered(a: Seq<A>, d: QualifiedName) -> bool { exists|i: int| 0 <= i < a.len() && !((#[trigger] a[i]) is IgnoredItem) && offers(a[i], d) }
/// no binding exists for d
pub open spec fn gone(a: Seq<A>, d: QualifiedName) -> bool { failed(a, d) || (!offered(a, d) && !known(d)) }
pub open spec fn is_path(a: Seq<A>, p: Seq<QualifiedName>) -> bool {
    &&& p.len() > 1
    &&& gone(a, p.last())
    &&& forall|k: int| 0 <= k < p.len() - 1 ==> edge(a, #[trigger] p[k], p[k + 1])
}
/// n needs, directly or through others, something which has no binding
pub open spec fn doomed(a: Seq<A>, n: QualifiedName) -> bool { exists|p: Seq<QualifiedName>| #[trigger] is_path(a, p) && p[0] == n }
pub proof fn lemma_doomed(a: Seq<A>, n: QualifiedName, d: QualifiedName)
    requires edge(a, n, d), gone(a, d) || doomed(a, d),
    ensures doomed(a, n),
{
    if gone(a, d) { let p = seq![n, d]; assert(is_path(a, p) && p[0] == n); }
    else {
        let p = choose|p: Seq<QualifiedName>| #[trigger] is_path(a, p) && p[0] == d;
        let q = seq![n] + p;
        assert forall|k: int| 0 <= k < q.len() - 1 implies edge(a, #[trigger] q[k], q[k + 1]) by { if k > 0 { assert(edge(a, p[k - 1], p[k])); } }
        assert(q.last() == p.last());
        assert(is_path(a, q) && q[0] == n);
    }
}
/// what is kept only needs what is kept
pub open spec fn closed(a: Seq<A>, cur: Seq<A>) -> bool {
    forall|i: int, d: QualifiedName| 0 <= i < cur.len() && #[trigger] is_dep(cur[i], d) ==> !failed(cur, d) && (offered(a, d) || known(d))
}
/// so nothing doomed is kept
pub proof fn lemma_kept(a: Seq<A>, cur: Seq<A>, i: int)
    requires pruned(a, cur), closed(a, cur), 0 <= i < a.len(), names_unique(a), doomed(a, a[i].qname()),
    ensures cur[i] is IgnoredItem,
{
    let p = choose|p: Seq<QualifiedName>| #[trigger] is_path(a, p) && p[0] == a[i].qname();
    lemma_path(a, cur, i, p, p.len() as int - 2);
}
pub proof fn lemma_path(a: Seq<A>, cur: Seq<A>, i: int, p: Seq<QualifiedName>, k: int)
    requires pruned(a, cur), closed(a, cur), 0 <= i < a.len(), names_unique(a), is_path(a, p), p[0] == a[i].qname(), 0 <= k < p.len() - 1,
        k < p.len() - 2 ==> failed(cur, p[k + 1]),
    ensures cur[i] is IgnoredItem,
    decreases k,
{
    assert(edge(a, p[k], p[k + 1]));
    let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).qname() == p[k] && is_dep(a[j], p[k + 1]);
    if !(cur[j] is IgnoredItem) {
        assert(cur[j] == a[j]);
        assert(is_dep(cur[j], p[k + 1]));
        if k == p.len() - 2 {
            assert(gone(a, p[k + 1]));
            if failed(a, p[k + 1]) { let l = choose|l: int| 0 <= l < a.len() && (#[trigger] a[l]) is IgnoredItem && a[l].qname() == p[k + 1]; assert(cur[l] is IgnoredItem && cur[l].qname() == p[k + 1]); }
        }
        assert(false);
    }
    assert(cur[j].qname() == p[k]);
    assert(failed(cur, p[k]));
    if k > 0 { lemma_path(a, cur, i, p, k - 1); } else { assert(j == i); }
}
/// each item is still there, or has been replaced by an error under its name because it is doomed
pub open spec fn pruned(a: Seq<A>, cur: Seq<A>) -> bool {
    &&& cur.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> pruned1(a, a[i], #[trigger] cur[i])
}
pub open spec fn pruned1(a: Seq<A>, x: A, y: A) -> bool { y.info() == x.info() && (y == x || (withdrawn(x, y) && doomed(a, x.qname()))) }
pub open spec fn ignored_set(a: Seq<A>, s: Set<QualifiedName>) -> bool { forall|d: QualifiedName| #[trigger] s.contains(d) ==> failed(a, d) || doomed(a, d) }
pub open spec fn live(s: Seq<A>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { live(s.drop_last()) + (if s.last() is IgnoredItem { 0nat } else { 1nat }) } }
pub proof fn lemma_live(s: Seq<A>, t: Seq<A>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] is IgnoredItem ==> t[i] is IgnoredItem),
    ensures live(t) <= live(s), (exists|i: int| 0 <= i < s.len() && !(#[trigger] s[i] is IgnoredItem) && t[i] is IgnoredItem) ==> live(t) < live(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] is IgnoredItem ==> t.drop_last()[i] is IgnoredItem) by { assert(s[i] is IgnoredItem ==> t[i] is IgnoredItem); }
        lemma_live(s.drop_last(), t.drop_last());
        assert(s[s.len() - 1] is IgnoredItem ==> t[s.len() - 1] is IgnoredItem);
        if exists|i: int| 0 <= i < s.len() && !(#[trigger] s[i] is IgnoredItem) && t[i] is IgnoredItem {
            let i = choose|i: int| 0 <= i < s.len() && !(#[trigger] s[i] is IgnoredItem) && t[i] is IgnoredItem;
            if i < s.len() - 1 { assert(!(s.drop_last()[i] is IgnoredItem) && t.drop_last()[i] is IgnoredItem); }
        }
    }
}
pub proof fn lemma_pushed_unique(items: Seq<A>, after: Seq<A>)
    requires pushed_all(Seq::<A>::empty(), items, after), names_unique(items),
    ensures after == items,
{
    let hist = choose|hist: Seq<Seq<A>>| #[trigger] push_trace(Seq::<A>::empty(), items, items.len() as int, hist) && hist.last() == after;
    lemma_hist(items, hist, items.len() as int);
    assert(items.take(items.len() as int) =~= items);
}
pub proof fn lemma_hist(items: Seq<A>, hist: Seq<Seq<A>>, n: int)
    requires push_trace(Seq::<A>::empty(), items, items.len() as int, hist), names_unique(items), 0 <= n <= items.len(),
    ensures hist[n] == items.take(n),
    decreases n,
{
    if n > 0 {
        lemma_hist(items, hist, n - 1);
        assert(pushed(hist[n - 1], items[n - 1], hist[n - 1 + 1]));
        let b = items.take(n - 1);
        if has_name(b, items[n - 1].qname()) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).qname() == items[n - 1].qname(); assert(items[i].qname() == items[n - 1].qname()); }
        assert(b.push(items[n - 1]) =~= items.take(n));
    } else { assert(items.take(0) =~= Seq::<A>::empty()); }
}
/// one pass over the first k items
pub open spec fn pass(a: Seq<A>, old: Seq<A>, out: Seq<A>, s0: Set<QualifiedName>, s: Set<QualifiedName>, again: bool) -> bool {
    &&& out.len() <= old.len()
    &&& forall|i: int| 0 <= i < out.len() ==> passed(old[i], #[trigger] out[i]) && pruned1(a, a[i], out[i])
    &&& ignored_set(a, s)
    &&& forall|d: QualifiedName| s0.contains(d) ==> #[trigger] s.contains(d)
    &&& forall|i: int| 0 <= i < out.len() && (#[trigger] out[i]) is IgnoredItem ==> s.contains(out[i].qname())
    &&& !again ==> s == s0 && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]) == old[i] && fine(a, s0, out[i])
    &&& again ==> exists|i: int| 0 <= i < out.len() && !(old[i] is IgnoredItem) && (#[trigger] out[i]) is IgnoredItem
}
pub open spec fn passed(x: A, y: A) -> bool { y == x || (y is IgnoredItem && !(x is IgnoredItem)) }
pub open spec fn withdrawn(x: A, y: A) -> bool { y is IgnoredItem && y.info() == x.info() && y->IgnoredItem_ctx == marker_for(x) }
pub open spec fn fine(a: Seq<A>, s: Set<QualifiedName>, x: A) -> bool { forall|d: QualifiedName| #[trigger] is_dep(x, d) ==> !s.contains(d) && (offered(a, d) || known(d)) }
pub proof fn lemma_pass(a: Seq<A>, old: Seq<A>, out: Seq<A>, s0: Set<QualifiedName>, s: Set<QualifiedName>, s2: Set<QualifiedName>, again: bool, again2: bool, y: A)
    requires pass(a, old, out, s0, s, again), out.len() < old.len(), old.len() == a.len(), pruned(a, old),
        forall|i: int| 0 <= i < old.len() && (#[trigger] old[i]) is IgnoredItem ==> s0.contains(old[i].qname()),
        ({
            let x = old[out.len() as int];
            ||| y == x && s2 == s && again2 == again && fine(a, s, x)
            ||| withdrawn(x, y) && s2 == s.insert(x.qname()) && again2
                && exists|d: QualifiedName| #[trigger] is_dep(x, d) && (s.contains(d) || (!offered(a, d) && !known(d)))
        }),
    ensures pass(a, old, out.push(y), s0, s2, again2),
{
    let k = out.len() as int; let x = old[k]; let o2 = out.push(y);
    assert(pruned1(a, a[k], old[k]));
    if again2 && again { let i = choose|i: int| 0 <= i < out.len() && !(old[i] is IgnoredItem) && (#[trigger] out[i]) is IgnoredItem; assert(o2[i] is IgnoredItem); }
    assert forall|i: int| 0 <= i < o2.len() implies passed(old[i], #[trigger] o2[i]) && pruned1(a, a[i], o2[i]) by {
        if i < k { assert(passed(old[i], out[i]) && pruned1(a, a[i], out[i])); }
        else if y != x {
            let d = choose|d: QualifiedName| #[trigger] is_dep(x, d) && (s.contains(d) || (!offered(a, d) && !known(d)));
            assert(x == a[k]);
            assert(edge(a, x.qname(), d));
            lemma_doomed(a, x.qname(), d);
        }
    }
    assert forall|i: int| 0 <= i < o2.len() && (#[trigger] o2[i]) is IgnoredItem implies s2.contains(o2[i].qname()) by { if i < k { assert(out[i] is IgnoredItem); } }
    if y != x { assert(!(x is IgnoredItem)); assert(o2[k] is IgnoredItem); assert(pruned1(a, a[k], o2[k])); }
    if !again2 { assert forall|i: int| 0 <= i < o2.len() implies (#[trigger] o2[i]) == old[i] && fine(a, s0, o2[i]) by { if i < k { assert(out[i] == old[i] && fine(a, s0, out[i])); } } }
}
/// Everything which needs something that has no binding goes, nothing else does,
/// and each leaves an error under its own name.
@@fn engine/src/conversion/analysis/remove_ignored.rs fn filter_apis_by_ignored_dependents
%maploop `ignored_items . insert` => `ApiVec::from_iter`
%prerewrite? `std :: mem :: drop` => `vx_drop`
%prerewrite? `let (ignored_items , valid_items) : (Vec < & Api < _ > > , Vec < & Api < _ > >)` => `let (ignored_items, valid_items): (Vec<&A>, Vec<&A>)`
%prerewrite? `HashSet < _ >` => `HashSet<QualifiedName>`
%attr #[verifier::loop_isolation(false)]
%attr #[verifier::rlimit(60)]
%requires
    apis.wf(),
%ensures
    r.wf(), r.apis@.len() == apis.apis@.len(),
    forall|i: int| 0 <= i < r.apis@.len() ==> (#[trigger] r.apis@[i]).info() == apis.apis@[i].info(),
    forall|i: int| 0 <= i < r.apis@.len() ==> #[trigger] r.apis@[i] == apis.apis@[i] || (withdrawn(apis.apis@[i], r.apis@[i]) && doomed(apis.apis@, apis.apis@[i].qname())),
    forall|i: int| 0 <= i < r.apis@.len() && doomed(apis.apis@, apis.apis@[i].qname()) ==> (#[trigger] r.apis@[i]) is IgnoredItem,
    closed(apis.apis@, r.apis@),
%begin
    broadcast use vx_has_lemmas;
    let ghost a = apis.apis@;
%closure 0
 -> (vr: bool) ensures vr == (**api is IgnoredItem)
%closure 1
 -> (vr: QualifiedName) ensures vr == api.qname()
%closure 2
 -> (vr: It<QualifiedName>) ensures vr.pos() == 0 && (forall|q: QualifiedName| #[trigger] vx_has(vr.all(), q) <==> offers(*api, q)) && (forall|q: QualifiedName| #[trigger] offers(*api, q) ==> vx_has(vr.all(), q))
%closure 3
 -> (vr: bool) ensures vr == ignored_items@.contains(**dep)
%closure 4
 -> (vr: bool) ensures vr == (!valid_types@.contains(**dep) && !known(**dep))
%before? `if ! ignored_dependents . is_empty ()`
    proof {
        if ignored_dependents@ == Set::<QualifiedName>::empty() {
            assert forall|d: QualifiedName| #[trigger] is_dep(api, d) implies !ignored_items@.contains(d) by { if ignored_items@.contains(d) { assert(ignored_dependents@.contains(d)); } }
        } else {
            let d = choose|d: QualifiedName| ignored_dependents@.contains(d);
            assert(ignored_dependents@.contains(d)) by { if !ignored_dependents@.contains(d) { assert(ignored_dependents@ =~= Set::<QualifiedName>::empty()); } }
            assert(is_dep(api, d) && ignored_items@.contains(d));
        }
    }
%after? `let first = missing_deps . next () ;`
    proof {
        if first is Some { assert(is_dep(api, *first.unwrap())); assert(!valid_types@.contains(*first.unwrap())); }
        else { assert forall|d: QualifiedName| #[trigger] is_dep(api, d) implies offered(a, d) || known(d) by { if !offered(a, d) && !known(d) { assert(!valid_types@.contains(d)); } } }
    }
%nloops 2
%loopbefore 0
    proof {
        assert forall|d: QualifiedName| #[trigger] valid_types@.contains(d) <==> offered(a, d) by { }
        assert(ignored_set(a, ignored_items@));
        assert(pruned(a, apis.apis@));
    }
%loop 0
    invariant
        apis.wf(), pruned(a, apis.apis@), ignored_set(a, ignored_items@),
        forall|i: int| 0 <= i < a.len() && (#[trigger] apis.apis@[i]) is IgnoredItem ==> ignored_items@.contains(apis.apis@[i].qname()),
        !iterate_again ==> forall|i: int| 0 <= i < a.len() ==> fine(a, ignored_items@, #[trigger] apis.apis@[i]),
        forall|d: QualifiedName| #[trigger] valid_types@.contains(d) <==> offered(a, d),
    decreases live(apis.apis@) + (if iterate_again { 1nat } else { 0nat }),
%loopbegin 0
    let ghost old_apis = apis.apis@;
    let ghost s0 = ignored_items@;
    let ghost mut out = old_apis;
%loop 1
    invariant
        __all1 == old_apis, vx_out@.len() == __it1.pos(),
        pass(a, old_apis, vx_out@, s0, ignored_items@, iterate_again),
%loopbegin 1
    let ghost k = vx_out@.len() as int;
    let ghost s1 = ignored_items@;
    let ghost again1 = iterate_again;
    let ghost out1 = vx_out@;
    assert(api == old_apis[k]);
%loopend 1
    proof { lemma_pass(a, old_apis, out1, s0, s1, ignored_items@, again1, iterate_again, vx_out@[k]); assert(vx_out@ =~= out1.push(vx_out@[k])); }
%loopafter 1
    proof {
        out = vx_out@;
        assert forall|i: int| 0 <= i < out.len() implies (#[trigger] out[i]).qname() == old_apis[i].qname() by { assert(pruned1(a, a[i], out[i])); assert(pruned1(a, a[i], old_apis[i])); }
        assert(names_unique(out));
        lemma_live(old_apis, out);
    }
%loopend 0
    proof { lemma_pushed_unique(out, apis.apis@); }
%end
    proof {
        assert(closed(a, apis.apis@));
        assert forall|i: int| 0 <= i < a.len() && doomed(a, a[i].qname()) implies (#[trigger] apis.apis@[i]) is IgnoredItem by { lemma_kept(a, apis.apis@, i); }
    }
@@end
} // verus!
fn main(){}
