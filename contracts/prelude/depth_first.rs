verus! {
// --- depth_first.rs: types are visited after their fields and bases ---------------
pub trait HasFieldsAndBases: Sized {
    spec fn nm(&self) -> QualifiedName;
    spec fn needs(&self, d: QualifiedName) -> bool;
    fn name(&self) -> (r: &QualifiedName) ensures *r == self.nm();
    fn field_and_base_deps(&self) -> (r: It<&QualifiedName>)
        ensures r.pos() == 0, forall|q: QualifiedName| #[trigger] vx_has(r.all(), &q) <==> self.needs(q),
            forall|q: QualifiedName| #[trigger] self.needs(q) ==> vx_has(r.all(), &q);
}
/// A set of references is a set of what they refer to.
impl<'a, T> VxCollect<&'a T> for HashSet<T> {
    open spec fn collected(s: Seq<&'a T>, r: Self) -> bool {
        forall|x: T| #[trigger] r@.contains(x) <==> vx_has(s, &x)
    }
    #[verifier::external_body]
    fn vx_new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, x: &'a T) { unimplemented!() }
}
pub open spec fn vx_has_nm<T: HasFieldsAndBases>(s: Seq<&T>, n: QualifiedName) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == n }
pub open spec fn nms_unique<T: HasFieldsAndBases>(s: Seq<&T>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).nm() == (#[trigger] s[j]).nm() ==> i == j
}
/// Every item comes after those it needs.
pub open spec fn deps_first<T: HasFieldsAndBases>(input: Seq<&T>, order: Seq<&T>) -> bool {
    &&& order.len() == input.len()
    &&& forall|i: int| 0 <= i < order.len() ==> vx_has(input, #[trigger] order[i])
    &&& forall|x: &T| #[trigger] vx_has(input, x) ==> vx_has(order, x)
    &&& nms_unique(order)
    &&& forall|i: int, d: QualifiedName| 0 <= i < order.len() && #[trigger] order[i].needs(d) && vx_has_nm(input, d) ==> vx_has_nm(order.take(i), d)
}
@@type engine/src/conversion/analysis/depth_first.rs DepthFirstIter
generics <'a, T: HasFieldsAndBases>
keep queue
yet_to_do => HashSet<QualifiedName>
@@end
/// A cycle of definitions: C++ has none, and the real code panics.
#[verifier::external_body]
pub fn vx_cycle_panic() -> ! { unimplemented!() }
impl<'a, T: HasFieldsAndBases> DepthFirstIter<'a, T> {
    pub open spec fn inv(&self) -> bool {
        &&& nms_unique(self.queue@)
        &&& forall|n: QualifiedName| #[trigger] self.yet_to_do@.contains(n) <==> vx_has_nm(self.queue@, n)
    }
@@fn engine/src/conversion/analysis/depth_first.rs <Iterator for DepthFirstIter>::next
%sig
pub fn next(&mut self) -> (r: Option<&'a T>)
%attr #[verifier::exec_allows_no_decreases_clause]
%attr #[verifier::loop_isolation(false)]
%requires
    old(self).inv(),
%ensures
    final(self).inv(),
    r is None ==> old(self).queue@.len() == 0 && final(self).queue@ == old(self).queue@,
    r matches Some(x) ==> vx_has(old(self).queue@, x) && final(self).queue@.len() + 1 == old(self).queue@.len()
        && (forall|y: &T| #[trigger] vx_has(old(self).queue@, y) ==> y == x || vx_has(final(self).queue@, y))
        && (forall|y: &T| #[trigger] vx_has(final(self).queue@, y) ==> vx_has(old(self).queue@, y) && y.nm() != x.nm())
        && (forall|d: QualifiedName| #[trigger] x.needs(d) ==> !vx_has_nm(old(self).queue@, d)),
%rewrite? `vx_panic ()` => `vx_cycle_panic()`
%closure 0
 -> (vr: &QualifiedName) ensures *vr == api.nm()
%closure 1
 -> (vr: bool) ensures vr == self.yet_to_do@.contains(*d)
%closure 2
 -> (vr: &QualifiedName) ensures *vr == api.nm()
%begin
    broadcast use vx_has_lemmas;
    let ghost q0 = self.queue@; let ghost y0 = self.yet_to_do@;
%loop 0
    invariant rotated(q0, self.queue@), self.yet_to_do@ == y0,
%loopbegin 0
    broadcast use {vx_has_lemmas, lemma_cons};
    let ghost q1 = seq![candidate] + self.queue@;
    assert(q1.drop_first() =~= self.queue@);
    assert(rotated(q0, q1));
%before `self . yet_to_do . remove`
    proof { lemma_rot_take(q0, q1); }
%after `self . queue . push_back`
    proof { lemma_rot_push(q0, q1, self.queue@); }
@@end
}
pub broadcast proof fn lemma_cons<T>(s: Seq<T>)
    requires s.len() > 0,
    ensures seq![s[0]] + #[trigger] s.drop_first() == s,
{ assert(seq![s[0]] + s.drop_first() =~= s); }
/// the queue holds what it held, in some order
pub open spec fn rotated<T: HasFieldsAndBases>(a: Seq<&T>, b: Seq<&T>) -> bool {
    &&& a.len() == b.len()
    &&& nms_unique(b)
    &&& forall|x: &T| #[trigger] vx_has(a, x) <==> vx_has(b, x)
    &&& forall|d: QualifiedName| #[trigger] vx_has_nm(a, d) <==> vx_has_nm(b, d)
}
pub proof fn lemma_rot_push<T: HasFieldsAndBases>(a: Seq<&T>, b: Seq<&T>, c: Seq<&T>)
    requires rotated(a, b), b.len() > 0, c == b.drop_first().push(b[0]),
    ensures rotated(a, c),
{
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && (#[trigger] c[i]).nm() == (#[trigger] c[j]).nm() implies i == j by {
        let k = if i == c.len() - 1 { 0int } else { i + 1 }; let l = if j == c.len() - 1 { 0int } else { j + 1 };
        assert(c[i] == b[k]); assert(c[j] == b[l]);
    }
    assert forall|x: &T| #[trigger] vx_has(b, x) implies vx_has(c, x) by {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x; let k = if i == 0 { c.len() - 1 } else { i - 1 }; assert(c[k] == b[i]); }
    assert forall|x: &T| #[trigger] vx_has(c, x) implies vx_has(b, x) by {
        let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == x; let k = if i == c.len() - 1 { 0int } else { i + 1 }; assert(c[i] == b[k]); }
    assert forall|d: QualifiedName| #[trigger] vx_has_nm(b, d) implies vx_has_nm(c, d) by {
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).nm() == d; let k = if i == 0 { c.len() - 1 } else { i - 1 }; assert(c[k] == b[i]); }
    assert forall|d: QualifiedName| #[trigger] vx_has_nm(c, d) implies vx_has_nm(b, d) by {
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).nm() == d; let k = if i == c.len() - 1 { 0int } else { i + 1 }; assert(c[i] == b[k]); }
}
pub proof fn lemma_rot_take<T: HasFieldsAndBases>(a: Seq<&T>, b: Seq<&T>)
    requires rotated(a, b), b.len() > 0,
    ensures
        nms_unique(b.drop_first()), vx_has(a, b[0]),
        forall|y: &T| #[trigger] vx_has(a, y) ==> y == b[0] || vx_has(b.drop_first(), y),
        forall|y: &T| #[trigger] vx_has(b.drop_first(), y) ==> vx_has(a, y) && y.nm() != b[0].nm(),
        forall|d: QualifiedName| #[trigger] vx_has_nm(b.drop_first(), d) <==> (vx_has_nm(a, d) && d != b[0].nm()),
{
    let c = b.drop_first();
    assert(vx_has(b, b[0]));
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && (#[trigger] c[i]).nm() == (#[trigger] c[j]).nm() implies i == j by { assert(c[i] == b[i + 1]); assert(c[j] == b[j + 1]); }
    assert forall|y: &T| #[trigger] vx_has(a, y) implies y == b[0] || vx_has(c, y) by {
        assert(vx_has(b, y)); let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == y; if i > 0 { assert(c[i - 1] == y); } }
    assert forall|y: &T| #[trigger] vx_has(c, y) implies vx_has(a, y) && y.nm() != b[0].nm() by {
        let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == y; assert(b[i + 1] == y); assert(vx_has(b, y)); }
    assert forall|d: QualifiedName| #[trigger] vx_has_nm(c, d) implies vx_has_nm(a, d) && d != b[0].nm() by {
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).nm() == d; assert(b[i + 1] == c[i]); assert(vx_has_nm(b, d)); }
    assert forall|d: QualifiedName| vx_has_nm(a, d) && d != b[0].nm() implies #[trigger] vx_has_nm(c, d) by {
        assert(vx_has_nm(b, d)); let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).nm() == d; assert(c[i - 1] == b[i]); }
}
/// What a `for` loop over the iterator sees: next() until it answers None.
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_drain<'a, T: HasFieldsAndBases>(it: DepthFirstIter<'a, T>) -> (r: It<&'a T>)
    requires it.inv(),
    ensures r.pos() == 0, deps_first(it.queue@, r.all()),
{
    broadcast use vx_has_lemmas;
    let mut it = it;
    let ghost input = it.queue@;
    let mut out: Vec<&'a T> = Vec::new();
    loop
        invariant it.inv(), partial(input, out@, it.queue@),
        ensures it.inv(), partial(input, out@, it.queue@), it.queue@.len() == 0,
    {
        let ghost o0 = out@; let ghost q0 = it.queue@;
        match it.next() {
            Some(x) => { out.push(x); proof { lemma_partial(input, o0, q0, x, it.queue@); } }
            None => { break; }
        }
    }
    proof { lemma_partial_done(input, out@, it.queue@); }
    out.into_iter()
}
pub open spec fn partial<T: HasFieldsAndBases>(input: Seq<&T>, out: Seq<&T>, q: Seq<&T>) -> bool {
    &&& out.len() + q.len() == input.len()
    &&& forall|x: &T| #[trigger] vx_has(input, x) ==> vx_has(out, x) || vx_has(q, x)
    &&& forall|i: int| 0 <= i < out.len() ==> vx_has(input, #[trigger] out[i])
    &&& forall|i: int| 0 <= i < q.len() ==> vx_has(input, #[trigger] q[i])
    &&& nms_unique(out)
    &&& forall|i: int, j: int| 0 <= i < out.len() && 0 <= j < q.len() ==> (#[trigger] out[i]).nm() != (#[trigger] q[j]).nm()
    &&& forall|i: int, d: QualifiedName| 0 <= i < out.len() && #[trigger] out[i].needs(d) && vx_has_nm(input, d) ==> vx_has_nm(out.take(i), d)
}
pub proof fn lemma_partial<T: HasFieldsAndBases>(input: Seq<&T>, out: Seq<&T>, q: Seq<&T>, x: &T, q2: Seq<&T>)
    requires partial(input, out, q), vx_has(q, x), q2.len() + 1 == q.len(),
        forall|y: &T| #[trigger] vx_has(q, y) ==> y == x || vx_has(q2, y),
        forall|y: &T| #[trigger] vx_has(q2, y) ==> vx_has(q, y) && y.nm() != x.nm(),
        forall|d: QualifiedName| #[trigger] x.needs(d) ==> !vx_has_nm(q, d),
    ensures partial(input, out.push(x), q2),
{
    broadcast use vx_has_lemmas;
    let o2 = out.push(x);
    let xi = choose|xi: int| 0 <= xi < q.len() && #[trigger] q[xi] == x;
    assert(vx_has(input, q[xi]));
    assert forall|i: int| 0 <= i < o2.len() implies vx_has(input, #[trigger] o2[i]) by { if i < out.len() { assert(o2[i] == out[i]); } }
    assert forall|i: int| 0 <= i < q2.len() implies vx_has(input, #[trigger] q2[i]) by {
        assert(vx_has(q2, q2[i])); let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == q2[i]; }
    assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < o2.len() && (#[trigger] o2[i]).nm() == (#[trigger] o2[j]).nm() implies i == j by {
        if i < out.len() { assert(o2[i] == out[i]); if j == out.len() { assert(out[i].nm() != q[xi].nm()); } }
        if j < out.len() { assert(o2[j] == out[j]); if i == out.len() { assert(out[j].nm() != q[xi].nm()); } }
    }
    assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < q2.len() implies (#[trigger] o2[i]).nm() != (#[trigger] q2[j]).nm() by {
        assert(vx_has(q2, q2[j])); let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == q2[j];
        if i < out.len() { assert(o2[i] == out[i]); assert(out[i].nm() != q[k].nm()); }
    }
    assert forall|i: int, d: QualifiedName| 0 <= i < o2.len() && #[trigger] o2[i].needs(d) && vx_has_nm(input, d) implies vx_has_nm(o2.take(i), d) by {
        if i < out.len() { assert(o2[i] == out[i]); assert(o2.take(i) =~= out.take(i)); }
        else {
            assert(o2.take(i) =~= out);
            let k = choose|k: int| 0 <= k < input.len() && (#[trigger] input[k]).nm() == d;
            assert(vx_has(input, input[k]));
            if vx_has(q, input[k]) { let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == input[k]; assert(vx_has_nm(q, d)); }
            else { let j = choose|j: int| 0 <= j < out.len() && #[trigger] out[j] == input[k]; }
        }
    }
}
pub proof fn lemma_partial_done<T: HasFieldsAndBases>(input: Seq<&T>, out: Seq<&T>, q: Seq<&T>)
    requires partial(input, out, q), q.len() == 0,
    ensures deps_first(input, out),
{
    assert forall|x: &T| #[trigger] vx_has(input, x) implies vx_has(out, x) by {}
}
@@fn engine/src/conversion/analysis/depth_first.rs fn fields_and_bases_first
%sig
pub fn fields_and_bases_first<'a, T: HasFieldsAndBases>(inputs: It<&'a T>) -> (r: It<&'a T>)
%prerewrite? `let queue : VecDeque < _ > =` => `let queue: VecDeque<&'a T> =`
%prerewrite? `let yet_to_do =` => `let yet_to_do: HashSet<QualifiedName> =`
%closure 0
 -> (vr: &QualifiedName) ensures *vr == api.nm()
%rewrite `DepthFirstIter { queue , yet_to_do }` => `vx_drain(DepthFirstIter { queue , yet_to_do })`
%requires
    inputs.pos() == 0, nms_unique(inputs.all()),
%ensures
    r.pos() == 0, deps_first(inputs.all(), r.all()),
%begin
    broadcast use vx_has_lemmas;
@@end
} // verus!
