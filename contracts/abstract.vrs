@@include core.rs
@@include qname.rs
@@set ERR_VARIANTS AbstractNestedType,
@@set API_KEEP Function.fun
@@include syn.rs
verus! {
#[derive(PartialEq)]
pub enum Virtualness { Virtual, PureVirtual }
pub struct FuncToConvert { pub virtualness: Option<Virtualness>, pub rest: VxOpaque }
}
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
@@include errors.rs
@@include depth_first.rs
verus! {
pub fn vx_id<T>(t: T) -> (r: T) ensures r == t { t }
pub struct PatType { pub pat: VxOpaque, pub ty: Box<Type> }
pub enum FnArg { Receiver(VxOpaque), Typed(PatType) }
/// autocxx's newtype around syn::FnArg
pub struct MFnArg(pub FnArg);
pub struct Comma;
#[verifier::external_body]
pub struct CppEffectiveName { x: u8 }
impl ApiName {
    pub uninterp spec fn cpp(&self) -> CppEffectiveName;
    #[verifier::external_body]
    pub fn cpp_name(&self) -> (r: CppEffectiveName) ensures r == self.cpp() { unimplemented!() }
}
impl CppOriginalName {
    pub uninterp spec fn nested(&self) -> bool;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(nested)]
    pub fn is_nested(&self) -> (r: bool) ensures r == self.nested() { unimplemented!() }
}
impl Clone for Type {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@@type engine/src/conversion/api.rs TypeKind
@@end
@@type engine/src/conversion/analysis/pod/mod.rs PodAnalysis
* => VxOpaque
keep kind bases castable_bases field_deps field_definition_deps
@@end
@@type engine/src/conversion/analysis/fun/mod.rs PodAndConstructorAnalysis
* => VxOpaque
keep pod
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ReceiverMutability
@@end
@@type engine/src/conversion/analysis/fun/mod.rs MethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs TraitMethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnKind
* => VxOpaque
keep Method.impl_for TraitMethod.impl_for Method.method_kind TraitMethod.kind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalysis
* => VxOpaque
params => Vec<MFnArg>
keep kind
@@end
impl Copy for ReceiverMutability {}
impl Clone for ReceiverMutability {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct FnPrePhase2;
impl AnalysisPhase for FnPrePhase2 { type TypedefAnalysis = VxOpaque; type StructAnalysis = PodAndConstructorAnalysis; type FunAnalysis = FnAnalysis; }
pub type A2 = Api<FnPrePhase2>;

// --- what a virtual function overrides --------------------------------------------
@@type engine/src/conversion/analysis/abstract_types.rs Signature
@@end
/// Vectors are compared by content.
pub broadcast axiom fn axiom_vec_ext(a: Vec<Type>, b: Vec<Type>) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub open spec fn typed_args(s: Seq<MFnArg>) -> Seq<Type>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { match s.last().0 { FnArg::Typed(t) => typed_args(s.drop_last()).push(*t.ty), _ => typed_args(s.drop_last()) } }
}
/// name, parameters other than `this`, and constness
pub open spec fn is_sig(s: Signature, name: ApiName, params: Seq<MFnArg>, c: ReceiverMutability) -> bool {
    s.name == name.cpp() && s.constness == c && s.args@ == typed_args(if params.len() >= 1 { params.skip(1) } else { Seq::empty() })
}
pub open spec fn arg_of(p: MFnArg) -> Option<Type> { match p.0 { FnArg::Typed(t) => Some(*t.ty), _ => None } }
pub broadcast proof fn lemma_typed<F: Fn(&MFnArg) -> Option<Type>>(all: Seq<&MFnArg>, f: F, o: Seq<Option<Type>>, r: Seq<Type>)
    requires #[trigger] vx_fm(all, f, o, r), forall|p: &MFnArg, v: Option<Type>| #[trigger] f.ensures((p,), v) ==> v == arg_of(*p),
    ensures forall|p: Seq<MFnArg>| p.len() == all.len() && (forall|i: int| 0 <= i < p.len() ==> *all[i] == #[trigger] p[i]) ==> r == #[trigger] typed_args(p),
{
    assert forall|p: Seq<MFnArg>| p.len() == all.len() && (forall|i: int| 0 <= i < p.len() ==> *all[i] == #[trigger] p[i]) implies r == #[trigger] typed_args(p) by {
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == arg_of(p[i]) by { assert(f.ensures((all[i],), o[i])); }
        lemma_typed_rec(p, o);
    }
}
pub proof fn lemma_typed_rec(p: Seq<MFnArg>, o: Seq<Option<Type>>)
    requires o.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] o[i] == arg_of(p[i]),
    ensures vx_somes(o) == typed_args(p),
    decreases p.len(),
{
    if p.len() > 0 { lemma_typed_rec(p.drop_last(), o.drop_last()); assert(o.last() == arg_of(p[p.len() - 1])); }
}
impl Signature {
@@fn engine/src/conversion/analysis/abstract_types.rs Signature::new
%sig
pub fn new(name: &ApiName, params: &Vec<MFnArg>, constness: ReceiverMutability) -> (r: Self)
%ensures
    is_sig(r, *name, params@, constness),
%begin
    broadcast use lemma_typed;
    let ghost rest = if params@.len() >= 1 { params@.skip(1) } else { Seq::empty() };
    let ghost targs = typed_args(rest);
%closure 0
 -> (vr: Option<Type>) ensures vr == arg_of(*p)
@@end
}

impl HasFieldsAndBases for A2 {
    open spec fn nm(&self) -> QualifiedName { self.qname() }
    open spec fn needs(&self, d: QualifiedName) -> bool {
        *self matches Api::Struct { analysis, .. } && (analysis.pod.field_definition_deps@.contains(d) || analysis.pod.bases@.contains(d))
    }
    fn name(&self) -> (r: &QualifiedName) { self.name() }
@@fn engine/src/conversion/analysis/fun/mod.rs <HasFieldsAndBases for Api<FnPrePhase2>>::field_and_base_deps
%sig
fn field_and_base_deps(&self) -> (r: It<&QualifiedName>)
%prerewrite? `Box :: new` => `vx_id`
%begin
    broadcast use vx_has_lemmas;
@@end
}

// --- which classes are abstract ----------------------------------------------------
pub open spec fn own_at(x: A2, n: QualifiedName, s: Signature) -> bool {
    x matches Api::Function { name, analysis, .. } && (analysis.kind matches FnKind::Method { impl_for, method_kind } && impl_for == n
        && (method_kind matches MethodKind::PureVirtual(c) && is_sig(s, name, analysis.params@, c)))
}
pub open spec fn def_at(x: A2, n: QualifiedName, s: Signature) -> bool {
    x matches Api::Function { name, analysis, .. } && (analysis.kind matches FnKind::Method { impl_for, method_kind } && impl_for == n
        && (method_kind matches MethodKind::Virtual(c) && is_sig(s, name, analysis.params@, c)))
}
pub open spec fn dtor_at(x: A2, n: QualifiedName) -> bool {
    x matches Api::Function { fun, analysis, .. } && (fun.virtualness matches Some(v) && v is PureVirtual)
        && (analysis.kind matches FnKind::TraitMethod { impl_for, kind, .. } && impl_for == n && kind is Destructor)
}
/// class n declares the function pure virtual / declares it virtual with a body
pub open spec fn own(a: Seq<A2>, n: QualifiedName, s: Signature) -> bool { exists|i: int| 0 <= i < a.len() && own_at(#[trigger] a[i], n, s) }
pub open spec fn defs(a: Seq<A2>, n: QualifiedName, s: Signature) -> bool { exists|i: int| 0 <= i < a.len() && def_at(#[trigger] a[i], n, s) }
pub open spec fn pure_dtor(a: Seq<A2>, n: QualifiedName) -> bool { exists|i: int| 0 <= i < a.len() && dtor_at(#[trigger] a[i], n) }
pub open spec fn class_at(x: A2) -> bool { x matches Api::Struct { analysis, .. } && (analysis.pod.kind is Pod || analysis.pod.kind is NonPod) }
pub open spec fn is_class(a: Seq<A2>, n: QualifiedName) -> bool { exists|i: int| 0 <= i < a.len() && class_at(#[trigger] a[i]) && a[i].qname() == n }
pub open spec fn base_at(x: A2, b: QualifiedName) -> bool { x matches Api::Struct { analysis, .. } && analysis.pod.bases@.contains(b) }
pub open spec fn is_base(a: Seq<A2>, n: QualifiedName, b: QualifiedName) -> bool {
    exists|i: int| 0 <= i < a.len() && class_at(#[trigger] a[i]) && a[i].qname() == n && base_at(a[i], b)
}
/// A path of base classes from n to a class which declares the function pure,
/// on which no class overrides it.
pub open spec fn pure_path(a: Seq<A2>, p: Seq<QualifiedName>, n: QualifiedName, s: Signature) -> bool {
    &&& p.len() >= 1 && p[0] == n && own(a, p.last(), s)
    &&& forall|k: int| 0 <= k < p.len() ==> !(is_class(a, #[trigger] p[k]) && defs(a, p[k], s))
    &&& forall|k: int| 0 <= k < p.len() - 1 ==> is_base(a, #[trigger] p[k], p[k + 1])
}
pub open spec fn still_pure(a: Seq<A2>, n: QualifiedName, s: Signature) -> bool { exists|p: Seq<QualifiedName>| #[trigger] pure_path(a, p, n, s) }
/// The C++ rule: some function is still pure in it, or its destructor is.
pub open spec fn is_abstract(a: Seq<A2>, n: QualifiedName) -> bool {
    pure_dtor(a, n) || (is_class(a, n) && exists|s: Signature| #[trigger] still_pure(a, n, s))
}
pub open spec fn via_base(a: Seq<A2>, n: QualifiedName, s: Signature) -> bool { exists|b: QualifiedName| is_base(a, n, b) && #[trigger] still_pure(a, b, s) }
pub proof fn lemma_pure_step(a: Seq<A2>, n: QualifiedName, s: Signature)
    ensures still_pure(a, n, s) <==> !(is_class(a, n) && defs(a, n, s)) && (own(a, n, s) || via_base(a, n, s)),
{
    if still_pure(a, n, s) {
        let p = choose|p: Seq<QualifiedName>| #[trigger] pure_path(a, p, n, s);
        assert(!(is_class(a, p[0]) && defs(a, p[0], s)));
        if p.len() > 1 {
            let q = p.drop_first();
            assert forall|k: int| 0 <= k < q.len() implies !(is_class(a, #[trigger] q[k]) && defs(a, q[k], s)) by { assert(q[k] == p[k + 1]); }
            assert forall|k: int| 0 <= k < q.len() - 1 implies is_base(a, #[trigger] q[k], q[k + 1]) by { assert(is_base(a, p[k + 1], p[k + 1 + 1])); }
            assert(pure_path(a, q, q[0], s));
            assert(is_base(a, p[0int], p[0int + 1]));
            assert(still_pure(a, q[0], s));
        }
    }
    if !(is_class(a, n) && defs(a, n, s)) && own(a, n, s) { assert(pure_path(a, seq![n], n, s)); }
    if !(is_class(a, n) && defs(a, n, s)) && via_base(a, n, s) {
        let b = choose|b: QualifiedName| is_base(a, n, b) && #[trigger] still_pure(a, b, s);
        let q = choose|q: Seq<QualifiedName>| #[trigger] pure_path(a, q, b, s);
        let p = seq![n] + q;
        assert forall|k: int| 0 <= k < p.len() implies !(is_class(a, #[trigger] p[k]) && defs(a, p[k], s)) by { if k > 0 { assert(p[k] == q[k - 1]); } }
        assert forall|k: int| 0 <= k < p.len() - 1 implies is_base(a, #[trigger] p[k], p[k + 1]) by { if k > 0 { assert(is_base(a, q[k - 1], q[k - 1 + 1])); } }
        assert(pure_path(a, p, n, s));
    }
}
/// a class which isn't one of the items has no bases here
pub proof fn lemma_pure_nonclass(a: Seq<A2>, n: QualifiedName, s: Signature)
    requires !is_class(a, n),
    ensures still_pure(a, n, s) <==> own(a, n, s),
{
    lemma_pure_step(a, n, s);
    if via_base(a, n, s) { let b = choose|b: QualifiedName| is_base(a, n, b) && #[trigger] still_pure(a, b, s); assert(is_base(a, n, b)); assert(is_class(a, n)); }
}

// --- the result ---------------------------------------------------------------------
/// the class which x constructs
pub open spec fn constructs(x: A2) -> Option<QualifiedName> {
    match x {
        Api::Function { analysis, .. } => match analysis.kind {
            FnKind::Method { impl_for, method_kind } => if method_kind is Constructor { Some(impl_for) } else { None },
            FnKind::TraitMethod { impl_for, kind, .. } => if kind is CopyConstructor || kind is MoveConstructor { Some(impl_for) } else { None },
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn removed(a: Seq<A2>, x: A2) -> bool { constructs(x) matches Some(n) && is_abstract(a, n) }
pub open spec fn marked(a: Seq<A2>, x: A2) -> A2 {
    match x {
        Api::Struct { name, details, analysis } => if is_abstract(a, name.name) {
            Api::Struct { name, details, analysis: PodAndConstructorAnalysis { pod: PodAnalysis { kind: TypeKind::Abstract, ..analysis.pod }, ..analysis } } } else { x },
        _ => x,
    }
}
pub open spec fn nested_name(x: A2) -> bool { x.info().cpp_name matches Some(c) && c.nested() }
pub open spec fn abstract_struct(x: A2) -> bool { x matches Api::Struct { analysis, .. } && analysis.pod.kind is Abstract }
/// what item x of the input becomes
pub open spec fn outcome(a: Seq<A2>, x: A2, y: A2) -> bool {
    if abstract_struct(marked(a, x)) && nested_name(x) { y.is_ignored() && y.info() == x.info() && y->IgnoredItem_err is AbstractNestedType }
    else { y == marked(a, x) }
}
pub open spec fn mark_result(a: Seq<A2>, r: Seq<A2>, m: Seq<int>) -> bool {
    &&& m.len() == r.len()
    &&& forall|j: int| 0 <= j < m.len() ==> 0 <= #[trigger] m[j] < a.len() && !removed(a, a[m[j]]) && outcome(a, a[m[j]], r[j])
    &&& forall|j: int, k: int| 0 <= j < k < m.len() ==> #[trigger] m[j] < #[trigger] m[k]
    &&& forall|i: int| 0 <= i < a.len() ==> removed(a, #[trigger] a[i]) || vx_has(m, i)
}
@@type engine/src/conversion/analysis/abstract_types.rs ClassAbstractState
@@end
impl Clone for ClassAbstractState {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl VxDefault for ClassAbstractState { open spec fn default_spec(r: Self) -> bool { r.undefined@ == Set::<Signature>::empty() && r.defined@ == Set::<Signature>::empty() } }
pub type States = Map<QualifiedName, ClassAbstractState>;
pub open spec fn undef_in(m: States, n: QualifiedName, s: Signature) -> bool { m.dom().contains(n) && m[n].undefined@.contains(s) }
pub open spec fn def_in(m: States, n: QualifiedName, s: Signature) -> bool { m.dom().contains(n) && m[n].defined@.contains(s) }
/// after the declarations in a[0..k]
#[verifier::opaque]
pub open spec fn gathered(m: States, ab: Set<QualifiedName>, a: Seq<A2>, k: int) -> bool {
    &&& forall|n: QualifiedName, s: Signature| #[trigger] undef_in(m, n, s) <==> own(a.take(k), n, s)
    &&& forall|n: QualifiedName, s: Signature| #[trigger] def_in(m, n, s) <==> defs(a.take(k), n, s)
    &&& forall|n: QualifiedName| #[trigger] ab.contains(n) <==> pure_dtor(a.take(k), n)
}
impl A2 {
@@fn engine/src/conversion/api.rs Api::cpp_name
%ensures
    *r == self.info().cpp_name,
@@end
}
pub broadcast proof fn lemma_sig_unique(s: Signature, t: Signature, name: ApiName, params: Seq<MFnArg>, c: ReceiverMutability)
    requires #[trigger] is_sig(s, name, params, c), #[trigger] is_sig(t, name, params, c),
    ensures s == t,
{ broadcast use axiom_vec_ext; assert(s.args@ == t.args@); assert(s.args == t.args); }
pub proof fn lemma_take(a: Seq<A2>, k: int)
    requires 0 <= k < a.len(),
    ensures forall|n: QualifiedName, s: Signature| #[trigger] own(a.take(k + 1), n, s) <==> own(a.take(k), n, s) || own_at(a[k], n, s),
        forall|n: QualifiedName, s: Signature| #[trigger] defs(a.take(k + 1), n, s) <==> defs(a.take(k), n, s) || def_at(a[k], n, s),
        forall|n: QualifiedName| #[trigger] pure_dtor(a.take(k + 1), n) <==> pure_dtor(a.take(k), n) || dtor_at(a[k], n),
{
    let t = a.take(k + 1); let u = a.take(k);
    assert(t[k] == a[k]);
    assert forall|n: QualifiedName, s: Signature| own(u, n, s) implies #[trigger] own(t, n, s) by { let i = choose|i: int| 0 <= i < u.len() && own_at(#[trigger] u[i], n, s); assert(t[i] == u[i]); }
    assert forall|n: QualifiedName, s: Signature| defs(u, n, s) implies #[trigger] defs(t, n, s) by { let i = choose|i: int| 0 <= i < u.len() && def_at(#[trigger] u[i], n, s); assert(t[i] == u[i]); }
    assert forall|n: QualifiedName| pure_dtor(u, n) implies #[trigger] pure_dtor(t, n) by { let i = choose|i: int| 0 <= i < u.len() && dtor_at(#[trigger] u[i], n); assert(t[i] == u[i]); }
    assert forall|n: QualifiedName, s: Signature| #[trigger] own(t, n, s) implies own(u, n, s) || own_at(a[k], n, s) by { let i = choose|i: int| 0 <= i < t.len() && own_at(#[trigger] t[i], n, s); if i < k { assert(t[i] == u[i]); } }
    assert forall|n: QualifiedName, s: Signature| #[trigger] defs(t, n, s) implies defs(u, n, s) || def_at(a[k], n, s) by { let i = choose|i: int| 0 <= i < t.len() && def_at(#[trigger] t[i], n, s); if i < k { assert(t[i] == u[i]); } }
    assert forall|n: QualifiedName| #[trigger] pure_dtor(t, n) implies pure_dtor(u, n) || dtor_at(a[k], n) by { let i = choose|i: int| 0 <= i < t.len() && dtor_at(#[trigger] t[i], n); if i < k { assert(t[i] == u[i]); } }
}
/// after the classes order[0..k] have been worked out
pub open spec fn done(order: Seq<&A2>, k: int, n: QualifiedName) -> bool { exists|i: int| 0 <= i < k && class_at(*#[trigger] order[i]) && order[i].qname() == n }
#[verifier::opaque]
pub open spec fn resolved(m: States, ab: Set<QualifiedName>, a: Seq<A2>, order: Seq<&A2>, k: int) -> bool {
    &&& forall|n: QualifiedName, s: Signature| #[trigger] undef_in(m, n, s) <==> (if done(order, k, n) { still_pure(a, n, s) } else { own(a, n, s) })
    &&& forall|n: QualifiedName, s: Signature| #[trigger] def_in(m, n, s) <==> defs(a, n, s)
    &&& forall|n: QualifiedName| #[trigger] ab.contains(n) <==> pure_dtor(a, n) || (done(order, k, n) && exists|s: Signature| #[trigger] still_pure(a, n, s))
}
pub open spec fn refs_of(a: Seq<A2>, all: Seq<&A2>) -> bool { all.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> *#[trigger] all[i] == a[i] }
#[verifier::opaque]
pub open spec fn ordered(a: Seq<A2>, order: Seq<&A2>) -> bool { exists|input: Seq<&A2>| refs_of(a, input) && #[trigger] deps_first(input, order) }
pub proof fn lemma_resolve(a: Seq<A2>, order: Seq<&A2>, k: int, m0: States, ab0: Set<QualifiedName>, m: States, ab: Set<QualifiedName>)
    requires resolved(m0, ab0, a, order, k), ordered(a, order), 0 <= k < order.len(), names_unique(a),
        !class_at(*order[k]) ==> m == m0 && ab == ab0,
        class_at(*order[k]) ==> {
            let n = order[k].qname();
            &&& forall|s: Signature| #[trigger] undef_in(m, n, s) <==> (undef_in(m0, n, s) || exists|b: QualifiedName| base_at(*order[k], b) && #[trigger] undef_in(m0, b, s)) && !def_in(m0, n, s)
            &&& forall|s: Signature| #[trigger] def_in(m, n, s) <==> def_in(m0, n, s)
            &&& forall|o: QualifiedName, s: Signature| o != n ==> (#[trigger] undef_in(m, o, s) <==> undef_in(m0, o, s))
            &&& forall|o: QualifiedName, s: Signature| o != n ==> (#[trigger] def_in(m, o, s) <==> def_in(m0, o, s))
            &&& forall|o: QualifiedName| #[trigger] ab.contains(o) <==> ab0.contains(o) || (o == n && exists|s: Signature| #[trigger] undef_in(m, n, s))
        },
    ensures resolved(m, ab, a, order, k + 1),
{
    reveal(resolved); reveal(ordered);
    let input = choose|input: Seq<&A2>| refs_of(a, input) && #[trigger] deps_first(input, order);
    let x = *order[k]; let n = x.qname();
    assert(vx_has(input, order[k]));
    let i0 = choose|i: int| 0 <= i < input.len() && #[trigger] input[i] == order[k];
    assert(a[i0] == x);
    assert forall|o: QualifiedName| #[trigger] done(order, k + 1, o) <==> done(order, k, o) || (class_at(x) && o == n) by {
        if done(order, k, o) { let i = choose|i: int| 0 <= i < k && class_at(*#[trigger] order[i]) && order[i].qname() == o; assert(order[i].qname() == o); }
        if class_at(x) && o == n { assert(class_at(*order[k])); }
    }
    if class_at(x) {
        assert(is_class(a, n));
        assert(!done(order, k, n)) by {
            if done(order, k, n) { let i = choose|i: int| 0 <= i < k && class_at(*#[trigger] order[i]) && order[i].qname() == n; assert(order[i].nm() == order[k].nm()); }
        }
        assert forall|b: QualifiedName| is_base(a, n, b) <==> base_at(x, b) by {
            if is_base(a, n, b) { let i = choose|i: int| 0 <= i < a.len() && class_at(#[trigger] a[i]) && a[i].qname() == n && base_at(a[i], b); assert(a[i].qname() == a[i0].qname()); }
            if base_at(x, b) { assert(class_at(a[i0])); }
        }
        assert forall|b: QualifiedName, s: Signature| base_at(x, b) implies (#[trigger] undef_in(m0, b, s) <==> still_pure(a, b, s)) by {
            if is_class(a, b) {
                let i = choose|i: int| 0 <= i < a.len() && class_at(#[trigger] a[i]) && a[i].qname() == b;
                assert(input[i].nm() == b);
                assert(vx_has_nm(input, b));
                assert(order[k].needs(b));
                assert(vx_has_nm(order.take(k), b));
                let j = choose|j: int| 0 <= j < order.take(k).len() && (#[trigger] order.take(k)[j]).nm() == b;
                assert(order.take(k)[j] == order[j]);
                assert(vx_has(input, order[j]));
                let l = choose|l: int| 0 <= l < input.len() && #[trigger] input[l] == order[j];
                assert(a[l].qname() == a[i].qname());
                assert(class_at(*order[j]));
                assert(done(order, k, b));
            } else {
                lemma_pure_nonclass(a, b, s);
                if done(order, k, b) { let j = choose|j: int| 0 <= j < k && class_at(*#[trigger] order[j]) && order[j].qname() == b;
                    assert(vx_has(input, order[j])); let l = choose|l: int| 0 <= l < input.len() && #[trigger] input[l] == order[j]; assert(class_at(a[l])); }
            }
        }
        assert forall|s: Signature| #[trigger] undef_in(m, n, s) <==> still_pure(a, n, s) by {
            lemma_pure_step(a, n, s);
            assert(undef_in(m0, n, s) <==> own(a, n, s));
            assert(def_in(m0, n, s) <==> defs(a, n, s));
            if via_base(a, n, s) { let b = choose|b: QualifiedName| is_base(a, n, b) && #[trigger] still_pure(a, b, s); assert(undef_in(m0, b, s)); }
            if exists|b: QualifiedName| base_at(x, b) && #[trigger] undef_in(m0, b, s) { let b = choose|b: QualifiedName| base_at(x, b) && #[trigger] undef_in(m0, b, s); assert(is_base(a, n, b) && still_pure(a, b, s)); }
        }
        assert((exists|s: Signature| #[trigger] undef_in(m, n, s)) <==> (exists|s: Signature| #[trigger] still_pure(a, n, s))) by {
            if exists|s: Signature| #[trigger] undef_in(m, n, s) { let s = choose|s: Signature| #[trigger] undef_in(m, n, s); assert(still_pure(a, n, s)); }
            if exists|s: Signature| #[trigger] still_pure(a, n, s) { let s = choose|s: Signature| #[trigger] still_pure(a, n, s); assert(undef_in(m, n, s)); }
        }
    }
}
pub proof fn lemma_class_step(a: Seq<A2>, order: Seq<&A2>, k: int, m0: States, ab0: Set<QualifiedName>, m: States, ab: Set<QualifiedName>, bs: Set<QualifiedName>, d0: Set<Signature>, u1: Set<Signature>, cs: ClassAbstractState)
    requires resolved(m0, ab0, a, order, k), ordered(a, order), 0 <= k < order.len(), names_unique(a), class_at(*order[k]), bs == order[k]->Struct_analysis.pod.bases@,
        forall|s: Signature| #[trigger] d0.contains(s) <==> def_in(m0, order[k].qname(), s),
        forall|s: Signature| #[trigger] u1.contains(s) <==> undef_in(m0, order[k].qname(), s) || via_set(m0, bs, s),
        forall|s: Signature| #[trigger] cs.undefined@.contains(s) ==> u1.contains(s) && !d0.contains(s),
        forall|s: Signature| #[trigger] u1.contains(s) ==> cs.undefined@.contains(s) || d0.contains(s),
        cs.defined@ == d0,
        m == m0.insert(order[k].qname(), cs),
        ab == (if cs.undefined@ == Set::<Signature>::empty() { ab0 } else { ab0.insert(order[k].qname()) }),
    ensures resolved(m, ab, a, order, k + 1),
{
    let n = order[k].qname(); let x = *order[k];
    assert forall|s: Signature| via_set(m0, bs, s) <==> exists|b: QualifiedName| base_at(x, b) && #[trigger] undef_in(m0, b, s) by {
        if via_set(m0, bs, s) { let b = choose|b: QualifiedName| bs.contains(b) && #[trigger] undef_in(m0, b, s); assert(base_at(x, b) && undef_in(m0, b, s)); }
    }
    assert forall|s: Signature| #[trigger] undef_in(m, n, s) <==> cs.undefined@.contains(s) by {}
    assert forall|s: Signature| #[trigger] undef_in(m, n, s) <==> (undef_in(m0, n, s) || exists|b: QualifiedName| base_at(x, b) && #[trigger] undef_in(m0, b, s)) && !def_in(m0, n, s) by {
        assert(u1.contains(s) <==> undef_in(m0, n, s) || via_set(m0, bs, s));
        assert(d0.contains(s) <==> def_in(m0, n, s));
    }
    assert forall|s: Signature| #[trigger] def_in(m, n, s) <==> def_in(m0, n, s) by { assert(d0.contains(s) <==> def_in(m0, n, s)); }
    assert((exists|s: Signature| #[trigger] undef_in(m, n, s)) <==> cs.undefined@ != Set::<Signature>::empty()) by {
        if cs.undefined@ != Set::<Signature>::empty() {
            assert(!(cs.undefined@ =~= Set::<Signature>::empty()));
            let s = choose|s: Signature| cs.undefined@.contains(s);
            assert(undef_in(m, n, s));
        }
    }
    lemma_resolve(a, order, k, m0, ab0, m, ab);
}
pub proof fn lemma_resolve_start(m: States, ab: Set<QualifiedName>, a: Seq<A2>, order: Seq<&A2>)
    requires gathered(m, ab, a, a.len() as int),
    ensures resolved(m, ab, a, order, 0),
{ reveal(gathered); reveal(resolved); assert(a.take(a.len() as int) =~= a); }
pub proof fn lemma_gather(a: Seq<A2>, k: int, m0: States, ab0: Set<QualifiedName>, m: States, ab: Set<QualifiedName>)
    requires gathered(m0, ab0, a, k), 0 <= k < a.len(),
        forall|n: QualifiedName, s: Signature| #[trigger] undef_in(m, n, s) <==> undef_in(m0, n, s) || own_at(a[k], n, s),
        forall|n: QualifiedName, s: Signature| #[trigger] def_in(m, n, s) <==> def_in(m0, n, s) || def_at(a[k], n, s),
        forall|n: QualifiedName| #[trigger] ab.contains(n) <==> ab0.contains(n) || dtor_at(a[k], n),
    ensures gathered(m, ab, a, k + 1),
{ reveal(gathered); lemma_take(a, k); }
/// once every class has been visited, the set is the set of abstract classes
pub proof fn lemma_all_resolved(a: Seq<A2>, order: Seq<&A2>, m: States, ab: Set<QualifiedName>)
    requires resolved(m, ab, a, order, order.len() as int), ordered(a, order),
    ensures forall|n: QualifiedName| #[trigger] ab.contains(n) <==> is_abstract(a, n),
{
    reveal(resolved); reveal(ordered);
    let input = choose|input: Seq<&A2>| refs_of(a, input) && #[trigger] deps_first(input, order);
    assert forall|n: QualifiedName| #[trigger] done(order, order.len() as int, n) <==> is_class(a, n) by {
        if is_class(a, n) {
            let i = choose|i: int| 0 <= i < a.len() && class_at(#[trigger] a[i]) && a[i].qname() == n;
            assert(vx_has(input, input[i])); assert(vx_has(order, input[i]));
            let j = choose|j: int| 0 <= j < order.len() && #[trigger] order[j] == input[i];
            assert(class_at(*order[j]));
        }
        if done(order, order.len() as int, n) {
            let j = choose|j: int| 0 <= j < order.len() && class_at(*#[trigger] order[j]) && order[j].qname() == n;
            assert(vx_has(input, order[j])); let l = choose|l: int| 0 <= l < input.len() && #[trigger] input[l] == order[j]; assert(class_at(a[l]));
        }
    }
}
pub open spec fn via_set(m: States, bs: Set<QualifiedName>, s: Signature) -> bool { exists|b: QualifiedName| bs.contains(b) && #[trigger] undef_in(m, b, s) }
pub open spec fn marks(a: Seq<A2>, k: int) -> Seq<A2> { Seq::new(k as nat, |i: int| marked(a, a[i])) }
pub open spec fn conv_out(x: A2, y: A2) -> bool {
    if abstract_struct(x) && nested_name(x) { y.is_ignored() && y.info() == x.info() && y->IgnoredItem_err is AbstractNestedType } else { y == x }
}
pub open spec fn conv_f(x: A2, v: Result<It<A2>, ConvertErrorFromCpp>) -> bool {
    match v {
        Ok(it) => it.pos() == 0 && it.all() == seq![x] && !(abstract_struct(x) && nested_name(x)),
        Err(e) => e is AbstractNestedType && abstract_struct(x) && nested_name(x),
    }
}
pub open spec fn conv_outs(kept: Seq<A2>, r: Seq<A2>) -> bool { r.len() == kept.len() && forall|j: int| 0 <= j < r.len() ==> conv_out(kept[j], #[trigger] r[j]) }
pub broadcast proof fn lemma_conv<F: Fn(A2) -> Result<It<A2>, ConvertErrorFromCpp>>(kept: Seq<A2>, f: F, outs: Seq<It<A2>>, r: Seq<A2>)
    requires #[trigger] converted(kept, f, outs), #[trigger] pushed_all(Seq::empty(), vx_flat(outs), r), names_unique(kept),
        forall|x: A2, v: Result<It<A2>, ConvertErrorFromCpp>| #[trigger] f.ensures((x,), v) ==> conv_f(x, v),
    ensures conv_outs(kept, r),
{
    assert forall|i: int| 0 <= i < outs.len() implies (#[trigger] outs[i]).all().len() == 1 && conv_out(kept[i], outs[i].all()[0]) by {
        assert(conv_one(kept[i], f, outs[i]));
        let v = choose|v: Result<It<A2>, ConvertErrorFromCpp>| #[trigger] f.ensures((kept[i],), v) && conv_item(kept[i], v, outs[i]);
        assert(conv_f(kept[i], v));
    }
    lemma_flat_ones(outs);
    let all = vx_flat(outs);
    assert forall|i: int, j: int| 0 <= i < all.len() && 0 <= j < all.len() && (#[trigger] all[i]).qname() == (#[trigger] all[j]).qname() implies i == j by {
        assert(conv_out(kept[i], outs[i].all()[0])); assert(conv_out(kept[j], outs[j].all()[0]));
        assert(all[i].qname() == kept[i].qname()); assert(all[j].qname() == kept[j].qname());
    }
    assert(Seq::<A2>::empty() + all =~= all);
    lemma_pushed_fresh(Seq::empty(), all, r);
    assert forall|j: int| 0 <= j < r.len() implies conv_out(kept[j], #[trigger] r[j]) by { assert(conv_out(kept[j], outs[j].all()[0])); }
}
pub proof fn lemma_collected(a: Seq<A2>, r: Seq<A2>)
    requires pushed_all(Seq::empty(), marks(a, a.len() as int), r), names_unique(a),
    ensures r == marks(a, a.len() as int),
{
    let all = marks(a, a.len() as int);
    assert(Seq::<A2>::empty() + all =~= all);
    assert forall|i: int, j: int| 0 <= i < all.len() && 0 <= j < all.len() && (#[trigger] all[i]).qname() == (#[trigger] all[j]).qname() implies i == j by { assert(a[i].qname() == a[j].qname()); }
    lemma_pushed_fresh(Seq::empty(), all, r);
}
/// kept: the marked items whose position is in rm; the others were rejected
pub open spec fn kept_ok(a: Seq<A2>, kept: Seq<A2>, rm: Seq<int>, ab: Set<QualifiedName>) -> bool {
    &&& rm.len() == kept.len()
    &&& forall|j: int| 0 <= j < rm.len() ==> 0 <= #[trigger] rm[j] < a.len() && kept[j] == marked(a, a[rm[j]]) && !in_set(ab, kept[j])
    &&& forall|j: int, k: int| 0 <= j < k < rm.len() ==> #[trigger] rm[j] < #[trigger] rm[k]
    &&& forall|i: int| 0 <= i < a.len() ==> in_set(ab, #[trigger] marked(a, a[i])) || vx_has(rm, i)
}
pub open spec fn keep_f(ab: Set<QualifiedName>, x: A2, v: bool) -> bool { v == !in_set(ab, x) }
pub broadcast proof fn lemma_kept<F: Fn(&A2) -> bool>(a: Seq<A2>, kept: Seq<A2>, rm: Seq<int>, f: F, ab: Set<QualifiedName>)
    requires #![trigger vx_retained(marks(a, a.len() as int), kept, rm, f), is_set(ab)] vx_retained(marks(a, a.len() as int), kept, rm, f),
        forall|x: &A2, v: bool| #[trigger] f.ensures((x,), v) ==> keep_f(ab, *x, v),
    ensures kept_ok(a, kept, rm, ab),
{
    let all = marks(a, a.len() as int);
    assert forall|j: int| 0 <= j < rm.len() implies 0 <= #[trigger] rm[j] < a.len() && kept[j] == marked(a, a[rm[j]]) && !in_set(ab, kept[j]) by {
        assert(kept[j] == all[rm[j]]);
        assert(keep_f(ab, all[rm[j]], true));
    }
    assert forall|i: int| 0 <= i < a.len() implies in_set(ab, #[trigger] marked(a, a[i])) || vx_has(rm, i) by {
        assert(all[i] == marked(a, a[i]));
        assert(f.ensures((&all[i],), false) || vx_has(rm, i));
    }
}
pub open spec fn is_set(ab: Set<QualifiedName>) -> bool { true }
pub proof fn lemma_marked_result(a: Seq<A2>, kept: Seq<A2>, rm: Seq<int>, ab: Set<QualifiedName>, r: Seq<A2>)
    requires kept_ok(a, kept, rm, ab), conv_outs(kept, r),
        forall|n: QualifiedName| #[trigger] ab.contains(n) <==> is_abstract(a, n),
    ensures exists|m: Seq<int>| #[trigger] mark_result(a, r, m),
{
    assert forall|i: int| 0 <= i < a.len() implies (in_set(ab, #[trigger] marked(a, a[i])) <==> removed(a, a[i])) by {
        assert(constructs(marked(a, a[i])) == constructs(a[i]));
    }
    assert forall|j: int| 0 <= j < rm.len() implies 0 <= #[trigger] rm[j] < a.len() && !removed(a, a[rm[j]]) && outcome(a, a[rm[j]], r[j]) by {
        assert(kept[j] == marked(a, a[rm[j]]));
        assert(conv_out(kept[j], r[j]));
        assert(kept[j].info() == a[rm[j]].info());
    }
    assert forall|i: int| 0 <= i < a.len() implies removed(a, #[trigger] a[i]) || vx_has(rm, i) by { assert(in_set(ab, marked(a, a[i])) || vx_has(rm, i)); }
    assert(mark_result(a, r, rm));
}
pub open spec fn in_set(ab: Set<QualifiedName>, x: A2) -> bool { constructs(x) matches Some(n) && ab.contains(n) }
pub open spec fn base_undef(m: States, bs: Seq<&QualifiedName>, k: int, s: Signature) -> bool { exists|j: int| 0 <= j < k && undef_in(m, *#[trigger] bs[j], s) }
@@fn engine/src/conversion/analysis/abstract_types.rs fn mark_types_abstract
%attr #[verifier::rlimit(60)]
%prerewrite? `Box :: new` => `vx_id`
%requires
    apis.wf(),
%ensures
    r.wf(),
    exists|m: Seq<int>| #[trigger] mark_result(apis.apis@, r.apis@, m),
%begin
    let ghost a = apis.apis@;
%loopbefore 0
    proof { reveal(gathered); assert(gathered(class_states@, abstract_classes@, a, 0)); }
%loop 0
    invariant refs_of(a, __all0), gathered(class_states@, abstract_classes@, a, __it0.pos()), a == apis.apis@, apis.wf(),
%loopbegin 0
    broadcast use lemma_sig_unique;
    let ghost k = __it0.pos() - 1; let ghost m0 = class_states@; let ghost ab0 = abstract_classes@;
%loopend 0
    proof {
        assert forall|n: QualifiedName, s: Signature| #[trigger] undef_in(class_states@, n, s) <==> undef_in(m0, n, s) || own_at(a[k], n, s) by {}
        assert forall|n: QualifiedName, s: Signature| #[trigger] def_in(class_states@, n, s) <==> def_in(m0, n, s) || def_at(a[k], n, s) by {}
        lemma_gather(a, k, m0, ab0, class_states@, abstract_classes@);
    }
%loopbefore 1
    proof { reveal(ordered); lemma_resolve_start(class_states@, abstract_classes@, a, __all1); }
%loop 1
    invariant ordered(a, __all1), resolved(class_states@, abstract_classes@, a, __all1, __it1.pos()), a == apis.apis@, apis.wf(),
%loopbegin 1
    let ghost k = __it1.pos() - 1; let ghost m0 = class_states@; let ghost ab0 = abstract_classes@;
%loopend 1
    proof { if !class_at(*__all1[k]) { lemma_resolve(a, __all1, k, m0, ab0, class_states@, abstract_classes@); } }
%loopbefore 2
    let ghost und0 = self_cs.undefined@; let ghost def0 = self_cs.defined@;
%loop 2
    invariant forall|s: Signature| #[trigger] self_cs.undefined@.contains(s) <==> und0.contains(s) || base_undef(class_states@, __all2, __it2.pos(), s),
        self_cs.defined@ == def0, class_states@ == m0,
%loopbegin 2
    let ghost j = __it2.pos() - 1;
%loopafter 2
    proof {
        assert forall|s: Signature| #[trigger] self_cs.undefined@.contains(s) <==> undef_in(m0, name.name, s) || via_set(m0, bases@, s) by {
            if base_undef(m0, __all2, __all2.len() as int, s) { let j = choose|j: int| 0 <= j < __all2.len() && undef_in(m0, *#[trigger] __all2[j], s); assert(bases@.contains(*__all2[j])); }
            if via_set(m0, bases@, s) { let b = choose|b: QualifiedName| bases@.contains(b) && #[trigger] undef_in(m0, b, s); assert(vx_has(__all2, &b)); let j = choose|j: int| 0 <= j < __all2.len() && #[trigger] __all2[j] == &b; assert(undef_in(m0, *__all2[j], s)); }
        }
    }
%before `self_cs . undefined . retain`
    let ghost u1 = self_cs.undefined@;
%after `* class_states . entry`
    proof { lemma_class_step(a, __all1, k, m0, ab0, class_states@, abstract_classes@, bases@, def0, u1, class_states@[name.name]); }
%loop 3
    invariant __all3 == a, a == apis.apis@ ==> true, forall|n: QualifiedName| #[trigger] abstract_classes@.contains(n) <==> is_abstract(a, n),
        <ApiVec<FnPrePhase2> as VxCollect<A2>>::collected(marks(a, __it3.pos()), __col3),
%loopbegin 3
    let ghost k = __it3.pos() - 1;
%loopend 3
    proof { assert(marks(a, k).push(marked(a, a[k])) =~= marks(a, k + 1)); }
%loopbefore 3
    proof { assert(marks(a, 0) =~= Seq::empty()); }
%loopafter 3
    proof { lemma_collected(a, __col3.apis@); }
%before `apis . retain`
    broadcast use {lemma_kept, lemma_conv};
    proof { assert(is_set(abstract_classes@)); }
%after `apis . retain`
    let ghost kept = apis.apis@; let ghost rm = vx_ret_m(marks(a, a.len() as int), kept);
    proof { assert(kept_ok(a, kept, rm, abstract_classes@)); }
%end
    proof { assert(conv_outs(kept, __ret.apis@)); lemma_marked_result(a, kept, rm, abstract_classes@, __ret.apis@); }
%loopafter 1
    proof { lemma_all_resolved(a, __all1, class_states@, abstract_classes@); }
%closure 0
 -> (vr: bool) ensures vr == !self_cs.defined@.contains(*und)
%closure 1
 -> (vr: bool) ensures keep_f(abstract_classes@, *api, vr)
%closure 3
 -> (vr: bool) ensures vr == n.nested()
%closure 2
 -> (vr: Result<It<A2>, ConvertErrorFromCpp>) ensures conv_f(api, vr)
@@end
} // verus!
fn main(){}
