@@include core.rs
@@include qname.rs
@@set API_KEEP Function.fun
@@set STRUCT_DETAILS Box<StructDetails>
@@set ERR_VARIANTS FromThisFunction(FnError),
verus! {
pub struct StructDetails { pub x: VxOpaque }
pub struct FuncToConvert { pub x: VxOpaque }
pub struct FnError { pub x: VxOpaque }
}
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
@@include errors.rs
verus! {
// --- what a phase may do to the items it is given -----------------------------------
pub type Made<B> = Result<It<Api<B>>, ConvertErrorWithContext>;
/// The kinds of items no phase after parsing changes.
pub open spec fn passes<A: AnalysisPhase>(a: Api<A>) -> bool { !(a is Function || a is Struct || a is Enum || a is Typedef) }
/// The same item, in the next phase.
pub open spec fn carried<A: AnalysisPhase, B: AnalysisPhase>(a: Api<A>) -> Api<B> {
    match a {
        Api::ForwardDeclaration { name, err } => Api::ForwardDeclaration { name, err },
        Api::OpaqueTypedef { name, forward_declaration } => Api::OpaqueTypedef { name, forward_declaration },
        Api::ConcreteType { name, rs_definition, cpp_definition } => Api::ConcreteType { name, rs_definition, cpp_definition },
        Api::StringConstructor { name } => Api::StringConstructor { name },
        Api::Const { name, const_item } => Api::Const { name, const_item },
        Api::CType { name, typename } => Api::CType { name, typename },
        Api::IgnoredItem { name, err, ctx } => Api::IgnoredItem { name, err, ctx },
        Api::RustType { name, path } => Api::RustType { name, path },
        Api::RustFn { name, details, deps } => Api::RustFn { name, details, deps },
        Api::RustSubclassFn { name, subclass, details } => Api::RustSubclassFn { name, subclass, details },
        Api::Subclass { name, superclass } => Api::Subclass { name, superclass },
        Api::SubclassTraitItem { name, details } => Api::SubclassTraitItem { name, details },
        Api::ExternCppType { name, details, pod } => Api::ExternCppType { name, details, pod },
        Api::Enum { name, item } => Api::Enum { name, item },
        _ => arbitrary(),
    }
}
/// A marker which stands where the item stood.
pub open spec fn marks<A: AnalysisPhase, B: AnalysisPhase>(a: Api<A>, e: ConvertErrorWithContext, out: Seq<Api<B>>) -> bool {
    out.len() == 1 && out[0].is_ignored() && out[0].info() == a.info() && out[0]->IgnoredItem_err == e.0 && out[0]->IgnoredItem_ctx == e.1
}
pub open spec fn outcome<A: AnalysisPhase, B: AnalysisPhase>(a: Api<A>, r: Made<B>, out: It<Api<B>>) -> bool {
    out.pos() == 0 && match r { Ok(it) => out == it, Err(e) => marks(a, e, out.all()) }
}
pub open spec fn phase_one<FF, SF, EF, TF, A: AnalysisPhase, B: AnalysisPhase>(a: Api<A>, ff: FF, sf: SF, ef: EF, tf: TF, out: It<Api<B>>) -> bool
    where FF: Fn(ApiName, Box<FuncToConvert>, A::FunAnalysis) -> Made<B>, SF: Fn(ApiName, Box<StructDetails>, A::StructAnalysis) -> Made<B>, EF: Fn(ApiName, VxOpaque) -> Made<B>, TF: Fn(ApiName, VxOpaque, Option<QualifiedName>, A::TypedefAnalysis) -> Made<B>
{
    match a {
        Api::Function { name, fun, analysis } => exists|r: Made<B>| #[trigger] ff.ensures((name, fun, analysis), r) && outcome(a, r, out),
        Api::Struct { name, details, analysis } => exists|r: Made<B>| #[trigger] sf.ensures((name, details, analysis), r) && outcome(a, r, out),
        Api::Enum { name, item } => exists|r: Made<B>| #[trigger] ef.ensures((name, item), r) && outcome(a, r, out),
        Api::Typedef { name, item, old_tyname, analysis } => exists|r: Made<B>| #[trigger] tf.ensures((name, item, old_tyname, analysis), r) && outcome(a, r, out),
        _ => out.pos() == 0 && out.all() == seq![carried::<A, B>(a)],
    }
}
pub open spec fn phase_all<FF, SF, EF, TF, A: AnalysisPhase, B: AnalysisPhase>(a: Seq<Api<A>>, ff: FF, sf: SF, ef: EF, tf: TF, outs: Seq<It<Api<B>>>) -> bool
    where FF: Fn(ApiName, Box<FuncToConvert>, A::FunAnalysis) -> Made<B>, SF: Fn(ApiName, Box<StructDetails>, A::StructAnalysis) -> Made<B>, EF: Fn(ApiName, VxOpaque) -> Made<B>, TF: Fn(ApiName, VxOpaque, Option<QualifiedName>, A::TypedefAnalysis) -> Made<B>
{
    outs.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> phase_one(a[i], ff, sf, ef, tf, #[trigger] outs[i])
}
@@fn engine/src/conversion/error_reporter.rs fn convert_apis
%attr #[verifier::rlimit(60)]
%sig
pub fn convert_apis<FF, SF, EF, TF, A, B>(in_apis: ApiVec<A>, out_apis: &mut ApiVec<B>, func_conversion: FF, struct_conversion: SF, enum_conversion: EF, typedef_conversion: TF) where A: AnalysisPhase, B: AnalysisPhase, FF: Fn(ApiName, Box<FuncToConvert>, A::FunAnalysis) -> Made<B>, SF: Fn(ApiName, Box<StructDetails>, A::StructAnalysis) -> Made<B>, EF: Fn(ApiName, VxOpaque) -> Made<B>, TF: Fn(ApiName, VxOpaque, Option<QualifiedName>, A::TypedefAnalysis) -> Made<B>
%prerewrite? `Box :: new` => `vx_box`
%prerewrite? `Result < Box < dyn Iterator < Item = Api < B > > > , ConvertErrorWithContext >` => `Made<B>`
%prerewrite? `std :: iter :: once` => `once`
%requires
    old(out_apis).wf(),
    forall|n: ApiName, f: Box<FuncToConvert>, x: A::FunAnalysis| #[trigger] func_conversion.requires((n, f, x)),
    forall|n: ApiName, f: Box<StructDetails>, x: A::StructAnalysis| #[trigger] struct_conversion.requires((n, f, x)),
    forall|n: ApiName, f: VxOpaque| #[trigger] enum_conversion.requires((n, f)),
    forall|n: ApiName, f: VxOpaque, o: Option<QualifiedName>, x: A::TypedefAnalysis| #[trigger] typedef_conversion.requires((n, f, o, x)),
    forall|n: ApiName, f: Box<FuncToConvert>, x: A::FunAnalysis, r: Made<B>| #[trigger] func_conversion.ensures((n, f, x), r) ==> (r matches Ok(it) ==> it.pos() == 0),
    forall|n: ApiName, f: Box<StructDetails>, x: A::StructAnalysis, r: Made<B>| #[trigger] struct_conversion.ensures((n, f, x), r) ==> (r matches Ok(it) ==> it.pos() == 0),
    forall|n: ApiName, f: VxOpaque, r: Made<B>| #[trigger] enum_conversion.ensures((n, f), r) ==> (r matches Ok(it) ==> it.pos() == 0),
    forall|n: ApiName, f: VxOpaque, o: Option<QualifiedName>, x: A::TypedefAnalysis, r: Made<B>| #[trigger] typedef_conversion.ensures((n, f, o, x), r) ==> (r matches Ok(it) ==> it.pos() == 0),
%ensures
    final(out_apis).wf(),
    exists|outs: Seq<It<Api<B>>>| #![trigger vx_flat(outs)] phase_all(in_apis.apis@, func_conversion, struct_conversion, enum_conversion, typedef_conversion, outs) && pushed_all(old(out_apis).apis@, vx_flat(outs), final(out_apis).apis@),
%closure 0
 -> (vr: It<Api<B>>) ensures phase_one(api, func_conversion, struct_conversion, enum_conversion, typedef_conversion, vr)
@@end
impl<T: AnalysisPhase> Api<T> {
@@fn engine/src/conversion/api.rs Api::typedef_unchanged
%sig
pub fn typedef_unchanged(name: ApiName, item: VxOpaque, old_tyname: Option<QualifiedName>, analysis: T::TypedefAnalysis) -> (r: Made<T>)
%prerewrite? `Box :: new` => `vx_box`
%prerewrite? `std :: iter :: once` => `once`
%ensures
    r matches Ok(it) && it.pos() == 0 && it.all() == seq![Api::<T>::Typedef { name, item, old_tyname, analysis }],
@@end
@@fn engine/src/conversion/api.rs Api::struct_unchanged
%sig
pub fn struct_unchanged(name: ApiName, details: Box<StructDetails>, analysis: T::StructAnalysis) -> (r: Made<T>)
%prerewrite? `Box :: new` => `vx_box`
%prerewrite? `std :: iter :: once` => `once`
%ensures
    r matches Ok(it) && it.pos() == 0 && it.all() == seq![Api::<T>::Struct { name, details, analysis }],
@@end
@@fn engine/src/conversion/api.rs Api::fun_unchanged
%sig
pub fn fun_unchanged(name: ApiName, fun: Box<FuncToConvert>, analysis: T::FunAnalysis) -> (r: Made<T>)
%prerewrite? `Box :: new` => `vx_box`
%prerewrite? `std :: iter :: once` => `once`
%ensures
    r matches Ok(it) && it.pos() == 0 && it.all() == seq![Api::<T>::Function { name, fun, analysis }],
@@end
@@fn engine/src/conversion/api.rs Api::enum_unchanged
%sig
pub fn enum_unchanged(name: ApiName, item: VxOpaque) -> (r: Made<T>)
%prerewrite? `Box :: new` => `vx_box`
%prerewrite? `std :: iter :: once` => `once`
%ensures
    r matches Ok(it) && it.pos() == 0 && it.all() == seq![Api::<T>::Enum { name, item }],
@@end
}
// --- an error on the way is reported where the user would look --------------------
@@type engine/src/conversion/convert_error.rs ErrorContextType
@@end
pub uninterp spec fn ctx_type(c: ErrorContext) -> ErrorContextType;
pub struct Namespace { pub x: VxOpaque }
pub uninterp spec fn qn_of(ns: Namespace, id: Ident) -> QualifiedName;
impl ErrorContext {
    #[verifier::external_body]
    pub fn get_type(&self) -> (r: &ErrorContextType) ensures *r == ctx_type(*self) { unimplemented!() }
}
impl QualifiedName {
    #[verifier::external_body]
    pub fn new(ns: &Namespace, id: Ident) -> (r: QualifiedName) ensures r == qn_of(*ns, id) { unimplemented!() }
}
pub open spec fn shown_at(c: ErrorContext) -> Ident { match ctx_type(c) { ErrorContextType::Item(id) => id, ErrorContextType::SanitizedItem(id) => id, ErrorContextType::Method { self_ty, .. } => self_ty } }
/// The only trace of a failed piece of work is one marker, where its context says; success leaves no trace.
pub open spec fn reported<P: AnalysisPhase, T>(ns: Namespace, before: Seq<Api<P>>, res: Result<T, ConvertErrorWithContext>, after: Seq<Api<P>>, r: Option<T>) -> bool {
    match res {
        Ok(t) => r == Some(t) && after == before,
        Err(e) => r is None && match e.1 { None => after == before, Some(c) => exists|m: Api<P>| #![trigger pushed(before, m, after)] pushed(before, m, after) && m.is_ignored() && m->IgnoredItem_err == e.0 && m->IgnoredItem_ctx == Some(c) && m.qname() == qn_of(ns, shown_at(c)) },
    }
}
@@fn engine/src/conversion/error_reporter.rs fn report_any_error
%sig
pub fn report_any_error<F, T, P>(ns: &Namespace, apis: &mut ApiVec<P>, fun: F) -> (r: Option<T>) where F: FnOnce() -> Result<T, ConvertErrorWithContext>, P: AnalysisPhase
%requires
    old(apis).wf(), fun.requires(()),
%ensures
    final(apis).wf(),
    exists|res: Result<T, ConvertErrorWithContext>| #[trigger] fun.ensures((), res) && reported(*ns, old(apis).apis@, res, final(apis).apis@, r),
@@end
// --- discarding what turned out not to be bindable -----------------------------------
@@type engine/src/conversion/api.rs TypeKind
@@end
@@type engine/src/conversion/analysis/pod/mod.rs PodAnalysis
* => VxOpaque
keep kind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs PodAndDepAnalysis
* => VxOpaque
keep pod
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalysis
* => VxOpaque
cpp_wrapper => Option<VxOpaque>
keep ignore_reason externally_callable cxxbridge_name
@@end
pub struct FnPhase;
impl AnalysisPhase for FnPhase {
    type TypedefAnalysis = VxOpaque;
    type StructAnalysis = PodAndDepAnalysis;
    type FunAnalysis = FnAnalysis;
}
pub type F = Api<FnPhase>;
/// A function which may not be bound is replaced by its own error, in its own place; nothing else changes.
pub open spec fn discarded(a: F, b: F) -> bool {
    match a {
        Api::Function { analysis, .. } => match analysis.ignore_reason { Err(e) => marks(a, e, seq![b]), Ok(_) => b == a },
        _ => b == a,
    }
}
pub proof fn lemma_ones<P: AnalysisPhase>(a: Seq<Api<P>>, outs: Seq<It<Api<P>>>)
    requires outs.len() == a.len(), names_unique(a), forall|i: int| 0 <= i < a.len() ==> (#[trigger] outs[i]).all().len() == 1 && outs[i].all()[0].qname() == a[i].qname(),
    ensures names_unique(Seq::<Api<P>>::empty() + vx_flat(outs)),
{
    lemma_flat_ones(outs);
    let f = Seq::<Api<P>>::empty() + vx_flat(outs);
    assert(f =~= vx_flat(outs));
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && (#[trigger] f[i]).qname() == (#[trigger] f[j]).qname() implies i == j by { let _ = outs[i]; let _ = outs[j]; assert(a[i].qname() == a[j].qname()); }
}
#[verifier::opaque]
pub open spec fn all_discarded(src: Seq<F>, outs: Seq<It<F>>) -> bool {
    outs.len() == src.len() && forall|i: int| 0 <= i < src.len() ==> (#[trigger] outs[i]).all().len() == 1 && discarded(src[i], outs[i].all()[0])
}
pub broadcast proof fn lemma_discards<FF, SF, EF, TF>(a: Seq<F>, ff: FF, sf: SF, ef: EF, tf: TF, outs: Seq<It<F>>)
    where FF: Fn(ApiName, Box<FuncToConvert>, FnAnalysis) -> Made<FnPhase>, SF: Fn(ApiName, Box<StructDetails>, PodAndDepAnalysis) -> Made<FnPhase>, EF: Fn(ApiName, VxOpaque) -> Made<FnPhase>, TF: Fn(ApiName, VxOpaque, Option<QualifiedName>, VxOpaque) -> Made<FnPhase>
    requires
        #[trigger] phase_all::<FF, SF, EF, TF, FnPhase, FnPhase>(a, ff, sf, ef, tf, outs),
        forall|n: ApiName, f: Box<FuncToConvert>, x: FnAnalysis, r: Made<FnPhase>| #[trigger] ff.ensures((n, f, x), r) ==> match x.ignore_reason { Err(e) => r == Err::<It<F>, ConvertErrorWithContext>(e), Ok(_) => r matches Ok(it) && it.all() == seq![Api::<FnPhase>::Function { name: n, fun: f, analysis: x }] },
        forall|n: ApiName, f: Box<StructDetails>, x: PodAndDepAnalysis, r: Made<FnPhase>| #[trigger] sf.ensures((n, f, x), r) ==> (r matches Ok(it) && it.all() == seq![Api::<FnPhase>::Struct { name: n, details: f, analysis: x }]),
        forall|n: ApiName, f: VxOpaque, r: Made<FnPhase>| #[trigger] ef.ensures((n, f), r) ==> (r matches Ok(it) && it.all() == seq![Api::<FnPhase>::Enum { name: n, item: f }]),
        forall|n: ApiName, f: VxOpaque, o: Option<QualifiedName>, x: VxOpaque, r: Made<FnPhase>| #[trigger] tf.ensures((n, f, o, x), r) ==> (r matches Ok(it) && it.all() == seq![Api::<FnPhase>::Typedef { name: n, item: f, old_tyname: o, analysis: x }]),
    ensures all_discarded(a, outs),
{
    reveal(all_discarded);
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] outs[i]).all().len() == 1 && discarded(a[i], outs[i].all()[0]) by {
        assert(phase_one(a[i], ff, sf, ef, tf, outs[i]));
        assert(outs[i].all() =~= seq![outs[i].all()[0]]);
    }
}
pub proof fn lemma_all_discarded(src: Seq<F>, ret: Seq<F>)
    requires names_unique(src), exists|outs: Seq<It<F>>| #![trigger vx_flat(outs)] pushed_all(Seq::<F>::empty(), vx_flat(outs), ret) && all_discarded(src, outs),
    ensures ret.len() == src.len(), forall|i: int| 0 <= i < src.len() ==> discarded(src[i], #[trigger] ret[i]),
{
    reveal(all_discarded);
    let outs = choose|outs: Seq<It<F>>| #![trigger vx_flat(outs)] pushed_all(Seq::<F>::empty(), vx_flat(outs), ret) && all_discarded(src, outs);
    lemma_flat_ones(outs); lemma_ones(src, outs); lemma_pushed_fresh(Seq::<F>::empty(), vx_flat(outs), ret);
    assert(ret =~= vx_flat(outs));
    assert forall|i: int| 0 <= i < src.len() implies discarded(src[i], #[trigger] ret[i]) by { let _ = outs[i]; }
}
#[verifier::external_body]
pub fn vx_copy<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
@@fn engine/src/conversion/analysis/abstract_types.rs fn discard_ignored_functions
%prerewrite? `analysis . ignore_reason . clone ()` => `vx_copy(&analysis.ignore_reason)`
%prerewrite? `Box :: new` => `vx_box`
%prerewrite? `std :: iter :: once` => `once`
%requires
    apis.wf(),
%ensures
    r.wf(), r.apis@.len() == apis.apis@.len(),
    forall|i: int| 0 <= i < apis.apis@.len() ==> discarded(apis.apis@[i], #[trigger] r.apis@[i]),
%begin
    broadcast use lemma_discards;
    let ghost src = apis.apis@;
%closure 0
 -> (vr: Made<FnPhase>) ensures match analysis.ignore_reason { Err(e) => vr == Err::<It<F>, ConvertErrorWithContext>(e), Ok(_) => vr matches Ok(it) && it.pos() == 0 && it.all() == seq![Api::<FnPhase>::Function { name, fun, analysis }] }
%end
    proof {
        assert(exists|outs: Seq<It<F>>| #![trigger vx_flat(outs)] pushed_all(Seq::<F>::empty(), vx_flat(outs), __ret.apis@) && all_discarded(src, outs));
        lemma_all_discarded(src, __ret.apis@);
    }
@@end
impl Api<FnPhase> {
@@fn engine/src/conversion/analysis/fun/mod.rs Api::needs_cpp_codegen
%ensures
    r == (match *self {
        Api::Function { analysis, .. } => analysis.cpp_wrapper is Some && analysis.ignore_reason is Ok && analysis.externally_callable,
        Api::StringConstructor { .. } | Api::ConcreteType { .. } | Api::CType { .. } | Api::RustSubclassFn { .. } | Api::Subclass { .. } => true,
        Api::Struct { analysis, .. } => analysis.pod.kind is Pod,
        _ => false,
    }),
@@end
}
} // verus!
fn main() {}
