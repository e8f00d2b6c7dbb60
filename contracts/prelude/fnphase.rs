verus! {
@@type engine/src/conversion/api.rs TypeKind
@@end
@@type engine/src/conversion/analysis/pod/mod.rs PodAnalysis
* => VxOpaque
keep kind bases castable_bases field_deps field_definition_deps
@@end
@@type engine/src/conversion/analysis/fun/mod.rs PodAndDepAnalysis
* => VxOpaque
keep pod constructor_and_allocator_deps
@@end
@@type engine/src/conversion/analysis/tdef.rs TypedefAnalysis
* => VxOpaque
keep deps
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnKind
* => VxOpaque
keep Method.impl_for TraitMethod.impl_for
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalysis
* => VxOpaque
keep kind deps externally_callable rust_wrapper_needed rust_name
@@end
pub struct FnPhase;
impl AnalysisPhase for FnPhase {
    type TypedefAnalysis = TypedefAnalysis;
    type StructAnalysis = PodAndDepAnalysis;
    type FunAnalysis = FnAnalysis;
}
/// What an item needs to exist for its own binding to be usable.
pub open spec fn is_dep(api: Api<FnPhase>, q: QualifiedName) -> bool {
    match api {
        Api::Typedef { old_tyname, analysis, .. } => old_tyname == Some(q) || analysis.deps@.contains(q),
        Api::Struct { analysis, .. } =>
            vx_has(analysis.constructor_and_allocator_deps@, q)
            || (analysis.pod.kind is Pod && (analysis.pod.field_deps@.contains(q) || analysis.pod.bases@.contains(q))),
        Api::Function { analysis, .. } => analysis.deps@.contains(q),
        Api::Subclass { superclass, .. } => superclass == q,
        Api::RustSubclassFn { details, .. } => vx_has(details.dependencies@, q),
        Api::RustFn { deps, .. } => vx_has(deps@, q),
        _ => false,
    }
}
pub open spec fn lists_deps(it: It<&QualifiedName>, api: Api<FnPhase>) -> bool {
    &&& it.pos() == 0
    &&& forall|q: QualifiedName| #[trigger] vx_has(it.all(), &q) <==> is_dep(api, q)
    &&& forall|q: QualifiedName| #[trigger] is_dep(api, q) ==> vx_has(it.all(), &q)
}
#[verifier::external_body]
pub fn vx_option_iter<T>(o: &Option<T>) -> (r: It<&T>)
    ensures r.pos() == 0,
        *o is None ==> r.all() == Seq::<&T>::empty(),
        *o matches Some(x) ==> r.all() == seq![&x],
{ unimplemented!() }
impl<T> VxDefault for Vec<T> { open spec fn default_spec(r: Self) -> bool { r@ == Seq::<T>::empty() } }
impl Api<FnPhase> {
@@fn engine/src/conversion/analysis/deps.rs <HasDependencies for Api<FnPhase>>::deps
%prerewrite? `Box :: new` => `vx_id`
%prerewrite? `old_tyname . iter ()` => `vx_option_iter(old_tyname)`
%ensures
    lists_deps(r, *self),
%begin
    broadcast use vx_has_lemmas;
@@end
}
pub fn vx_id<T>(t: T) -> (r: T) ensures r == t { t }
} // verus!
