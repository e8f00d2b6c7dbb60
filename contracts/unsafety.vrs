@@include core.rs
@@include qname.rs
verus! {
pub type Pat = VxOpaque;
@@type engine/src/conversion/api.rs UnsafetyNeeded
@@end
@@type parser/src/config.rs UnsafePolicy
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ReceiverMutability
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs RustConversionType
* => VxOpaque
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy
* => VxOpaque
keep rust_conversion
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ArgumentAnalysis
* => VxOpaque
keep conversion self_type requires_unsafe is_placement_return_destination
@@end
@@type engine/src/conversion/analysis/fun/mod.rs TraitMethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnKind
* => VxOpaque
keep TraitMethod.kind
@@end
// The kind of a converted Rust type (type_converter::TypeKind; extracted below).
@@type engine/src/conversion/analysis/type_converter.rs TypeKind
* => VxOpaque
@@end
pub struct AnnotatedTy { pub kind: TypeKind }
/// The token `unsafe`.
pub struct Unsafe;

/// The receiver, or the place a constructor or by-value return writes to.
pub open spec fn internal_param(p: ArgumentAnalysis) -> bool { p.self_type is Some || p.is_placement_return_destination }
/// A parameter the caller has to vouch for.
pub open spec fn risky(p: ArgumentAnalysis) -> bool { p.requires_unsafe is Always }
pub open spec fn counts(p: ArgumentAnalysis, ignore: bool) -> bool { risky(p) && !(ignore && internal_param(p)) }
pub open spec fn combined(acc: UnsafetyNeeded, p: ArgumentAnalysis, ignore: bool, r: UnsafetyNeeded) -> bool {
    &&& (r is Always <==> acc is Always || counts(p, ignore))
    &&& (r is None ==> acc is None && p.requires_unsafe is None)
}
pub open spec fn any_counts(s: Seq<ArgumentAnalysis>, ignore: bool) -> bool { exists|i: int| 0 <= i < s.len() && counts(#[trigger] s[i], ignore) }
pub open spec fn fold_step(accs: Seq<UnsafetyNeeded>, s: Seq<ArgumentAnalysis>, ignore: bool) -> bool {
    &&& accs.len() == s.len() + 1
    &&& accs[0] is None
    &&& forall|i: int| 0 <= i < s.len() ==> combined(#[trigger] accs[i], s[i], ignore, accs[i + 1])
}
pub proof fn lemma_fold(accs: Seq<UnsafetyNeeded>, s: Seq<ArgumentAnalysis>, ignore: bool, n: int)
    requires fold_step(accs, s, ignore), 0 <= n <= s.len(),
    ensures accs[n] is Always <==> exists|i: int| 0 <= i < n && counts(#[trigger] s[i], ignore),
        accs[n] is None ==> forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).requires_unsafe is None,
    decreases n,
{
    if n > 0 {
        lemma_fold(accs, s, ignore, n - 1);
        assert(combined(accs[n - 1], s[n - 1], ignore, accs[n - 1 + 1]));
        if accs[n] is Always {
            if accs[n - 1] is Always { let i = choose|i: int| 0 <= i < n - 1 && counts(#[trigger] s[i], ignore); assert(counts(s[i], ignore)); }
            else { assert(counts(s[n - 1], ignore)); }
        }
        if exists|i: int| 0 <= i < n && counts(#[trigger] s[i], ignore) {
            let i = choose|i: int| 0 <= i < n && counts(#[trigger] s[i], ignore);
            if i < n - 1 { assert(counts(s[i], ignore)); }
        }
    }
}
impl UnsafePolicy {
// No safety directive: everything is unsafe.
@@fn parser/src/config.rs <Default for UnsafePolicy>::default
%ensures
    r is AllFunctionsUnsafe,
@@end
}
impl UnsafetyNeeded {
@@fn engine/src/conversion/codegen_rs/fun_codegen.rs UnsafetyNeeded::bridge_token
%prerewrite `parse_quote ! { unsafe }` => `Unsafe`
%ensures
    r is None <==> *self is None,
@@end
@@fn engine/src/conversion/codegen_rs/fun_codegen.rs UnsafetyNeeded::wrapper_token
%prerewrite `parse_quote ! { unsafe }` => `Unsafe`
%ensures
    r is Some <==> *self is Always,
@@end
@@fn engine/src/conversion/codegen_rs/fun_codegen.rs UnsafetyNeeded::from_param_details
%ensures
    r is Always <==> any_counts(params@, ignore_placements),
    r is None ==> forall|i: int| 0 <= i < params@.len() ==> (#[trigger] params@[i]).requires_unsafe is None,
%closure 0
 -> (vr: UnsafetyNeeded) ensures combined(accumulator, *pd, ignore_placements, vr)
%end
    proof {
        let accs = choose|accs: Seq<UnsafetyNeeded>| #![auto] accs.len() == params@.len() + 1 && accs[0] is None && accs.last() == __ret && fold_step(accs, params@, ignore_placements);
        lemma_fold(accs, params@, ignore_placements, params@.len() as int);
    }
@@end
}
impl TypeConversionPolicy {
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::bridge_unsafe_needed
@@end
}
pub struct FnAnalyzer { pub unsafe_policy: UnsafePolicy }
pub open spec fn unsafe_trait(k: FnKind) -> bool {
    k matches FnKind::TraitMethod { kind, .. } && (kind is CopyConstructor || kind is MoveConstructor || kind is Alloc || kind is Dealloc)
}
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::should_be_unsafe
%ensures
    // trait methods follow the trait
    kind is TraitMethod ==> (r is Always <==> unsafe_trait(*kind)),
    // no directive: everything is unsafe
    !(kind is TraitMethod) && self.unsafe_policy is AllFunctionsUnsafe ==> r is Always,
    // trusted: unsafe exactly when a parameter other than the receiver is risky
    !(kind is TraitMethod) && !(self.unsafe_policy is AllFunctionsUnsafe) ==> (r is Always <==> any_counts(param_details@, true)),
    // the bridge function is never safer than its parameters
    r is None ==> !any_counts(param_details@, false),
@@end
// `let requires_unsafe = ...` of FnAnalyzer::convert_fn_arg: which parameters are risky.
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::convert_fn_arg
%slice let requires_unsafe
%sig
fn vx_param_unsafety(annotated_type: &AnnotatedTy, conversion: &TypeConversionPolicy, is_placement_return_destination: bool) -> (r: UnsafetyNeeded)
%ensures
    r is Always <==> annotated_type.kind is Pointer && !is_placement_return_destination,
    r is None ==> !is_placement_return_destination,
@@end
}
// Methods a Rust subclass overrides: the trait method and the call back into Rust.
pub struct VxFn { pub param_details: Vec<ArgumentAnalysis> }
@@fn engine/src/conversion/analysis/fun/subclass.rs fn create_subclass_trait_item
%slice let requires_unsafe
%sig
fn vx_subclass_trait_unsafety(unsafe_policy: &UnsafePolicy, analysis: &VxFn) -> (r: UnsafetyNeeded)
%ensures
    *unsafe_policy is AllFunctionsUnsafe ==> r is Always,
    !(*unsafe_policy is AllFunctionsUnsafe) ==> (r is Always <==> any_counts(analysis.param_details@, false)),
@@end
@@fn engine/src/conversion/analysis/fun/subclass.rs fn create_subclass_function
%slice let requires_unsafe
%sig
fn vx_subclass_fn_unsafety(unsafe_policy: &UnsafePolicy, analysis: &VxFn) -> (r: UnsafetyNeeded)
%ensures
    *unsafe_policy is AllFunctionsUnsafe ==> r is Always,
    !(*unsafe_policy is AllFunctionsUnsafe) ==> (r is Always <==> any_counts(analysis.param_details@, false)),
@@end
} // verus!
fn main(){}
