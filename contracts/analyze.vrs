@@include core.rs
@@include trackers_fns.rs
@@include qname.rs
@@include text.rs
verus! {
// A cut-down `syn`: only the shapes the functions under contract look at.
pub struct TypePath { pub x: VxOpaque }
pub enum Type { Path(TypePath), Reference(VxOpaque), Other(VxOpaque) }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct FnArg { x: u8 }
#[verifier::external_body]
pub struct Pat { x: u8 }
#[verifier::external_body]
pub struct ReturnType { x: u8 }
#[verifier::external_body]
pub struct Visibility { x: u8 }
pub enum Tok { Ty(Type), Id(Ident), Arg(FnArg), Pat(Pat), Ret(ReturnType), List(Seq<Tok>), Other(VxOpaque) }
impl VxTok for Type { open spec fn tok(&self) -> Tok { Tok::Ty(*self) } }
impl VxTok for FnArg { open spec fn tok(&self) -> Tok { Tok::Arg(*self) } }
impl VxTok for Pat { open spec fn tok(&self) -> Tok { Tok::Pat(*self) } }
impl VxTok for ReturnType { open spec fn tok(&self) -> Tok { Tok::Ret(*self) } }
impl VxTok for Ident { open spec fn tok(&self) -> Tok { Tok::Id(*self) } }
impl Clone for FnArg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Pat { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Visibility { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Namespace { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Pat { pub fn into(self) -> (r: Pat) ensures r == self { self } }
impl ReturnType { pub fn into(self) -> (r: ReturnType) ensures r == self { self } }
impl Visibility { pub fn into(self) -> (r: Visibility) ensures r == self { self } }
impl Ident {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl<'a> VxStr for &'a mut Ident { open spec fn vx_chars(&self) -> Seq<char> { (**self).text() } }
impl VxStr for Ident { open spec fn vx_chars(&self) -> Seq<char> { self.text() } }
pub uninterp spec fn ident_of(s: Seq<char>) -> Ident;
/// An identifier is its text.
pub broadcast axiom fn axiom_ident(s: Seq<char>) ensures (#[trigger] ident_of(s)).text() == s;
#[verifier::external_body]
pub fn make_ident<S: VxStr>(s: S) -> (r: Ident) ensures r == ident_of(s.vx_chars()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ne<A: VxStr, B: VxStr>(a: &A, b: &B) -> (r: bool) ensures r == (a.vx_chars() != b.vx_chars()) { unimplemented!() }
pub uninterp spec fn ends_underscore(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_ends_underscore(s: &String) -> (r: bool) ensures r == ends_underscore(s@) { unimplemented!() }
pub open spec fn strip(s: Seq<char>, p: Seq<char>) -> Option<Seq<char>> { if p.is_prefix_of(s) { Some(s.skip(p.len() as int)) } else { None } }
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { Some(x) => strip(s@, p@) == Some(x@), None => strip(s@, p@) is None },
{ unimplemented!() }
pub uninterp spec fn is_u32(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_is_u32(s: &str) -> (r: bool) ensures r == is_u32(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
pub struct VxIsOk;
/// `.partition(Result::is_ok)`, then `.map(Result::unwrap).unzip()` of the first half: in order.
pub open spec fn oks<A, B, E>(s: Seq<Result<(A, B), E>>) -> Seq<(A, B)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Ok(x) => oks(s.drop_last()).push(x), Err(_) => oks(s.drop_last()) } }
}
pub open spec fn errs<A, E>(s: Seq<Result<A, E>>) -> Seq<Result<A, E>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Ok(x) => errs(s.drop_last()), Err(e) => errs(s.drop_last()).push(s.last()) } }
}
pub proof fn lemma_all_ok<A, B, E>(s: Seq<Result<(A, B), E>>)
    ensures
        errs(s).len() == 0 ==> oks(s).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<(A, B), E>(oks(s)[i]),
        forall|i: int| 0 <= i < errs(s).len() ==> (#[trigger] errs(s)[i]) is Err && vx_has(s, errs(s)[i]),
        forall|i: int| 0 <= i < oks(s).len() ==> vx_has(s, Ok::<(A, B), E>(#[trigger] oks(s)[i])),
    decreases s.len(),
{
    broadcast use {vx_has_lemmas, lemma_has_index};
    if s.len() > 0 {
        lemma_all_ok(s.drop_last());
        assert(s == s.drop_last().push(s.last()));
    }
}
#[verifier::external_body]
pub fn vx_partition<A, B, E>(it: It<Result<(A, B), E>>, f: VxIsOk) -> (r: (Vec<Result<(A, B), E>>, Vec<Result<(A, B), E>>))
    requires it.pos() == 0,
    ensures oks(r.0@) == oks(it.all()), r.1@ == errs(it.all()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_unzip_oks<A, B, E>(v: Vec<Result<(A, B), E>>) -> (r: (Vec<A>, Vec<B>))
    ensures r.0@.len() == oks(v@).len(), r.1@.len() == oks(v@).len(), forall|i: int| 0 <= i < oks(v@).len() ==> #[trigger] oks(v@)[i] == (r.0@[i], r.1@[i]),
        forall|i: int| 0 <= i < oks(v@).len() ==> oks(v@)[i] == (r.0@[i], #[trigger] r.1@[i]),
{ unimplemented!() }
// --- names ---------------------------------------------------------------------
#[verifier::external_body]
pub struct CppOriginalName { x: u8 }
#[verifier::external_body]
pub struct CppEffectiveName { x: u8 }
impl Clone for CppOriginalName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn called_as(c: CppOriginalName) -> CppEffectiveName;
pub uninterp spec fn named_like_rust(s: Seq<char>) -> CppEffectiveName;
pub uninterp spec fn named_like_bridge(i: Ident) -> CppEffectiveName;
pub uninterp spec fn original_like_rust(s: Seq<char>) -> CppOriginalName;
/// What a C++ name looks like in Rust, and whether it is a Rust identifier.
pub uninterp spec fn rust_text(c: CppOriginalName) -> Seq<char>;
pub uninterp spec fn rust_ok(c: CppOriginalName) -> bool;
pub uninterp spec fn cxx_ok(s: Seq<char>) -> bool;
pub struct InvalidIdentError { pub x: VxOpaque }
impl CppOriginalName {
    #[verifier::external_body]
    pub fn diagnostic_display_name(&self) -> (r: &String) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_for_rust_name(&self) -> (r: String) ensures r@ == rust_text(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_effective_name(&self) -> (r: CppEffectiveName) ensures r == called_as(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rust_name(s: String) -> (r: CppOriginalName) ensures r == original_like_rust(s@) { unimplemented!() }
}
impl CppEffectiveName {
    #[verifier::external_body]
    pub fn from_rust_name(s: String) -> (r: CppEffectiveName) ensures r == named_like_rust(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_cxxbridge_name(i: &Ident) -> (r: CppEffectiveName) ensures r == named_like_bridge(*i) { unimplemented!() }
}
#[verifier::external_body]
pub fn validate_ident_ok_for_rust(c: &CppOriginalName) -> (r: Result<(), InvalidIdentError>) ensures r is Ok == rust_ok(*c) { unimplemented!() }
#[verifier::external_body]
pub fn validate_ident_ok_for_cxx(s: &String) -> (r: Result<(), InvalidIdentError>) ensures r is Ok == cxx_ok(s@) { unimplemented!() }
pub uninterp spec fn qn_of(ns: Namespace, id: Ident) -> QualifiedName;
impl QualifiedName {
    pub uninterp spec fn ns(&self) -> Namespace;
    #[verifier::external_body]
    pub fn get_namespace(&self) -> (r: &Namespace) ensures *r == self.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(ns: &Namespace, id: Ident) -> (r: QualifiedName) ensures r == qn_of(*ns, id) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_type_path(&self) -> (r: TypePath) { unimplemented!() }
    pub uninterp spec fn cpp_text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_cpp_name(&self) -> (r: String) ensures r@ == self.cpp_text() { unimplemented!() }
}
pub struct ErrorContext { pub x: VxOpaque }
pub uninterp spec fn item_ctx(id: Ident) -> ErrorContext;
pub uninterp spec fn method_ctx(self_ty: Ident, id: Ident) -> ErrorContext;
impl Clone for ErrorContext { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ErrorContext {
    #[verifier::external_body]
    pub fn new_for_item(id: Ident) -> (r: ErrorContext) ensures r == item_ctx(id) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_for_method(self_ty: Ident, id: Ident) -> (r: ErrorContext) ensures r == method_ctx(self_ty, id) { unimplemented!() }
}
@@type engine/src/conversion/api.rs ApiName
@@end
impl ApiName {
@@fn engine/src/conversion/api.rs ApiName::cpp_name_if_present
%ensures
    match r { Some(c) => self.cpp_name == Some(*c), None => self.cpp_name is None },
@@end
@@fn engine/src/conversion/api.rs ApiName::new_with_cpp_name
%ensures
    r.name == qn_of(*ns, id), r.cpp_name == cpp_name,
@@end
}
/// Why a function cannot be bound. `Other`: a parameter or the result has a type which cannot.
pub enum ConvertErrorFromCpp {
    Argument { arg: String, err: Box<ConvertErrorFromCpp> },
    ConstructorWithOnlyOneParam, ConstructorWithMultipleParams, PrivateMethod, Variadic, AssignmentOperator, RValueReturn, Deleted,
    UnsupportedReceiver, MethodOfNonAllowlistedType, MethodOfGenericType, MethodInAnonymousNamespace,
    NoInputReference(String), MultipleInputReferences(String), NoMutableInputReference(String), MultipleMutableInputReferences(String),
    InvalidIdent(InvalidIdentError),
    Other(VxOpaque),
}
pub struct ConvertErrorWithContext(pub ConvertErrorFromCpp, pub Option<ErrorContext>);
#[verifier::external_body]
pub fn describe_arg(a: &FnArg) -> (r: String) { unimplemented!() }
pub uninterp spec fn returns_rvalue_ref(r: ReturnType) -> bool;
#[verifier::external_body]
pub fn return_type_is_reference(r: &ReturnType) -> (b: bool) ensures b == returns_rvalue_ref(*r) { unimplemented!() }
pub struct TypeDatabase;
#[verifier::external_body]
pub fn known_types() -> (r: TypeDatabase) { unimplemented!() }
pub uninterp spec fn can_have_methods(q: QualifiedName) -> bool;
impl TypeDatabase {
    #[verifier::external_body]
    pub fn is_cxx_acceptable_receiver(&self, q: &QualifiedName) -> (r: bool) ensures r == can_have_methods(*q) { unimplemented!() }
}
// --- the data under analysis ------------------------------------------------------
pub type TypeConversionSophistication = VxSoph;
#[derive(Clone, Copy)]
pub struct VxSoph { pub x: bool }
pub struct IncludeCppConfig { pub x: VxOpaque }
pub uninterp spec fn unique_name(c: IncludeCppConfig, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn allowed(c: IncludeCppConfig, s: Seq<char>) -> bool;
impl IncludeCppConfig {
    #[verifier::external_body]
    pub fn uniquify_name_per_mod(&self, s: &String) -> (r: String) ensures r@ == unique_name(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_on_allowlist(&self, s: &String) -> (r: bool) ensures r == allowed(*self, s@) { unimplemented!() }
}
// as autocxx_bindgen reports them
pub enum CppVisibility { Public, Protected, Private }
pub enum Virtualness { Virtual, PureVirtual }
pub enum Explicitness { Defaulted, Deleted }
pub enum SpecialMemberKind { DefaultConstructor, CopyConstructor, MoveConstructor, Destructor, AssignmentOperator }
@@type engine/src/conversion/api.rs UnsafetyNeeded
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ReceiverMutability
pre #[derive(Clone, Copy)]
@@end
@@type engine/src/conversion/analysis/fun/mod.rs MethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs TraitMethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs TraitMethodDetails
* => VxOpaque
keep avoid_self method_name parameter_reordering trait_call_is_unsafe
trt => TraitImplSignature
@@end
pub struct TraitImplSignature { pub ty: Type, pub trait_signature: TokenStream, pub unsafety: Option<TokenStream> }
@@type engine/src/conversion/analysis/fun/mod.rs FnKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs RustRenameStrategy
RenameInOutputMod.0 => Ident
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs RustConversionType
* => VxOpaque
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunctionBody
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunctionKind
@@end
impl Clone for CppFunctionBody { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CppFunctionKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// How a value is converted on its way (unit `wrapper` proves what these say).
#[verifier::external_body]
pub struct TypeConversionPolicy { x: u8 }
impl Clone for TypeConversionPolicy { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn cpp_work(p: TypeConversionPolicy) -> bool;
pub uninterp spec fn rust_work(p: TypeConversionPolicy) -> bool;
pub uninterp spec fn bridge_ty(p: TypeConversionPolicy) -> Type;
pub uninterp spec fn arg_ty(p: TypeConversionPolicy) -> TokenStream;
pub uninterp spec fn ret_ty(p: TypeConversionPolicy) -> TokenStream;
pub uninterp spec fn returns_value(p: TypeConversionPolicy) -> bool;
impl TypeConversionPolicy {
    #[verifier::external_body]
    pub fn cpp_work_needed(&self) -> (r: bool) ensures r == cpp_work(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn rust_work_needed(&self) -> (r: bool) ensures r == rust_work(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cxxbridge_type(&self) -> (r: &Type) ensures *r == bridge_ty(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn converted_rust_type(&self) -> (r: TokenStream) ensures r == arg_ty(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn unconverted_rust_type(&self) -> (r: TokenStream) ensures r == ret_ty(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn populate_return_value(&self) -> (r: bool) ensures r == returns_value(*self) { unimplemented!() }
}
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunction
wrapper_function_name => Ident
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ArgumentAnalysis
name => Pat
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ReturnTypeAnalysis
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalysis
cxxbridge_name => Ident
params => Vec<FnArg>
ret_type => ReturnType
@@end
pub enum TraitSynthesis { Cast { to_type: QualifiedName, mutable: VxOpaque }, AllocUninitialized(QualifiedName), FreeUninitialized(QualifiedName) }
@@type engine/src/conversion/api.rs FuncToConvert
only ident inputs variadic output vis virtualness cpp_vis special_member self_ty synthesized_this_type add_to_trait synthetic_cpp is_deleted
inputs => Vec<FnArg>
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalyzer
only unsafe_policy bridge_name_tracker config overload_trackers_by_mod nested_type_name_map generic_types types_in_anonymous_namespace force_wrapper_generation
unsafe_policy => VxOpaque
config => IncludeCppConfig
generics <>
@@end

// --- what the parts are assumed to do ------------------------------------------------
/// The analysis of one C++ parameter: `a` tells how `arg` crosses the bridge.
pub uninterp spec fn converts(arg: FnArg, h: How, a: ArgumentAnalysis) -> bool;
/// What the analysis of a parameter is told about its role.
pub struct How { pub force: Option<RustConversionType>, pub this_as_ref: bool, pub moving: bool, pub into_self: bool }
pub open spec fn plain() -> How { How { force: None, this_as_ref: true, moving: false, into_self: false } }
/// The roles of the parameters: what is constructed, copied from or destroyed is passed by pointer.
pub open spec fn plan(k: FnKind, i: int) -> How {
    let p = How { force: None, this_as_ref: false, moving: false, into_self: false };
    match k {
        FnKind::Method { method_kind: MethodKind::Constructor { .. }, .. } => if i == 0 { How { into_self: true, ..p } } else { plain() },
        FnKind::TraitMethod { kind: TraitMethodKind::Destructor, .. } => if i == 0 { How { force: Some(RustConversionType::FromTypeToPtr), ..p } } else { plain() },
        FnKind::TraitMethod { kind: TraitMethodKind::CopyConstructor, .. } => if i == 0 { How { force: Some(RustConversionType::FromPinMaybeUninitToPtr), ..p } } else { plain() },
        FnKind::TraitMethod { kind: TraitMethodKind::MoveConstructor, .. } => if i == 0 { How { force: Some(RustConversionType::FromPinMaybeUninitToPtr), ..p } } else if i == 1 { How { force: Some(RustConversionType::FromPinMoveRefToPtr), moving: true, ..p } } else { plain() },
        _ => plain(),
    }
}
/// The class whose method takes this parameter as its receiver.
pub uninterp spec fn receiver_of(arg: FnArg, this: Option<QualifiedName>) -> Option<(QualifiedName, ReceiverMutability)>;
/// The types a parameter, or a result, mentions.
pub uninterp spec fn arg_deps(arg: FnArg, this: Option<QualifiedName>) -> Set<QualifiedName>;
pub uninterp spec fn ret_deps(r: ReturnType) -> Set<QualifiedName>;
pub uninterp spec fn returns_ref(r: ReturnType) -> bool;
pub uninterp spec fn returns_mut_ref(r: ReturnType) -> bool;
/// The analysis of a result type.
pub uninterp spec fn ret_seen(r: ReturnType, bridge: ReturnType, c: Option<TypeConversionPolicy>) -> bool;
/// The bridge parameter which goes with an analysis.
pub uninterp spec fn bridge_param(p: FnArg, a: ArgumentAnalysis) -> bool;
/// The complaint is about a type.
pub uninterp spec fn type_trouble(e: ConvertErrorFromCpp) -> bool;
/// Everything but the name trackers stays as it is.
pub open spec fn same(a: FnAnalyzer, b: FnAnalyzer) -> bool {
    a == (FnAnalyzer { bridge_name_tracker: a.bridge_name_tracker, overload_trackers_by_mod: a.overload_trackers_by_mod, ..b })
}
pub open spec fn arg_ok(arg: FnArg, this: Option<QualifiedName>, h: How, p: FnArg, a: ArgumentAnalysis) -> bool {
    converts(arg, h, a) && a.self_type == receiver_of(arg, this) && a.deps@ == arg_deps(arg, this) && bridge_param(p, a)
}
impl FnAnalyzer {
    #[verifier::external_body]
    pub fn convert_fn_arg(&mut self, arg: &FnArg, ns: &Namespace, diagnostic_name: &QualifiedName, virtual_this: &Option<QualifiedName>, treat_this_as_reference: bool, is_move_constructor: bool,
        force_rust_conversion: Option<RustConversionType>, sophistication: TypeConversionSophistication, construct_into_self: bool) -> (r: Result<(FnArg, ArgumentAnalysis), ConvertErrorFromCpp>)
        ensures *final(self) == *old(self),
            r matches Ok(x) ==> arg_ok(*arg, *virtual_this, How { force: force_rust_conversion, this_as_ref: treat_this_as_reference, moving: is_move_constructor, into_self: construct_into_self }, x.0, x.1),
            r matches Err(e) ==> type_trouble(e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn convert_return_type(&mut self, rt: &ReturnType, ns: &Namespace, diagnostic_name: &QualifiedName, sophistication: TypeConversionSophistication) -> (r: Result<ReturnTypeAnalysis, ConvertErrorFromCpp>)
        ensures *final(self) == *old(self),
            r matches Ok(x) ==> x.deps@ == ret_deps(*rt) && x.was_reference == returns_ref(*rt) && x.was_mutable_reference == returns_mut_ref(*rt) && ret_seen(*rt, x.rt, x.conversion) && (x.placement_param_needed matches Some(p) ==> p.1.self_type is None && bridge_param(p.0, p.1) && !cpp_work(p.1.conversion)),
            r matches Err(e) ==> type_trouble(e),
    { unimplemented!() }
    /// Unit `unsafety`.
    #[verifier::external_body]
    pub fn should_be_unsafe(&self, d: &Vec<ArgumentAnalysis>, k: &FnKind) -> (r: UnsafetyNeeded) ensures r == unsafety(self.unsafe_policy, d@, *k) { unimplemented!() }
}
pub uninterp spec fn unsafety(p: VxOpaque, d: Seq<ArgumentAnalysis>, k: FnKind) -> UnsafetyNeeded;
impl ReturnTypeAnalysis {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.conversion is None, !r.was_reference, !r.was_mutable_reference, r.deps@ == Set::<QualifiedName>::empty(), r.placement_param_needed is None { unimplemented!() }
}
// --- the names given out, per namespace ------------------------------------------------
impl VxDefault for OverloadTracker { open spec fn default_spec(r: Self) -> bool { forall|ty: Option<Seq<char>>, n: String| !#[trigger] taken(r, ty).contains(n) } }
pub open spec fn taken_in(a: FnAnalyzer, ns: Namespace, ty: Option<Seq<char>>, n: String) -> bool {
    a.overload_trackers_by_mod@.dom().contains(ns) && taken(a.overload_trackers_by_mod@[ns], ty).contains(n)
}
/// Names once given out stay so.
pub open spec fn grows(a: FnAnalyzer, b: FnAnalyzer) -> bool {
    &&& same(a, b)
    &&& forall|ns: Namespace, ty: Option<Seq<char>>, n: String| taken_in(a, ns, ty, n) ==> #[trigger] taken_in(b, ns, ty, n)
    &&& forall|n: String| given(a.bridge_name_tracker).contains(n) ==> #[trigger] given(b.bridge_name_tracker).contains(n)
    &&& inv(a.bridge_name_tracker) ==> inv(b.bridge_name_tracker)
}
/// A name which no other function of this class, or no other free function of this namespace, has.
pub open spec fn fresh_name(a: FnAnalyzer, b: FnAnalyzer, ns: Namespace, ty: Option<Seq<char>>, n: String) -> bool { !taken_in(a, ns, ty, n) && taken_in(b, ns, ty, n) }
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::get_overload_name
%sig
pub fn get_overload_name(&mut self, ns: &Namespace, type_ident: &str, rust_name: String) -> (r: String)
%ensures
    grows(*old(self), *final(self)), final(self).bridge_name_tracker == old(self).bridge_name_tracker,
    fresh_name(*old(self), *final(self), *ns, Some(type_ident@), r),
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::get_function_overload_name
%ensures
    grows(*old(self), *final(self)), final(self).bridge_name_tracker == old(self).bridge_name_tracker,
    fresh_name(*old(self), *final(self), *ns, None, r),
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::get_cxx_bridge_name
%requires
    inv(old(self).bridge_name_tracker),
%ensures
    grows(*old(self), *final(self)), final(self).overload_trackers_by_mod == old(self).overload_trackers_by_mod,
    !given(old(self).bridge_name_tracker).contains(r), given(final(self).bridge_name_tracker).contains(r),
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::is_on_allowlist
%ensures
    r == allowed(self.config, type_name.cpp_text()),
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::is_generic_type
%ensures
    r == self.generic_types@.contains(*type_name),
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::error_context_for_method
%ensures
    r == marker(*self, *self_ty, rust_name@),
@@end
}
/// Where the reason for a method's absence is recorded.
pub open spec fn marker(a: FnAnalyzer, ty: QualifiedName, n: Seq<char>) -> ErrorContext {
    if a.generic_types@.contains(ty) { item_ctx(ident_of(n)) } else { method_ctx(ty.final_ident(), ident_of(n)) }
}

// --- what kind of function it is ---------------------------------------------------------
/// What the function would be called, but for overloads.
pub open spec fn ideal(fun: FuncToConvert, name: ApiName) -> Seq<char> {
    match name.cpp_name {
        None => fun.ident.text(),
        Some(c) => if fun.ident.text() == fmt1("{}_"@, rust_text(c)) { fun.ident.text() } else if !rust_ok(c) { fmt1("{}_"@, rust_text(c)) } else { rust_text(c) },
    }
}
pub open spec fn class_name(a: FnAnalyzer, ty: QualifiedName) -> Seq<char> {
    if a.nested_type_name_map@.dom().contains(ty) { a.nested_type_name_map@[ty]@ } else { ty.final_item() }
}
/// C++ gives a constructor the name of its class. bindgen may have numbered it, where it tells us no C++ name.
pub open spec fn is_ctor(ideal: Seq<char>, class: Seq<char>, cpp: Option<CppOriginalName>) -> bool {
    strip(ideal, class) matches Some(s) && (s.len() == 0 || (is_u32(s) && cpp is None))
}
pub open spec fn first_receiver(d: Seq<ArgumentAnalysis>) -> Option<(QualifiedName, ReceiverMutability)>
    decreases d.len(),
{ if d.len() == 0 { None } else if first_receiver(d.drop_last()) is Some { first_receiver(d.drop_last()) } else { d.last().self_type } }
pub open spec fn owner(fun: FuncToConvert, d: Seq<ArgumentAnalysis>) -> Option<QualifiedName> {
    match first_receiver(d) { Some(x) => Some(x.0), None => fun.self_ty }
}
pub open spec fn method_kind_ok(a: FnAnalyzer, fun: FuncToConvert, name: ApiName, ty: QualifiedName, recv: Option<(QualifiedName, ReceiverMutability)>, k: MethodKind) -> bool {
    let ctor = is_ctor(ideal(fun, name), class_name(a, ty), name.cpp_name);
    match k {
        MethodKind::Constructor { is_default } => ctor && (is_default <==> fun.special_member == Some(SpecialMemberKind::DefaultConstructor)),
        MethodKind::Static => !ctor && recv is None,
        MethodKind::Normal => !ctor && recv is Some && fun.virtualness is None,
        MethodKind::Virtual(m) => !ctor && (recv matches Some(x) && x.1 == m) && fun.virtualness == Some(Virtualness::Virtual),
        MethodKind::PureVirtual(m) => !ctor && (recv matches Some(x) && x.1 == m) && fun.virtualness == Some(Virtualness::PureVirtual),
    }
}
pub open spec fn kind_ok(a: FnAnalyzer, fun: FuncToConvert, name: ApiName, d: Seq<ArgumentAnalysis>, k: FnKind) -> bool {
    match fun.add_to_trait {
        Some(t) => synth_kind(t, owner(fun, d), k),
        None => match owner(fun, d) {
            None => k is Function,
            Some(ty) => match fun.special_member {
                Some(SpecialMemberKind::MoveConstructor) => k matches FnKind::TraitMethod { kind, impl_for, .. } && kind is MoveConstructor && impl_for == ty,
                Some(SpecialMemberKind::CopyConstructor) => match k {
                    FnKind::TraitMethod { kind, impl_for, .. } => kind is CopyConstructor && impl_for == ty,
                    FnKind::Method { method_kind, impl_for } => method_kind == (MethodKind::Constructor { is_default: false }) && impl_for == ty,
                    _ => false,
                },
                Some(SpecialMemberKind::Destructor) => k matches FnKind::TraitMethod { kind, impl_for, .. } && kind is Destructor && impl_for == ty,
                _ => k matches FnKind::Method { method_kind, impl_for } && impl_for == ty && method_kind_ok(a, fun, name, ty, first_receiver(d), method_kind),
            },
        },
    }
}
pub open spec fn synth_kind(t: TraitSynthesis, ty: Option<QualifiedName>, k: FnKind) -> bool {
    k matches FnKind::TraitMethod { kind, impl_for, .. } && match t {
        TraitSynthesis::Cast { .. } => kind is Cast && Some(impl_for) == ty,
        TraitSynthesis::AllocUninitialized(q) => kind is Alloc && impl_for == q,
        TraitSynthesis::FreeUninitialized(q) => kind is Dealloc && impl_for == q,
    }
}
/// Under which class or, if there is none, in which namespace the Rust name has to be unique.
pub open spec fn scope(fun: FuncToConvert, name: ApiName, d: Seq<ArgumentAnalysis>) -> (Namespace, Option<Seq<char>>) {
    match fun.add_to_trait {
        Some(TraitSynthesis::AllocUninitialized(q)) => (q.ns(), None),
        Some(TraitSynthesis::FreeUninitialized(q)) => (q.ns(), None),
        Some(_) => (name.name.ns(), None),
        None => (name.name.ns(), match owner(fun, d) { Some(ty) => Some(ty.final_item()), None => None }),
    }
}
impl FnAnalyzer {
    #[verifier::external_body]
    pub fn trait_creation_details_for_synthetic_function(&mut self, synthesis: &Option<TraitSynthesis>, ns: &Namespace, ideal_rust_name: &String, self_ty: &Option<QualifiedName>) -> (r: Option<(FnKind, ErrorContext, String)>)
        ensures grows(*old(self), *final(self)), final(self).bridge_name_tracker == old(self).bridge_name_tracker,
            *synthesis is None ==> r is None && *final(self) == *old(self),
            *synthesis matches Some(t) ==> r is Some && synth_kind(t, *self_ty, r->Some_0.0)
                && fresh_name(*old(self), *final(self), match t { TraitSynthesis::AllocUninitialized(q) => q.ns(), TraitSynthesis::FreeUninitialized(q) => q.ns(), _ => *ns }, None, r->Some_0.2),
    { unimplemented!() }
}
@@fn engine/src/conversion/analysis/fun/mod.rs fn constructor_with_suffix
%prerewrite? `rust_name . strip_prefix (nested_type_ident)` => `vx_strip_prefix(rust_name, nested_type_ident)`
%prerewrite? `suffix . parse :: < u32 > () . is_ok ()` => `vx_is_u32(suffix)`
%prerewrite? `suffix . is_empty ()` => `vx_is_empty(suffix)`
%ensures
    match r { Some(x) => strip(rust_name@, nested_type_ident@) == Some(x@) && (x@.len() == 0 || is_u32(x@)), None => !(strip(rust_name@, nested_type_ident@) matches Some(s) && (s.len() == 0 || is_u32(s))) },
%closure `is_u32`
 -> (vr: Option<&'a str>) ensures vr == (if suffix@.len() == 0 || is_u32(suffix@) { Some(suffix) } else { None })
@@end
// --- parameters --------------------------------------------------------------------------
impl<T> It<T> {
    #[verifier::external_body]
    pub fn nth(self, n: usize) -> (r: Option<T>) requires self.pos() == 0 ensures r == (if n < self.all().len() { Some(self.all()[n as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_vec(self) -> (r: Vec<T>) requires self.pos() == 0 ensures r@ == self.all() { unimplemented!() }
}
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
}
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn drain(&mut self, _r: core::ops::RangeFull) -> (r: It<T>)
        ensures r.pos() == 0, final(self)@ == Set::<T>::empty(), forall|x: T| #[trigger] vx_has(r.all(), x) <==> old(self)@.contains(x),
    { unimplemented!() }
}
pub trait VxCloned<T> { fn vx_cloned(self) -> (r: Option<T>) ensures self.vx_same(r); spec fn vx_same(self, r: Option<T>) -> bool; }
impl<'a, T> VxCloned<T> for Option<&'a T> {
    open spec fn vx_same(self, r: Option<T>) -> bool { match self { Some(x) => r == Some(*x), None => r is None } }
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
}
/// `it.by_ref().take(n)`: what is left of `it` is the rest.
#[verifier::external_body]
pub fn vx_take<T>(it: &mut It<T>, n: usize) -> (r: It<T>)
    requires old(it).pos() == 0,
    ensures r.pos() == 0, final(it).pos() == 0, old(it).all() == r.all() + final(it).all(), r.all().len() == n || (r.all().len() < n && final(it).all().len() == 0),
{ unimplemented!() }
/// `v[i] = x`, which panics if there is no such place.
#[verifier::external_body]
pub fn vx_set<T>(v: &mut Vec<T>, i: usize, x: T) ensures i < old(v)@.len(), final(v)@ == old(v)@.update(i as int, x) { unimplemented!() }
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::reanalyze_parameter
%panics
%sig
pub fn reanalyze_parameter(&mut self, param_idx: usize, fun: &FuncToConvert, ns: &Namespace, diagnostic_name: &QualifiedName, params: &mut Vec<FnArg>, param_details: &mut Vec<ArgumentAnalysis>,
    force_rust_conversion: Option<RustConversionType>, sophistication: TypeConversionSophistication, construct_into_self: bool, is_move_constructor: bool) -> (r: Result<(), ConvertErrorFromCpp>)
%resmap `new_analysis`
%prerewrite? `params_before . by_ref () . take (param_idx)` => `vx_take(&mut params_before, param_idx)`
%prerewrite? `std :: iter :: once` => `once`
%prerewrite? `param_details [param_idx] = new_analysis` => `vx_set(param_details, param_idx, new_analysis)`
%requires
    old(params)@.len() == old(param_details)@.len(),
%ensures
    *final(self) == *old(self),
    r is Ok ==> reanalyzed(*fun, param_idx as int, How { force: force_rust_conversion, this_as_ref: false, moving: is_move_constructor, into_self: construct_into_self }, old(params)@, old(param_details)@, final(params)@, final(param_details)@),
    r matches Err(e) ==> type_trouble(e) && final(params)@ == old(params)@ && final(param_details)@ == old(param_details)@,
@@end
}
/// The parameter at `i` was looked at anew; the others stay as they were.
pub open spec fn reanalyzed(fun: FuncToConvert, i: int, h: How, p0: Seq<FnArg>, d0: Seq<ArgumentAnalysis>, p: Seq<FnArg>, d: Seq<ArgumentAnalysis>) -> bool {
    &&& 0 <= i < fun.inputs@.len() && i < d0.len() && d.len() == d0.len() && p.len() == p0.len()
    &&& arg_ok(fun.inputs@[i], fun.synthesized_this_type, h, p[i], d[i])
    &&& d =~= d0.update(i, d[i]) && p =~= p0.update(i, p[i])
}
// --- what is said about the result ---------------------------------------------------------
pub open spec fn lifetimes(d: Seq<ArgumentAnalysis>, mutable: bool) -> Set<int> { Set::range(0, d.len() as int).filter(|i: int| d[i].has_lifetime && (mutable ==> d[i].is_mutable_reference)) }
pub open spec fn same_args(from: Seq<&ArgumentAnalysis>, d: Seq<ArgumentAnalysis>) -> bool { from.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> *#[trigger] from[i] == d[i] }
pub fn vx_args(v: &Vec<ArgumentAnalysis>) -> (r: It<&ArgumentAnalysis>)
    ensures r.pos() == 0, same_args(r.all(), v@), r.all().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *r.all()[i] == #[trigger] v@[i],
{ v.iter() }
/// Counting by a filter counts.
pub broadcast proof fn lemma_count<F: Fn(&&ArgumentAnalysis) -> bool>(from: Seq<&ArgumentAnalysis>, to: Seq<&ArgumentAnalysis>, f: F, d: Seq<ArgumentAnalysis>, mutable: bool)
    requires #![trigger vx_filtered(from, to, f), lifetimes(d, mutable)]
        vx_filtered(from, to, f), same_args(from, d),
        forall|x: &ArgumentAnalysis, b: bool| #[trigger] f.ensures((&x,), b) ==> b == (x.has_lifetime && (mutable ==> x.is_mutable_reference)),
    ensures to.len() == lifetimes(d, mutable).len(),
{
    reveal(vx_filtered);
    let m = vx_ret_m(from, to); let s = lifetimes(d, mutable);
    assert(m.no_duplicates());
    assert forall|i: int| #[trigger] m.to_set().contains(i) <==> s.contains(i) by {
        if m.to_set().contains(i) { let j = choose|j: int| 0 <= j < m.len() && m[j] == i; assert(f.ensures((&from[m[j]],), true)); assert(*from[i] == d[i]); }
        if s.contains(i) { assert(*from[i] == d[i]); if !vx_has(m, i) { assert(f.ensures((&from[i],), false)); } let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == i; assert(m.contains(m[j])); }
    }
    assert(m.to_set() =~= s);
    m.unique_seq_to_set();
}
pub proof fn lemma_first(o: Seq<Option<&(QualifiedName, ReceiverMutability)>>, d: Seq<ArgumentAnalysis>)
    requires o.len() == d.len(), forall|i: int| 0 <= i < o.len() ==> match #[trigger] o[i] { Some(x) => d[i].self_type == Some(*x), None => d[i].self_type is None },
    ensures match first_receiver(d) { Some(x) => vx_somes(o).len() > 0 && *vx_somes(o)[0] == x, None => vx_somes(o).len() == 0 },
    decreases o.len(),
{
    if o.len() > 0 { assert(match o.last() { Some(x) => d.last().self_type == Some(*x), None => d.last().self_type is None }); lemma_first(o.drop_last(), d.drop_last()); }
}
pub broadcast proof fn lemma_first_b<F: Fn(&ArgumentAnalysis) -> Option<&(QualifiedName, ReceiverMutability)>>(from: Seq<&ArgumentAnalysis>, f: F, o: Seq<Option<&(QualifiedName, ReceiverMutability)>>, r: Seq<&(QualifiedName, ReceiverMutability)>, d: Seq<ArgumentAnalysis>)
    requires #![trigger vx_fm(from, f, o, r), first_receiver(d)]
        vx_fm(from, f, o, r), same_args(from, d),
        forall|x: &ArgumentAnalysis, b: Option<&(QualifiedName, ReceiverMutability)>| #[trigger] f.ensures((x,), b) ==> match b { Some(y) => x.self_type == Some(*y), None => x.self_type is None },
    ensures match first_receiver(d) { Some(x) => r.len() > 0 && *r[0] == x, None => r.len() == 0 },
{
    assert forall|i: int| 0 <= i < o.len() implies match #[trigger] o[i] { Some(x) => d[i].self_type == Some(*x), None => d[i].self_type is None } by { assert(f.ensures((from[i],), o[i])); assert(*from[i] == d[i]); }
    lemma_first(o, d);
}
pub proof fn lemma_same_first(d: Seq<ArgumentAnalysis>, e: Seq<ArgumentAnalysis>)
    requires d.len() == e.len(), forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).self_type == e[i].self_type,
    ensures first_receiver(d) == first_receiver(e),
    decreases d.len(),
{ if d.len() > 0 { assert(d.last().self_type == e.last().self_type); lemma_same_first(d.drop_last(), e.drop_last()); } }
pub proof fn lemma_all_args(fun: FuncToConvert, s: Seq<Result<(FnArg, ArgumentAnalysis), ConvertErrorFromCpp>>)
    requires args_done(fun, s),
    ensures forall|i: int| 0 <= i < errs(s).len() ==> match #[trigger] errs(s)[i] { Ok(_) => false, Err(e) => e matches ConvertErrorFromCpp::Argument { arg, err } && type_trouble(*err) },
        errs(s).len() == 0 ==> oks(s).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> arg_ok(fun.inputs@[i], fun.synthesized_this_type, plain(), (#[trigger] oks(s)[i]).0, oks(s)[i].1),
{
    broadcast use {vx_has_lemmas, lemma_has_index};
    lemma_all_ok(s);
    assert forall|i: int| 0 <= i < errs(s).len() implies match #[trigger] errs(s)[i] { Ok(_) => false, Err(e) => e matches ConvertErrorFromCpp::Argument { arg, err } && type_trouble(*err) } by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == errs(s)[i]; assert(s[j] is Err);
    }
    assert forall|i: int| 0 <= i < s.len() && errs(s).len() == 0 implies arg_ok(fun.inputs@[i], fun.synthesized_this_type, plain(), (#[trigger] oks(s)[i]).0, oks(s)[i].1) by { assert(s[i] == Ok::<(FnArg, ArgumentAnalysis), ConvertErrorFromCpp>(oks(s)[i])); }
}
/// This argument of the C++ function, as analysed.
pub open spec fn arg_seen(arg: FnArg, this: Option<QualifiedName>, h: How, a: ArgumentAnalysis) -> bool { converts(arg, h, a) && a.self_type == receiver_of(arg, this) && a.deps@ == arg_deps(arg, this) }
pub open spec fn impl_for(k: FnKind) -> Option<QualifiedName> {
    match k { FnKind::Function => None, FnKind::Method { impl_for, .. } => Some(impl_for), FnKind::TraitMethod { impl_for, .. } => Some(impl_for) }
}
/// C++ functions which must not be callable from Rust, whatever else is true of them.
pub open spec fn must_reject(a: FnAnalyzer, fun: FuncToConvert, k: FnKind) -> bool {
    ||| fun.cpp_vis is Private
    ||| fun.variadic
    ||| fun.special_member == Some(SpecialMemberKind::AssignmentOperator)
    ||| returns_rvalue_ref(fun.output)
    ||| fun.is_deleted == Some(Explicitness::Deleted)
    ||| bad_receiver(k)
    ||| off_list(a, k)
    ||| (impl_for(k) matches Some(t) && (a.generic_types@.contains(t) || a.types_in_anonymous_namespace@.contains(t)))
}
pub open spec fn two_params(k: FnKind) -> bool { k matches FnKind::TraitMethod { kind, .. } && (kind is CopyConstructor || kind is MoveConstructor) }
pub open spec fn bad_receiver(k: FnKind) -> bool { k matches FnKind::Method { impl_for, method_kind } && !(method_kind is Static) && !can_have_methods(impl_for) }
pub open spec fn off_list(a: FnAnalyzer, k: FnKind) -> bool { k matches FnKind::Method { impl_for, method_kind } && !allowed(a.config, impl_for.cpp_text()) }
/// A result by reference borrows from exactly one argument, and a mutable one from a mutable one.
pub open spec fn lifetimes_ok(fun: FuncToConvert, d: Seq<ArgumentAnalysis>) -> bool {
    &&& returns_ref(fun.output) ==> lifetimes(d, false).len() == 1
    &&& returns_mut_ref(fun.output) ==> lifetimes(d, true).len() == 1
}
/// The reason given for a function's absence is a true one.
pub open spec fn truthful(a: FnAnalyzer, fun: FuncToConvert, r: FnAnalysis, e: ConvertErrorFromCpp) -> bool { true_of(a, fun, r.kind, r.param_details@, r.cxxbridge_name, e) }
pub open spec fn true_of(a: FnAnalyzer, fun: FuncToConvert, k: FnKind, d: Seq<ArgumentAnalysis>, bridge: Ident, e: ConvertErrorFromCpp) -> bool {
    type_trouble(e) || match e {
        ConvertErrorFromCpp::Argument { arg, err } => type_trouble(*err),
        ConvertErrorFromCpp::ConstructorWithOnlyOneParam => two_params(k),
        ConvertErrorFromCpp::ConstructorWithMultipleParams => two_params(k),
        ConvertErrorFromCpp::PrivateMethod => fun.cpp_vis is Private,
        ConvertErrorFromCpp::Variadic => fun.variadic,
        ConvertErrorFromCpp::AssignmentOperator => fun.special_member == Some(SpecialMemberKind::AssignmentOperator),
        ConvertErrorFromCpp::RValueReturn => returns_rvalue_ref(fun.output),
        ConvertErrorFromCpp::Deleted => fun.is_deleted == Some(Explicitness::Deleted),
        ConvertErrorFromCpp::UnsupportedReceiver => bad_receiver(k),
        ConvertErrorFromCpp::MethodOfNonAllowlistedType => off_list(a, k),
        ConvertErrorFromCpp::MethodOfGenericType => impl_for(k) matches Some(t) && a.generic_types@.contains(t),
        ConvertErrorFromCpp::MethodInAnonymousNamespace => impl_for(k) matches Some(t) && a.types_in_anonymous_namespace@.contains(t),
        ConvertErrorFromCpp::NoInputReference(n) => returns_ref(fun.output) && lifetimes(d, false).len() == 0,
        ConvertErrorFromCpp::MultipleInputReferences(n) => returns_ref(fun.output) && lifetimes(d, false).len() > 1,
        ConvertErrorFromCpp::NoMutableInputReference(n) => returns_mut_ref(fun.output) && lifetimes(d, true).len() == 0,
        ConvertErrorFromCpp::MultipleMutableInputReferences(n) => returns_mut_ref(fun.output) && lifetimes(d, true).len() > 1,
        ConvertErrorFromCpp::InvalidIdent(_) => !cxx_ok(bridge.text()),
        _ => false,
    }
}
/// So far nothing is wrong, or what is wrong is no fault of the result or of the name.
pub open spec fn so_far(a: FnAnalyzer, fun: FuncToConvert, k: FnKind, ctx: ErrorContext, ir: Result<(), ConvertErrorWithContext>) -> bool {
    ir matches Err(e) ==> e.1 == Some(ctx) && forall|d: Seq<ArgumentAnalysis>, i: Ident| #[trigger] true_of(a, fun, k, d, i, e.0)
}
/// So far nothing is wrong, or what is wrong is no fault of the name.
pub open spec fn so_far_args(a: FnAnalyzer, fun: FuncToConvert, k: FnKind, d: Seq<ArgumentAnalysis>, ctx: ErrorContext, ir: Result<(), ConvertErrorWithContext>) -> bool {
    ir matches Err(e) ==> e.1 == Some(ctx) && forall|i: Ident| #[trigger] true_of(a, fun, k, d, i, e.0)
}
/// Where the marker goes (that of a synthesized trait function is its own business).
pub open spec fn marked(a: FnAnalyzer, fun: FuncToConvert, r: FnAnalysis, c: ErrorContext) -> bool {
    fun.add_to_trait is None ==> c == match impl_for(r.kind) { Some(t) => marker(a, t, r.rust_name@), None => item_ctx(ident_of(r.rust_name@)) }
}
pub open spec fn args_seen(fun: FuncToConvert, k: FnKind, d: Seq<ArgumentAnalysis>) -> bool { forall|i: int| 0 <= i < fun.inputs@.len() ==> arg_seen(fun.inputs@[i], fun.synthesized_this_type, plan(k, i), #[trigger] d[i]) }
/// Whether a copy constructor counts as one was decided by how its second parameter is taken.
pub open spec fn copy_seen(fun: FuncToConvert, k: FnKind) -> bool {
    let n = fun.inputs@.len();
    exists|d0: Seq<ArgumentAnalysis>| d0.len() == n && (forall|i: int| 0 <= i < n ==> arg_seen(fun.inputs@[i], fun.synthesized_this_type, plain(), #[trigger] d0[i])) && #[trigger] copy_kind_ok(fun, d0, k)
}
pub open spec fn result_seen(fun: FuncToConvert, t: ReturnType, wrapped: bool, c: Option<TypeConversionPolicy>) -> bool { exists|rt: ReturnType| #[trigger] ret_seen(fun.output, rt, c) && result_ok(rt, t, wrapped, c) }
/// A parameter mentions the type.
pub open spec fn in_args(fun: FuncToConvert, q: QualifiedName) -> bool { exists|i: int| 0 <= i < fun.inputs@.len() && #[trigger] arg_deps(fun.inputs@[i], fun.synthesized_this_type).contains(q) }
pub open spec fn some_deps(d: Seq<ArgumentAnalysis>, q: QualifiedName) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).deps@.contains(q) }
pub open spec fn deps_seen(fun: FuncToConvert, s: Set<QualifiedName>) -> bool { forall|q: QualifiedName| #[trigger] s.contains(q) <==> in_args(fun, q) }
pub proof fn lemma_kind_same(a: FnAnalyzer, fun: FuncToConvert, name: ApiName, d: Seq<ArgumentAnalysis>, e: Seq<ArgumentAnalysis>, k: FnKind)
    requires kind_ok(a, fun, name, d, k), first_receiver(d) == first_receiver(e),
    ensures kind_ok(a, fun, name, e, k),
{}
pub proof fn lemma_first_push(d: Seq<ArgumentAnalysis>, x: ArgumentAnalysis)
    requires x.self_type is None,
    ensures first_receiver(d.push(x)) == first_receiver(d),
{ assert(d.push(x).drop_last() =~= d); }
/// Everything which a bound function is about: the arguments in order, and how they cross.
pub open spec fn analysed(a: FnAnalyzer, fun: FuncToConvert, name: ApiName, r: FnAnalysis) -> bool { kind_ok(a, fun, name, r.param_details@, r.kind) && copy_seen(fun, r.kind) && bridged(fun, r) }
/// The arguments in order, the result, and how they cross.
pub open spec fn bridged(fun: FuncToConvert, r: FnAnalysis) -> bool {
    let n = fun.inputs@.len(); let d = r.param_details@;
    &&& d.len() == n || d.len() == n + 1
    &&& args_seen(fun, r.kind, d)
    &&& d.len() > n ==> d[n as int].self_type is None && !cpp_work(d[n as int].conversion)
    &&& result_seen(fun, r.ret_type, r.cpp_wrapper is Some, r.ret_conversion)
    &&& lifetimes_ok(fun, d)
    &&& cxx_ok(r.cxxbridge_name.text())
    &&& forall|q: QualifiedName| #[trigger] r.deps@.contains(q) <==> (ret_deps(fun.output).contains(q) || in_args(fun, q))
    &&& r.cpp_wrapper is None ==> r.params@.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> bridge_param(#[trigger] r.params@[i], d[i])
}
pub open spec fn bridge_suffix(base: Seq<char>) -> Seq<char> { if ends_underscore(base) { "autocxx_underscore_wrapper"@ } else { "_autocxx_wrapper"@ } }
/// cxx can call C++ directly, with nothing in between.
pub open spec fn must_wrap(a: FnAnalyzer, fun: FuncToConvert, name: ApiName, r: FnAnalysis) -> bool {
    ||| kind_wraps(r.kind)
    ||| r.kind is Method && r.cxxbridge_name.text() != r.rust_name@
    ||| exists|i: int| 0 <= i < r.param_details@.len() && cpp_work(#[trigger] r.param_details@[i].conversion)
    ||| r.ret_conversion matches Some(c) && cpp_work(c)
    ||| name.cpp_name matches Some(c) && !rust_ok(c)
    ||| fun.synthetic_cpp is Some
    ||| a.force_wrapper_generation
}
/// What the C++ wrapper calls.
pub open spec fn body_ok(fun: FuncToConvert, name: ApiName, k: FnKind, rust_name: Seq<char>, w: CppFunction) -> bool {
    let ns = name.name.ns();
    let callee = match name.cpp_name { Some(c) => called_as(c), None => named_like_rust(rust_name) };
    match fun.synthetic_cpp {
        Some(x) => w.payload == x.0 && w.kind == x.1,
        None => match k {
            FnKind::Method { impl_for, method_kind } => match method_kind {
                MethodKind::Constructor { .. } => w.payload == CppFunctionBody::PlacementNew(ns, impl_for.final_ident()) && w.kind is Constructor,
                MethodKind::Static => w.payload == CppFunctionBody::StaticMethodCall(ns, impl_for.final_ident(), callee) && w.kind is Function,
                _ => w.payload == CppFunctionBody::FunctionCall(ns, callee) && w.kind is Method,
            },
            FnKind::TraitMethod { kind, impl_for, .. } => match kind {
                TraitMethodKind::CopyConstructor => w.payload == CppFunctionBody::PlacementNew(ns, impl_for.final_ident()) && w.kind is Constructor,
                TraitMethodKind::MoveConstructor => w.payload == CppFunctionBody::PlacementNew(ns, impl_for.final_ident()) && w.kind is Constructor,
                TraitMethodKind::Destructor => w.payload == CppFunctionBody::Destructor(ns, impl_for.final_ident()) && w.kind is Function,
                _ => w.payload == CppFunctionBody::FunctionCall(ns, callee) && w.kind is Function,
            },
            FnKind::Function => w.payload == CppFunctionBody::FunctionCall(ns, callee) && w.kind is Function,
        },
    }
}
/// A parameter of the bridge function where there is a C++ wrapper.
pub open spec fn wrapper_param(p: FnArg, d: ArgumentAnalysis) -> bool {
    if d.self_type is Some { exists|t: Pat| t.tok() == q0("autocxx_gen_this"@) && p.tok() == q2("#0 : #1"@, t.tok(), arg_ty(d.conversion)@) }
    else { p.tok() == q2("#0 : #1"@, d.name.tok(), arg_ty(d.conversion)@) }
}
pub open spec fn wrapper_ok(fun: FuncToConvert, name: ApiName, k: FnKind, rust_name: Seq<char>, bridge: Ident, ret: Option<TypeConversionPolicy>, p: Seq<FnArg>, d: Seq<ArgumentAnalysis>, w: CppFunction) -> bool {
    &&& body_ok(fun, name, k, rust_name, w)
    &&& w.wrapper_function_name == bridge
    &&& w.original_cpp_name == match name.cpp_name { Some(c) => called_as(c), None => named_like_bridge(bridge) }
    &&& w.return_conversion == ret
    &&& w.argument_conversion@.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> #[trigger] w.argument_conversion@[i] == d[i].conversion
    &&& !w.pass_obs_field && w.qualification is None
    &&& p.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> wrapper_param(#[trigger] p[i], d[i])
}
/// The result type of the bridge function.
pub open spec fn result_ok(seen: ReturnType, now: ReturnType, wrapped: bool, c: Option<TypeConversionPolicy>) -> bool {
    if wrapped && c is Some && returns_value(c->Some_0) { now.tok() == q1("- > #0"@, ret_ty(c->Some_0)@) } else { now == seen }
}
pub open spec fn kind_wraps(k: FnKind) -> bool {
    ||| k matches FnKind::Method { method_kind, .. } && !(method_kind is Normal)
    ||| k matches FnKind::TraitMethod { kind, .. } && (kind is CopyConstructor || kind is MoveConstructor || kind is Destructor)
}
/// What C++ is told to call, where there is no wrapper.
pub open spec fn call_name_ok(name: ApiName, r: FnAnalysis) -> bool { match r.cpp_call_name { Some(c) => (if let Some(n) = name.cpp_name { c == n } else { c == original_like_rust(r.rust_name@) }), None => name.cpp_name is None && r.cxxbridge_name.text() == r.rust_name@ } }
pub open spec fn bridge_name(a: FnAnalyzer, wrapped: bool, base: Seq<char>) -> Ident { ident_of(if wrapped { unique_name(a.config, fmt2("{}{}"@, base, bridge_suffix(base))) } else { base }) }
/// A bridge function under another name than the Rust one is renamed, one way or the other.
pub open spec fn strategy_ok(r: FnAnalysis) -> bool {
    &&& r.rust_wrapper_needed <==> r.rust_rename_strategy is RenameUsingWrapperFunction
    &&& r.rust_rename_strategy matches RustRenameStrategy::RenameInOutputMod(i) ==> i == ident_of(r.rust_name@) && r.kind is Function
    &&& r.rust_rename_strategy is None ==> r.cxxbridge_name.text() == r.rust_name@
}
/// Which Rust function, and which bridge function, it becomes.
pub open spec fn named_ok(a: FnAnalyzer, b: FnAnalyzer, fun: FuncToConvert, name: ApiName, predetermined: Option<String>, r: FnAnalysis) -> bool {
    &&& rust_named(a, b, fun, name, predetermined, r.kind, r.rust_name)
    &&& exists|base: String| !given(a.bridge_name_tracker).contains(base) && #[trigger] given(b.bridge_name_tracker).contains(base)
            && r.cxxbridge_name == bridge_name(a, r.cpp_wrapper is Some, base@)
    &&& strategy_ok(r)
    &&& r.cpp_wrapper is None ==> call_name_ok(name, r)
}
pub open spec fn rust_wrapper_due(a: FnAnalyzer, r: FnAnalysis) -> bool {
    ||| exists|i: int| 0 <= i < r.param_details@.len() && rust_work(#[trigger] r.param_details@[i].conversion)
    ||| r.ret_conversion matches Some(c) && rust_work(c)
    ||| r.kind is TraitMethod
}
pub open spec fn args_done(fun: FuncToConvert, s: Seq<Result<(FnArg, ArgumentAnalysis), ConvertErrorFromCpp>>) -> bool {
    s.len() <= fun.inputs@.len() && forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        Ok(x) => arg_ok(fun.inputs@[i], fun.synthesized_this_type, plain(), x.0, x.1),
        Err(e) => e matches ConvertErrorFromCpp::Argument { arg, err } && type_trouble(*err),
    }
}
pub proof fn lemma_so_far_type(a: FnAnalyzer, fun: FuncToConvert, k: FnKind, ctx: ErrorContext, e: ConvertErrorWithContext)
    requires type_trouble(e.0), e.1 == Some(ctx),
    ensures so_far(a, fun, k, ctx, Err(e)),
{}
pub proof fn lemma_reason(a: FnAnalyzer, fun: FuncToConvert, k: FnKind, d: Seq<ArgumentAnalysis>, bridge: Ident, ctx: ErrorContext, was: Result<(), ConvertErrorWithContext>, e: ConvertErrorWithContext)
    requires so_far_args(a, fun, k, d, ctx, was), was == Err::<(), ConvertErrorWithContext>(e) || (!cxx_ok(bridge.text()) && e.0 is InvalidIdent && e.1 == Some(ctx)),
    ensures e.1 == Some(ctx), true_of(a, fun, k, d, bridge, e.0),
{}
// --- the whole -----------------------------------------------------------------------------
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice closure set_ignore_reason
%sig
pub fn set_ignore_reason(ignore_reason: &mut Result<(), ConvertErrorWithContext>, error_context: &ErrorContext, err: ConvertErrorFromCpp)
%prerewrite? `ignore_reason = Err` => `* ignore_reason = Err`
%ensures
    *final(ignore_reason) == Err::<(), ConvertErrorWithContext>(ConvertErrorWithContext(err, Some(*error_context))),
@@end
/// The class which owns it, where the analysis of its parameters found it.
pub open spec fn found_owner(fun: FuncToConvert, d: Seq<ArgumentAnalysis>, self_ty: Option<QualifiedName>, is_static: bool, m: Option<ReceiverMutability>) -> bool {
    match first_receiver(d) { Some(x) => self_ty == Some(x.0) && !is_static && m == Some(x.1), None => self_ty == fun.self_ty && is_static == (fun.self_ty is Some) && m is None }
}
/// Which of the two a predetermined name is for.
pub open spec fn rust_named(a: FnAnalyzer, b: FnAnalyzer, fun: FuncToConvert, name: ApiName, predetermined: Option<String>, k: FnKind, rust_name: String) -> bool {
    &&& (fun.add_to_trait is None && k !is Function && predetermined is Some) ==> Some(rust_name) == predetermined
    &&& !(fun.add_to_trait is None && k !is Function && predetermined is Some) ==> {
            let ns = match fun.add_to_trait { Some(TraitSynthesis::AllocUninitialized(q)) => q.ns(), Some(TraitSynthesis::FreeUninitialized(q)) => q.ns(), _ => name.name.ns() };
            let class = if fun.add_to_trait is Some { None } else { match impl_for(k) { Some(t) => Some(t.final_item()), None => None } };
            fresh_name(a, b, ns, class, rust_name)
        }
}
pub proof fn lemma_named_grows(a: FnAnalyzer, b: FnAnalyzer, c: FnAnalyzer, fun: FuncToConvert, name: ApiName, predetermined: Option<String>, k: FnKind, rust_name: String)
    requires rust_named(a, b, fun, name, predetermined, k, rust_name), grows(b, c),
    ensures rust_named(a, c, fun, name, predetermined, k, rust_name),
{}
pub open spec fn copy_kind_ok(fun: FuncToConvert, d: Seq<ArgumentAnalysis>, k: FnKind) -> bool {
    (fun.special_member == Some(SpecialMemberKind::CopyConstructor) && fun.add_to_trait is None && owner(fun, d) is Some) ==> (k is TraitMethod <==> d.len() > 1 && bridge_ty(d[1].conversion) is Reference)
}
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice let (kind, error_context, rust_name)
%attr #[verifier::spinoff_prover]
%panics
%fmt
%orelse `get_overload_name`
%prerewrite? `rust_name . strip_prefix (nested_type_ident)` => `vx_strip_prefix(vx_str(&rust_name), nested_type_ident)`
%sig
pub fn vx_kind(&mut self, Ghost(a): Ghost<FnAnalyzer>, Ghost(name): Ghost<ApiName>, fun: &FuncToConvert, ns: &Namespace, cpp_original_name: Option<&CppOriginalName>, ideal_rust_name: String, self_ty: Option<QualifiedName>, is_static_method: bool,
    receiver_mutability: Option<ReceiverMutability>, trait_details: Option<(FnKind, ErrorContext, String)>, predetermined_rust_name: Option<String>, param_details: &Vec<ArgumentAnalysis>) -> (r: (FnKind, ErrorContext, String))
%requires
    grows(a, *old(self)), old(self).bridge_name_tracker == a.bridge_name_tracker,
    *ns == name.name.ns(), match cpp_original_name { Some(c) => name.cpp_name == Some(*c), None => name.cpp_name is None },
    found_owner(*fun, param_details@, self_ty, is_static_method, receiver_mutability),
    ideal_rust_name@ == ideal(*fun, name),
    match fun.add_to_trait {
        None => trait_details is None && *old(self) == a,
        Some(t) => trait_details is Some && synth_kind(t, self_ty, trait_details->Some_0.0) && rust_named(a, *old(self), *fun, name, predetermined_rust_name, trait_details->Some_0.0, trait_details->Some_0.2),
    },
%ensures
    grows(a, *final(self)), final(self).bridge_name_tracker == a.bridge_name_tracker,
    kind_ok(a, *fun, name, param_details@, r.0),
    copy_kind_ok(*fun, param_details@, r.0),
    fun.add_to_trait is None ==> r.1 == match impl_for(r.0) { Some(t) => marker(a, t, r.2@), None => item_ctx(ident_of(r.2@)) },
    rust_named(a, *final(self), *fun, name, predetermined_rust_name, r.0, r.2),
%closure `as_str`
 -> (vr: &str) ensures vr@ == s@
%closure `self_ty . get_final_item`
 -> (vr: &str) ensures vr@ == self_ty.final_item()
%closure `cxxbridge_type`
 -> (vr: &Type) ensures *vr == bridge_ty(param.conversion)
%closure `suffix . is_empty`
 -> (vr: bool) ensures vr == (suffix@.len() == 0 || cpp_original_name is None)
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice `let externally_callable =` .. `if let Some (problem) =` => `(externally_callable, is_assignment_operator)`
%attr #[verifier::spinoff_prover]
%panics
%hoisted? set_ignore_reason *ignore_reason &*error_context
%prerewrite? `match kind` => `match * kind`
%sig
pub fn vx_reject(&mut self, Ghost(a): Ghost<FnAnalyzer>, fun: &FuncToConvert, kind: &FnKind, error_context: &ErrorContext, bads: Vec<Result<(FnArg, ArgumentAnalysis), ConvertErrorFromCpp>>, ignore_reason: &mut Result<(), ConvertErrorWithContext>) -> (r: (bool, bool))
%requires
    same(a, *old(self)),
    forall|i: int| 0 <= i < bads@.len() ==> match #[trigger] bads@[i] { Ok(_) => false, Err(e) => e matches ConvertErrorFromCpp::Argument { arg, err } && type_trouble(*err) },
    so_far(a, *fun, *kind, *error_context, *old(ignore_reason)),
%ensures
    *final(self) == *old(self),
    r.0 == (fun.cpp_vis is Public), r.1 == (fun.special_member == Some(SpecialMemberKind::AssignmentOperator)),
    so_far(a, *fun, *kind, *error_context, *final(ignore_reason)),
    *old(ignore_reason) is Err || must_reject(a, *fun, *kind) || bads@.len() > 0 || r.1 ==> *final(ignore_reason) is Err,
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice `let mut set_ignore_reason =` .. `match kind`
%attr #[verifier::spinoff_prover]
%panics
%hoisted set_ignore_reason *ignore_reason &*error_context
%prerewrite? `match kind` => `match * kind`
%prerewrite? `& diagnostic_name` => `diagnostic_name`
%prerewrite? `& mut params` => `params`
%prerewrite? `& mut param_details` => `param_details`
%sig
pub fn vx_receiver(&mut self, Ghost(a): Ghost<FnAnalyzer>, fun: &FuncToConvert, ns: &Namespace, diagnostic_name: &QualifiedName, kind: &FnKind, error_context: &ErrorContext, sophistication: TypeConversionSophistication, params: &mut Vec<FnArg>, param_details: &mut Vec<ArgumentAnalysis>,
    ignore_reason: &mut Result<(), ConvertErrorWithContext>)
%requires
    same(a, *old(self)),
    old(params)@.len() == old(param_details)@.len(), *old(ignore_reason) is Ok,
%ensures
    *final(self) == *old(self),
    so_far(a, *fun, *kind, *error_context, *final(ignore_reason)),
    final(params)@.len() == old(params)@.len(), final(param_details)@.len() == old(param_details)@.len(),
    *final(ignore_reason) is Ok ==> forall|i: int| 0 <= i < final(params)@.len() ==> (#[trigger] final(params)@[i] == old(params)@[i] && final(param_details)@[i] == old(param_details)@[i] && plan(*kind, i) == plain())
        || (i < fun.inputs@.len() && arg_ok(fun.inputs@[i], fun.synthesized_this_type, plan(*kind, i), final(params)@[i], final(param_details)@[i])),
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice `if return_analysis . was_reference` .. `if return_analysis . was_mutable_reference`
%attr #[verifier::spinoff_prover]
%panics
%hoisted? set_ignore_reason *ignore_reason &*error_context
%prerewrite? `param_details . iter ()` => `vx_args(param_details)`
%prerewrite? `return_analysis . was_reference` => `was_reference`
%prerewrite? `return_analysis . was_mutable_reference` => `was_mutable_reference`
%sig
pub fn vx_lifetimes(&self, Ghost(a): Ghost<FnAnalyzer>, fun: &FuncToConvert, Ghost(kind): Ghost<FnKind>, error_context: &ErrorContext, is_assignment_operator: bool, rust_name: &String, was_reference: bool, was_mutable_reference: bool, param_details: &Vec<ArgumentAnalysis>, ignore_reason: &mut Result<(), ConvertErrorWithContext>)
%requires
    is_assignment_operator == (fun.special_member == Some(SpecialMemberKind::AssignmentOperator)), is_assignment_operator ==> *old(ignore_reason) is Err,
    was_reference ==> returns_ref(fun.output), was_mutable_reference ==> returns_mut_ref(fun.output),
    so_far(a, *fun, kind, *error_context, *old(ignore_reason)),
%ensures
    *old(ignore_reason) is Err ==> *final(ignore_reason) is Err,
    *final(ignore_reason) is Ok ==> (was_reference ==> lifetimes(param_details@, false).len() == 1) && (was_mutable_reference ==> lifetimes(param_details@, true).len() == 1),
    so_far_args(a, *fun, kind, param_details@, *error_context, *final(ignore_reason)),
%begin
    broadcast use {lemma_count};
    let ghost l0 = lifetimes(param_details@, false); let ghost l1 = lifetimes(param_details@, true);
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice let params_deps
%prerewrite? `param_details . iter ()` => `vx_args(param_details)`
%sig
pub fn vx_params_deps(&self, param_details: &Vec<ArgumentAnalysis>) -> (r: HashSet<QualifiedName>)
%ensures
    forall|q: QualifiedName| #[trigger] r@.contains(q) <==> some_deps(param_details@, q),
%begin
    broadcast use {vx_has_lemmas, lemma_has_index};
    let ghost d0 = param_details@;
%closure `p . deps`
 -> (vr: It<QualifiedName>) ensures vr.pos() == 0 && forall|x: QualifiedName| #![trigger vx_has(vr.all(), x)] #![trigger p.deps@.contains(x)] vx_has(vr.all(), x) <==> p.deps@.contains(x)
%end HashSet<QualifiedName>
    assert forall|q: QualifiedName| some_deps(d0, q) implies #[trigger] __ret@.contains(q) by { let i = choose|i: int| 0 <= i < d0.len() && (#[trigger] d0[i]).deps@.contains(q); let _ = d0[i]; }
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice let self_ty
%prerewrite? `param_details . iter ()` => `vx_args(param_details)`
%prerewrite? `. next () . cloned ()` => `. next () . vx_cloned ()`
%sig
pub fn vx_self_ty(&self, param_details: &Vec<ArgumentAnalysis>) -> (r: Option<(QualifiedName, ReceiverMutability)>)
%ensures
    match first_receiver(param_details@) { Some(x) => r == Some(x), None => r is None },
%begin
    broadcast use {lemma_first_b};
    let ghost d0 = param_details@;
%closure `pd . self_type . as_ref`
 -> (vr: Option<&(QualifiedName, ReceiverMutability)>) ensures match vr { Some(x) => pd.self_type == Some(*x), None => pd.self_type is None }
%end Option<(QualifiedName, ReceiverMutability)>
    let ghost f0 = first_receiver(d0);
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice let wrapper_function_needed
%prerewrite? `cxxbridge_name != rust_name` => `vx_ne(cxxbridge_name, rust_name)`
%sig
pub fn vx_wrapper_needed(&self, fun: &FuncToConvert, kind: &FnKind, cxxbridge_name: &Ident, rust_name: &String, param_conversion_needed: bool, ret_type_conversion_needed: bool, cpp_name_incompatible_with_cxx: bool) -> (r: bool)
%ensures
    !r ==> !(param_conversion_needed || ret_type_conversion_needed || cpp_name_incompatible_with_cxx || kind_wraps(*kind) || (*kind is Method && cxxbridge_name.text() != rust_name@) || fun.synthetic_cpp is Some || self.force_wrapper_generation),
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice let cpp_wrapper
%attr #[verifier::spinoff_prover]
%panics
%fmt
%prerewrite? `cxxbridge_name . to_string () . ends_with ('_')` => `vx_ends_underscore(&cxxbridge_name.to_string())`
%prerewrite? `cxxbridge_name = make_ident` => `* cxxbridge_name = make_ident`
%prerewrite? `ret_type = parse_quote ! (-> # new_ret_type)` => `* ret_type = parse_quote ! (-> # new_ret_type)`
%prerewrite? `CppEffectiveName :: from_cxxbridge_name (& cxxbridge_name)` => `CppEffectiveName :: from_cxxbridge_name (cxxbridge_name)`
%prerewrite? `. as_ref () . cloned ()` => `. as_ref () . vx_cloned ()`
%prerewrite? `in & param_details` => `in param_details`
%prerewrite? `Some (ref conversion) = ret_type_conversion` => `Some (ref conversion) = * ret_type_conversion`
%sig
pub fn vx_wrapper(&self, Ghost(name): Ghost<ApiName>, Ghost(rust_name): Ghost<String>, wrapper_function_needed: bool, fun: &FuncToConvert, ns: &Namespace, kind: &FnKind, cpp_original_name: Option<&CppOriginalName>, underlying_cpp_function_name: CppEffectiveName,
    cxxbridge_name: &mut Ident, ret_type: &mut ReturnType, ret_type_conversion: &Option<TypeConversionPolicy>, params: &mut Vec<FnArg>, param_details: &Vec<ArgumentAnalysis>) -> (r: Option<CppFunction>)
%requires
    *ns == name.name.ns(), match cpp_original_name { Some(c) => name.cpp_name == Some(*c), None => name.cpp_name is None },
    underlying_cpp_function_name == (match name.cpp_name { Some(c) => called_as(c), None => named_like_rust(rust_name@) }),
%ensures
    r is Some ==> *final(cxxbridge_name) == ident_of(unique_name(self.config, fmt2("{}{}"@, old(cxxbridge_name).text(), bridge_suffix(old(cxxbridge_name).text())))),
    r is None ==> !wrapper_function_needed && *final(cxxbridge_name) == *old(cxxbridge_name) && *final(params) == *old(params),
    r matches Some(w) ==> wrapper_ok(*fun, name, *kind, rust_name@, *final(cxxbridge_name), *ret_type_conversion, final(params)@, param_details@, w),
    result_ok(*old(ret_type), *final(ret_type), r is Some, *ret_type_conversion),
%loop 0
 invariant params@.len() == __it0.pos(), __it0.all().len() == param_details@.len(), same_args(__it0.all(), param_details@),
    forall|i: int| 0 <= i < params@.len() ==> wrapper_param(#[trigger] params@[i], param_details@[i]),
%closure `to_effective_name`
 -> (vr: CppEffectiveName) ensures vr == called_as(n)
%closure `from_cxxbridge_name`
 -> (vr: CppEffectiveName) ensures vr == named_like_bridge(*cxxbridge_name)
%closure `d . conversion . clone`
 -> (vr: TypeConversionPolicy) ensures vr == d.conversion
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice `let vis =` .. `let name =` => `(analysis, name)`
%attr #[verifier::spinoff_prover]
%hoisted? set_ignore_reason ignore_reason &*error_context
%prerewrite? `param_details . iter ()` => `vx_args(&param_details)`
%prerewrite? `cxxbridge_name != rust_name` => `vx_ne(&cxxbridge_name, &rust_name)`
%prerewrite? `map_err (ConvertErrorFromCpp :: InvalidIdent)` => `map_err(|vx_e| ConvertErrorFromCpp::InvalidIdent(vx_e))`
%sig
pub fn vx_finish(&self, fun: &FuncToConvert, ns: &Namespace, cpp_original_name: Option<&CppOriginalName>, error_context: &ErrorContext, return_needs_rust_conversion: bool, cxxbridge_name: Ident, rust_name: String, api_name_cpp_override: Option<CppOriginalName>, params: Vec<FnArg>,
    ret_type_conversion: Option<TypeConversionPolicy>, kind: FnKind, ret_type: ReturnType, param_details: Vec<ArgumentAnalysis>, requires_unsafe: UnsafetyNeeded, cpp_wrapper: Option<CppFunction>, deps: HashSet<QualifiedName>, mut ignore_reason: Result<(), ConvertErrorWithContext>, externally_callable: bool) -> (r: (FnAnalysis, ApiName))
%ensures
    r.0 == (FnAnalysis { cxxbridge_name, rust_name, cpp_call_name: api_name_cpp_override, params, ret_conversion: ret_type_conversion, kind, ret_type, param_details, requires_unsafe, vis: fun.vis, cpp_wrapper, deps, externally_callable, ..r.0 }),
    r.0.ignore_reason is Ok ==> ignore_reason is Ok && cxx_ok(cxxbridge_name.text()),
    r.0.ignore_reason matches Err(e) ==> ignore_reason == Err::<(), ConvertErrorWithContext>(e) || (!cxx_ok(cxxbridge_name.text()) && e.0 is InvalidIdent && e.1 == Some(*error_context)),
    strategy_ok(r.0),
    (exists|i: int| 0 <= i < param_details@.len() && rust_work(#[trigger] param_details@[i].conversion)) || return_needs_rust_conversion || kind is TraitMethod ==> r.0.rust_wrapper_needed,
    match cpp_original_name { Some(c) => r.1 == (ApiName { name: qn_of(*ns, cxxbridge_name), cpp_name: Some(*c) }), None => r.1 == (ApiName { name: qn_of(*ns, cxxbridge_name), cpp_name: None }) },
%begin
    broadcast use {axiom_ident};
%closure `pd . conversion . rust_work_needed`
 -> (vr: bool) ensures vr == rust_work(pd.conversion)
%closure `InvalidIdent`
 -> (vr: ConvertErrorFromCpp) ensures vr == ConvertErrorFromCpp::InvalidIdent(vx_e)
@@end
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%slice `let api_name_cpp_override` .. `let name =` => `(analysis, name)`
%attr #[verifier::spinoff_prover]
%panics
%outlined `if return_analysis . was_reference` .. `if return_analysis . was_mutable_reference` => `self.vx_lifetimes(Ghost(a), fun, Ghost(kind), error_context, is_assignment_operator, &rust_name, return_analysis.was_reference, return_analysis.was_mutable_reference, &param_details, &mut ignore_reason);`
%outlined `let vis =` .. `let name =` => `let (analysis, name) = self.vx_finish(fun, ns, cpp_original_name, error_context, return_needs_rust_conversion, cxxbridge_name, rust_name, api_name_cpp_override, params, ret_type_conversion, kind, ret_type, param_details, requires_unsafe, cpp_wrapper, deps, ignore_reason, externally_callable);`
%outline `wrapper_function_needed` => `self.vx_wrapper_needed(fun, &kind, &cxxbridge_name, &rust_name, param_conversion_needed, ret_type_conversion_needed, cpp_name_incompatible_with_cxx)`
%outline `cpp_wrapper` => `self.vx_wrapper(Ghost(name), Ghost(rust_name), wrapper_function_needed, fun, ns, &kind, cpp_original_name, underlying_cpp_function_name, &mut cxxbridge_name, &mut ret_type, &ret_type_conversion, &mut params, &param_details)`
%hoisted? set_ignore_reason ignore_reason &*error_context
%prerewrite? `cxxbridge_name != rust_name` => `vx_ne(&cxxbridge_name, &rust_name)`
%prerewrite? `& diagnostic_name` => `diagnostic_name`
%prerewrite? `param_details . iter ()` => `vx_args(&param_details)`
%sig
pub fn vx_bridge(&mut self, Ghost(a): Ghost<FnAnalyzer>, Ghost(name): Ghost<ApiName>, fun: &FuncToConvert, ns: &Namespace, cpp_original_name: Option<&CppOriginalName>, diagnostic_name: &QualifiedName, sophistication: TypeConversionSophistication, kind: FnKind, error_context: &ErrorContext, rust_name: String, cxxbridge_name: String,
    mut params: Vec<FnArg>, mut param_details: Vec<ArgumentAnalysis>, params_deps: HashSet<QualifiedName>, mut ignore_reason: Result<(), ConvertErrorWithContext>, externally_callable: bool, is_assignment_operator: bool) -> (r: (FnAnalysis, ApiName))
%requires
    same(a, *old(self)), *ns == name.name.ns(), match cpp_original_name { Some(c) => name.cpp_name == Some(*c), None => name.cpp_name is None },
    is_assignment_operator == (fun.special_member == Some(SpecialMemberKind::AssignmentOperator)), is_assignment_operator ==> ignore_reason is Err,
    so_far(a, *fun, kind, *error_context, ignore_reason),
    params@.len() == param_details@.len(),
    ignore_reason is Ok ==> param_details@.len() == fun.inputs@.len() && deps_seen(*fun, params_deps@)
        && (forall|i: int| 0 <= i < fun.inputs@.len() ==> arg_ok(fun.inputs@[i], fun.synthesized_this_type, plan(kind, i), #[trigger] params@[i], param_details@[i])),
%ensures
    *final(self) == *old(self),
    r.0.kind == kind, r.0.rust_name == rust_name, r.0.externally_callable == externally_callable, r.0.vis == fun.vis,
    r.0.ignore_reason is Ok ==> ignore_reason is Ok && first_receiver(r.0.param_details@) == first_receiver(param_details@) && bridged(*fun, r.0),
    r.0.ignore_reason matches Err(e) ==> e.1 == Some(*error_context) && true_of(a, *fun, kind, r.0.param_details@, r.0.cxxbridge_name, e.0),
    r.0.cpp_wrapper is None ==> !must_wrap(a, *fun, name, r.0),
    r.0.cpp_wrapper matches Some(w) ==> wrapper_ok(*fun, name, kind, rust_name@, r.0.cxxbridge_name, r.0.ret_conversion, r.0.params@, r.0.param_details@, w),
    r.0.requires_unsafe == unsafety(a.unsafe_policy, r.0.param_details@, kind),
    rust_wrapper_due(a, r.0) ==> r.0.rust_wrapper_needed,
    strategy_ok(r.0),
    r.0.cxxbridge_name == bridge_name(a, r.0.cpp_wrapper is Some, cxxbridge_name@),
    r.0.cpp_wrapper is None ==> call_name_ok(name, r.0),
    r.1 == (ApiName { name: qn_of(name.name.ns(), r.0.cxxbridge_name), cpp_name: name.cpp_name }),
%begin
    hide(wrapper_ok); hide(true_of); hide(so_far); hide(so_far_args); hide(rust_wrapper_due); hide(must_wrap); hide(first_receiver);
    broadcast use {vx_has_lemmas, lemma_has_index, axiom_ident};
    let ghost ins = fun.inputs@; let ghost this = fun.synthesized_this_type;
    let ghost d1 = param_details@; let ghost p1 = params@; let ghost base = cxxbridge_name; let ghost ir1 = ignore_reason;
%before? `let mut deps`
    let ghost pd = params_deps@; let ghost rd = return_analysis.deps@;
%before? `let requires_unsafe`
    assert(ignore_reason is Ok ==> deps_seen(*fun, pd) && rd == ret_deps(fun.output));
    let ghost d2 = param_details@; let ghost p2 = params@;
    proof { if d2.len() > d1.len() { lemma_first_push(d1, d2.last()); } }
    assert(ignore_reason is Ok ==> first_receiver(d2) == first_receiver(d1) && args_seen(*fun, kind, d2)) by { if ignore_reason is Ok { assert forall|i: int| 0 <= i < ins.len() implies arg_seen(ins[i], this, plan(kind, i), #[trigger] d2[i]) by { assert(d2[i] == d1[i]); let _ = p1[i]; } } }
    assert(ignore_reason is Ok ==> p2.len() == d2.len() && forall|i: int| 0 <= i < d2.len() ==> bridge_param(#[trigger] p2[i], d2[i])) by { if ignore_reason is Ok { assert forall|i: int| 0 <= i < d2.len() implies bridge_param(#[trigger] p2[i], d2[i]) by { if i < d1.len() { assert(p2[i] == p1[i]); } } } }
    assert(ignore_reason is Ok ==> forall|q: QualifiedName| #[trigger] deps@.contains(q) <==> (ret_deps(fun.output).contains(q) || in_args(*fun, q)));
    assert(so_far(a, *fun, kind, *error_context, ignore_reason)) by { if ignore_reason is Err && ignore_reason != ir1 { lemma_so_far_type(a, *fun, kind, *error_context, ignore_reason->Err_0); } }
%before? `let mut ret_type`
    let ghost rt = return_analysis.rt;
%before? `let (analysis , name) = self . vx_finish`
    let ghost ir2 = ignore_reason; let ghost br = cxxbridge_name; let ghost nm = name;
%after? `let (analysis , name) = self . vx_finish`
    proof { if analysis.ignore_reason is Err { lemma_reason(a, *fun, kind, d2, br, *error_context, ir2, analysis.ignore_reason->Err_0); } }
    assert(analysis.cpp_wrapper is None ==> !must_wrap(a, *fun, nm, analysis)) by { reveal(must_wrap); }
    assert(rust_wrapper_due(a, analysis) ==> analysis.rust_wrapper_needed) by { reveal(rust_wrapper_due); }
%closure `to_effective_name`
 -> (vr: CppEffectiveName) ensures vr == called_as(n)
%closure `CppEffectiveName :: from_rust_name`
 -> (vr: CppEffectiveName) ensures vr == named_like_rust(rust_name@)
%closure `b . conversion . cpp_work_needed`
 -> (vr: bool) ensures vr == cpp_work(b.conversion)
%closure `x . cpp_work_needed`
 -> (vr: bool) ensures vr == cpp_work(*x)
%closure `ra . rust_work_needed`
 -> (vr: bool) ensures vr == rust_work(*ra)
%closure `validate_ident_ok_for_rust`
 -> (vr: bool) ensures vr == !rust_ok(*n)
@@end
}
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn
%attr #[verifier::loop_isolation(false)]
%attr #[verifier::spinoff_prover]
%panics
%fmt
%maploop `convert_fn_arg` => `vx_partition`
%outline `(kind, error_context, rust_name)` => `self.vx_kind(Ghost(*old(self)), Ghost(name), fun, ns, cpp_original_name, ideal_rust_name, self_ty, is_static_method, receiver_mutability, trait_details, predetermined_rust_name, &param_details)`
%outlined `let mut set_ignore_reason =` .. `match kind` => `self.vx_receiver(Ghost(*old(self)), fun, ns, &diagnostic_name, &kind, &error_context, sophistication, &mut params, &mut param_details, &mut ignore_reason);`
%outlined `let externally_callable =` .. `if let Some (problem) =` => `let (externally_callable, is_assignment_operator) = self.vx_reject(Ghost(*old(self)), fun, &kind, &error_context, bads, &mut ignore_reason);`
%outlined `let api_name_cpp_override` .. `let name =` => `let (analysis, name) = self.vx_bridge(Ghost(*old(self)), Ghost(name), fun, ns, cpp_original_name, &diagnostic_name, sophistication, kind, &error_context, rust_name, cxxbridge_name, params, param_details, params_deps, ignore_reason, externally_callable, is_assignment_operator);`
%outline `params_deps` => `self.vx_params_deps(&param_details)`
%outline `self_ty` => `self.vx_self_ty(&param_details)`
%hoisted? set_ignore_reason ignore_reason &error_context
%prerewrite? `param_details . iter ()` => `vx_args(&param_details)`
%prerewrite? `Result :: is_ok` => `VxIsOk`
%prerewrite? `param_details . into_iter () . map (Result :: unwrap) . unzip ()` => `vx_unzip_oks(param_details)`
%prerewrite? `Punctuated < _ , Comma >` => `Vec<_>`
%prerewrite? `rust_name . strip_prefix (nested_type_ident)` => `vx_strip_prefix(vx_str(&rust_name), nested_type_ident)`
%prerewrite? `cxxbridge_name . to_string () . ends_with ('_')` => `vx_ends_underscore(&cxxbridge_name.to_string())`
%prerewrite? `map_err (ConvertErrorFromCpp :: InvalidIdent)` => `map_err(|vx_e| ConvertErrorFromCpp::InvalidIdent(vx_e))`
%prerewrite? `cxxbridge_name != rust_name` => `vx_ne(&cxxbridge_name, &rust_name)`
%sig
pub fn analyze_foreign_fn(&mut self, name: ApiName, fun: &FuncToConvert, sophistication: TypeConversionSophistication, predetermined_rust_name: Option<String>) -> (r: (FnAnalysis, ApiName))
%requires
    inv(old(self).bridge_name_tracker),
%ensures
    grows(*old(self), *final(self)),
    r.0.externally_callable == (fun.cpp_vis is Public),
    must_reject(*old(self), *fun, r.0.kind) ==> r.0.ignore_reason is Err,
    r.0.ignore_reason matches Err(e) ==> e.1 is Some && truthful(*old(self), *fun, r.0, e.0) && marked(*old(self), *fun, r.0, e.1->Some_0),
    r.0.ignore_reason is Ok ==> analysed(*old(self), *fun, name, r.0),
    r.0.cpp_wrapper is None ==> !must_wrap(*old(self), *fun, name, r.0),
    r.0.cpp_wrapper matches Some(w) ==> wrapper_ok(*fun, name, r.0.kind, r.0.rust_name@, r.0.cxxbridge_name, r.0.ret_conversion, r.0.params@, r.0.param_details@, w),
    r.0.requires_unsafe == unsafety(old(self).unsafe_policy, r.0.param_details@, r.0.kind),
    rust_wrapper_due(*old(self), r.0) ==> r.0.rust_wrapper_needed,
    named_ok(*old(self), *final(self), *fun, name, predetermined_rust_name, r.0),
    r.0.vis == fun.vis,
    r.1 == (ApiName { name: qn_of(name.name.ns(), r.0.cxxbridge_name), cpp_name: name.cpp_name }),
%begin
    hide(kind_ok); hide(wrapper_ok); hide(rust_named); hide(copy_kind_ok); hide(must_reject); hide(first_receiver); hide(true_of); hide(so_far); hide(rust_wrapper_due); hide(must_wrap); hide(copy_seen);
    let ghost mut outs: Seq<Result<(FnArg, ArgumentAnalysis), ConvertErrorFromCpp>> = Seq::empty();
    broadcast use {vx_has_lemmas, lemma_has_index, axiom_ident};
%loopafter 0
    proof { outs = vx_out@; }
%before? `let params_deps`
    proof { lemma_all_args(*fun, outs); }
    let ghost ins = fun.inputs@; let ghost this = fun.synthesized_this_type; let ghost good = bads@.len() == 0;
    let ghost d0 = param_details@; let ghost p0 = params@;
    assert(good ==> d0.len() == ins.len() && p0.len() == ins.len() && forall|i: int| 0 <= i < ins.len() ==> arg_ok(ins[i], this, plain(), #[trigger] p0[i], d0[i]));
    assert(good ==> forall|i: int| 0 <= i < ins.len() ==> arg_seen(ins[i], this, plain(), #[trigger] d0[i]));
%before? `let self_ty = self . vx_self_ty`
    assert(good ==> deps_seen(*fun, params_deps@)) by { if good { assert forall|q: QualifiedName| in_args(*fun, q) <==> some_deps(d0, q) by {
        if in_args(*fun, q) { let i = choose|i: int| 0 <= i < ins.len() && #[trigger] arg_deps(ins[i], this).contains(q); assert(d0[i].deps@.contains(q)); }
        if some_deps(d0, q) { let i = choose|i: int| 0 <= i < d0.len() && (#[trigger] d0[i]).deps@.contains(q); assert(arg_deps(ins[i], this).contains(q)); } } } }
%before? `let (is_static_method , self_ty , receiver_mutability)`
    assert(match first_receiver(param_details@) { Some(x) => self_ty == Some(x), None => self_ty is None });
%before? `let trait_details`
    assert(found_owner(*fun, param_details@, self_ty, is_static_method, receiver_mutability));
    assert(ideal_rust_name@ == ideal(*fun, name));
%before? `self . vx_reject`
    let ghost d1 = param_details@; let ghost p1 = params@;
    assert(so_far(*old(self), *fun, kind, error_context, ignore_reason));
    proof { if good && ignore_reason is Ok { assert forall|i: int| 0 <= i < ins.len() implies arg_ok(ins[i], this, plan(kind, i), #[trigger] p1[i], d1[i]) by { let _ = p0[i]; let _ = d0[i]; }
        assert forall|i: int| 0 <= i < d0.len() implies (#[trigger] d0[i]).self_type == d1[i].self_type by { let _ = p1[i]; let _ = p0[i]; }
        assert forall|i: int| 0 <= i < ins.len() implies arg_seen(ins[i], this, plan(kind, i), #[trigger] d1[i]) by { let _ = p1[i]; }
        lemma_same_first(d0, d1); lemma_kind_same(*old(self), *fun, name, d0, d1, kind); } }
    assert(good && ignore_reason is Ok ==> args_seen(*fun, kind, d1) && kind_ok(*old(self), *fun, name, d1, kind) && copy_seen(*fun, kind)) by { reveal(copy_seen); }
%before? `let (kind , error_context , rust_name)`
    assert(match fun.add_to_trait { None => trait_details is None && *self == *old(self), Some(t) => trait_details is Some && synth_kind(t, self_ty, trait_details->Some_0.0) && rust_named(*old(self), *self, *fun, name, predetermined_rust_name, trait_details->Some_0.0, trait_details->Some_0.2) }) by { reveal(rust_named); }
%before? `let cxxbridge_name`
    let ghost a1 = *self;
    assert(so_far(*old(self), *fun, kind, error_context, ignore_reason));
    assert(must_reject(*old(self), *fun, kind) || !good ==> ignore_reason is Err);
%before? `let (analysis , name) = self . vx_bridge`
    let ghost nm = name; let ghost base = cxxbridge_name;
    proof { lemma_named_grows(*old(self), a1, *self, *fun, name, predetermined_rust_name, kind, rust_name); }
%after? `let (analysis , name) = self . vx_bridge`
    assert(analysis.ignore_reason is Ok ==> kind_ok(*old(self), *fun, nm, analysis.param_details@, kind)) by { if analysis.ignore_reason is Ok { lemma_kind_same(*old(self), *fun, nm, d1, analysis.param_details@, kind); } }
%loop 0
 invariant *self == *old(self), __it0.all().len() == fun.inputs@.len(), vx_out@.len() == __it0.pos(),
    forall|i: int| 0 <= i < fun.inputs@.len() ==> *#[trigger] __it0.all()[i] == fun.inputs@[i],
    args_done(*fun, vx_out@),
%closure `diagnostic_display_name`
 -> (vr: &String)
%closure `describe_arg`
 -> (vr: ConvertErrorFromCpp) ensures vr is Argument && *vr->Argument_err == err
%closure `as_str`
 -> (vr: &str) ensures vr@ == s@
%closure `self_ty . get_final_item`
 -> (vr: &str) ensures vr@ == self_ty.final_item()
%closure `cxxbridge_type`
 -> (vr: &Type) ensures *vr == bridge_ty(param.conversion)
%closure `suffix . is_empty`
 -> (vr: bool) ensures vr == (suffix@.len() == 0 || cpp_original_name is None)
@@end
}
} // verus!
fn main() {}
