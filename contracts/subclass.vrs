@@include core.rs
@@include qname.rs
@@include text.rs
verus! {
// A cut-down `syn`: only the shapes the functions under contract look at.
#[verifier::external_body]
pub struct TypePath { x: u8 }
pub struct TypePtr { pub elem: Box<Type> }
pub enum Type { Path(TypePath), Ptr(TypePtr), Other(VxOpaque) }
pub struct PatType { pub ty: Box<Type>, pub pat: VxOpaque }
pub enum FnArg { Typed(PatType), Receiver(VxOpaque) }
#[verifier::external_body]
pub struct Pat { x: u8 }
#[verifier::external_body]
pub struct ReturnType { x: u8 }
#[verifier::external_body]
pub struct Visibility { x: u8 }
#[verifier::external_body]
pub struct Namespace { x: u8 }
#[verifier::external_body]
pub struct Attribute { x: u8 }
pub enum Tok { Ty(Type), Id(Ident), Arg(FnArg), List(Seq<Tok>), Other(VxOpaque) }
impl VxTok for Type { open spec fn tok(&self) -> Tok { Tok::Ty(*self) } }
impl VxTok for FnArg { open spec fn tok(&self) -> Tok { Tok::Arg(*self) } }
impl VxTok for Ident { open spec fn tok(&self) -> Tok { Tok::Id(*self) } }
impl Clone for FnArg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Pat { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ReturnType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Visibility { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Attribute { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl FnArg { pub fn into(self) -> (r: FnArg) ensures r == self { self } }
pub fn vx_same<T>(t: T) -> (r: T) ensures r == t { t }
impl Ident {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl VxStr for Ident { open spec fn vx_chars(&self) -> Seq<char> { self.text() } }
pub uninterp spec fn ident_of(s: Seq<char>) -> Ident;
/// An identifier is its text.
pub broadcast axiom fn axiom_ident(s: Seq<char>) ensures (#[trigger] ident_of(s)).text() == s;
#[verifier::external_body]
pub fn make_ident<S: VxStr>(s: S) -> (r: Ident) ensures r == ident_of(s.vx_chars()) { unimplemented!() }
// --- names ---------------------------------------------------------------------
#[verifier::external_body]
pub struct CppOriginalName { x: u8 }
#[verifier::external_body]
pub struct CppEffectiveName { x: u8 }
impl Clone for CppOriginalName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn original_cpp_name(n: ApiName) -> CppEffectiveName;
pub uninterp spec fn bridge_function(s: Seq<char>) -> CppEffectiveName;
pub uninterp spec fn class_itself(s: Seq<char>) -> CppEffectiveName;
pub uninterp spec fn ctor_of(q: QualifiedName) -> CppOriginalName;
impl CppEffectiveName {
    #[verifier::external_body]
    pub fn from_subclass_function_name(s: String) -> (r: CppEffectiveName) ensures r == bridge_function(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_fully_qualified_name_for_subclass(s: &String) -> (r: CppEffectiveName) ensures r == class_itself(s@) { unimplemented!() }
}
impl CppOriginalName {
    #[verifier::external_body]
    pub fn from_final_item_of_pre_existing_qualified_name(q: &QualifiedName) -> (r: CppOriginalName) ensures r == ctor_of(*q) { unimplemented!() }
}
pub uninterp spec fn root_ns() -> Namespace;
impl Namespace {
    #[verifier::external_body]
    pub fn new() -> (r: Namespace) ensures r == root_ns() { unimplemented!() }
}
pub uninterp spec fn qn_of(ns: Namespace, id: Ident) -> QualifiedName;
pub uninterp spec fn path_of(q: QualifiedName) -> TypePath;
impl QualifiedName {
    pub uninterp spec fn ns(&self) -> Namespace;
    #[verifier::external_body]
    pub fn get_namespace(&self) -> (r: &Namespace) ensures *r == self.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(ns: &Namespace, id: Ident) -> (r: QualifiedName) ensures r == qn_of(*ns, id) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_type_path(&self) -> (r: TypePath) ensures r == path_of(*self) { unimplemented!() }
    pub uninterp spec fn cpp_text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_cpp_name(&self) -> (r: String) ensures r@ == self.cpp_text() { unimplemented!() }
}
@@type engine/src/conversion/api.rs ApiName
@@end
impl Clone for ApiName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ApiName {
    pub open spec fn root(id: Ident) -> ApiName { ApiName { name: qn_of(root_ns(), id), cpp_name: None } }
    #[verifier::external_body]
    pub fn cpp_name(&self) -> (r: CppEffectiveName) ensures r == original_cpp_name(*self) { unimplemented!() }
@@fn engine/src/conversion/api.rs ApiName::new
%ensures
    r == (ApiName { name: qn_of(*ns, id), cpp_name: None }),
@@end
@@fn engine/src/conversion/api.rs ApiName::new_from_qualified_name
%ensures
    r == (ApiName { name: name, cpp_name: None }),
@@end
@@fn engine/src/conversion/api.rs ApiName::new_with_cpp_name
%ensures
    r == (ApiName { name: qn_of(*ns, id), cpp_name: cpp_name }),
@@end
@@fn engine/src/conversion/api.rs ApiName::new_in_root_namespace
%ensures
    r == ApiName::root(id),
@@end
}
@@type engine/src/conversion/api.rs SubclassName
@@end
impl Clone for SubclassName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn with_suffix(s: SubclassName, t: Seq<char>) -> Ident { ident_of(fmt2("{}{}"@, s.0.name.final_item(), t)) }
/// The Rust half's holder, and the C++ half.
pub open spec fn holder_of(s: SubclassName) -> Ident { with_suffix(s, "Holder"@) }
pub open spec fn cpp_of(s: SubclassName) -> QualifiedName { qn_of(s.0.name.ns(), with_suffix(s, "Cpp"@)) }
pub open spec fn super_fn(ns: Namespace, m: Seq<char>) -> QualifiedName { qn_of(ns, ident_of(fmt1("{}_super"@, m))) }
/// One trait item for each method (by its Rust name, and so for each overload) of each superclass.
pub open spec fn trait_item(sup: QualifiedName, m: Seq<char>) -> QualifiedName { qn_of(sup.ns(), ident_of(fmt2("{}_{}_trait_item"@, sup.final_item(), m))) }
impl SubclassName {
@@fn engine/src/conversion/api.rs SubclassName::with_suffix
%fmt
%ensures
    r == with_suffix(*self, suffix@),
@@end
@@fn engine/src/conversion/api.rs SubclassName::holder
%ensures
    r == holder_of(*self),
@@end
@@fn engine/src/conversion/api.rs SubclassName::cpp
%ensures
    r == cpp_of(*self),
@@end
@@fn engine/src/conversion/api.rs SubclassName::get_trait_api_name
%fmt
%ensures
    r == trait_item(*sup, method_name@),
@@end
@@fn engine/src/conversion/api.rs SubclassName::get_super_fn_name
%fmt
%ensures
    r == super_fn(*superclass_namespace, id@),
@@end
}
// --- the data under analysis ------------------------------------------------------
pub type TypeConversionSophistication = VxSoph;
pub enum VxSoph { Regular, SimpleForSubclasses }
// as autocxx_bindgen reports them
pub enum CppVisibility { Public, Protected, Private }
pub enum Virtualness { Virtual, PureVirtual }
pub enum Explicitness { Defaulted, Deleted }
pub enum SpecialMemberKind { DefaultConstructor, CopyConstructor, MoveConstructor, Destructor, AssignmentOperator }
impl Clone for Explicitness { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Explicitness {}
impl Clone for SpecialMemberKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SpecialMemberKind {}
#[verifier::external_body]
pub struct TraitSynthesis { x: u8 }
impl Clone for TraitSynthesis { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@@type engine/src/conversion/api.rs UnsafetyNeeded
@@end
@@type parser/src/config.rs UnsafePolicy
* => VxOpaque
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ReceiverMutability
pre #[derive(Clone, Copy)]
@@end
@@type engine/src/conversion/analysis/fun/mod.rs MethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnKind
* => VxOpaque
keep Method.impl_for Method.method_kind TraitMethod.impl_for
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunctionBody
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunctionKind
@@end
/// How a value is converted on its way (unit `wrapper` proves what these do).
#[verifier::external_body]
pub struct TypeConversionPolicy { x: u8 }
impl Clone for TypeConversionPolicy { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn unconverted(t: Type) -> TypeConversionPolicy;
impl TypeConversionPolicy {
    #[verifier::external_body]
    pub fn new_unconverted(t: Type) -> (r: Self) ensures r == unconverted(t) { unimplemented!() }
}
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunction
wrapper_function_name => Ident
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ArgumentAnalysis
name => Pat
only conversion name
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalysis
only cxxbridge_name rust_name params kind ret_type param_details ret_conversion
cxxbridge_name => Ident
params => Vec<FnArg>
ret_type => ReturnType
@@end
@@type engine/src/conversion/api.rs SubclassConstructorDetails
@@end
@@type engine/src/conversion/api.rs Provenance
@@end
@@type engine/src/conversion/api.rs FuncToConvert
inputs => Vec<FnArg>
doc_attrs => Vec<Attribute>
@@end
@@type engine/src/conversion/api.rs SuperclassMethod
params => Vec<FnArg>
name => Ident
@@end
@@type engine/src/conversion/api.rs RustSubclassFnDetails
params => Vec<FnArg>
@@end
pub struct FnPrePhase1;
#[verifier::reject_recursive_types(P)]
pub enum Api<P> { Function { name: ApiName, fun: Box<FuncToConvert>, analysis: FnAnalysis }, RustSubclassFn { name: ApiName, subclass: SubclassName, details: Box<RustSubclassFnDetails> }, SubclassTraitItem { name: ApiName, details: SuperclassMethod }, IgnoredItem { name: ApiName }, Subclass { name: SubclassName, superclass: QualifiedName }, Other(ApiName, core::marker::PhantomData<P>) }
pub uninterp spec fn unsafety(d: Seq<ArgumentAnalysis>, b: bool) -> UnsafetyNeeded;
impl UnsafetyNeeded {
    #[verifier::external_body]
    pub fn from_param_details(d: &Vec<ArgumentAnalysis>, b: bool) -> (r: UnsafetyNeeded) ensures r == unsafety(d@, b) { unimplemented!() }
}
impl Clone for FuncToConvert { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// Reformatting the parameters as this program's own syntax types.
pub fn minisynize_punctuated(v: Vec<FnArg>) -> (r: Vec<FnArg>) ensures r == v { v }
impl<T> Clone for Vec<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// --- what a subclass is made of ------------------------------------------------------
pub open spec fn conversions(d: Seq<ArgumentAnalysis>, from: int) -> Seq<TypeConversionPolicy> { if from <= d.len() { Seq::new((d.len() - from) as nat, |i: int| d[i + from].conversion) } else { Seq::empty() } }
pub open spec fn vec_of<T>(v: Vec<T>) -> Vec<T> { v }
pub open spec fn tail<T>(s: Seq<T>) -> Seq<T> { if s.len() >= 1 { s.skip(1) } else { Seq::empty() } }
/// The name of the bridge function through which C++ calls the override.
pub open spec fn call_name(sub: SubclassName, name: ApiName) -> Seq<char> { fmt2("{}_{}"@, sub.0.name.final_item(), name.name.final_item()) }
pub open spec fn need(p: UnsafePolicy, a: FnAnalysis) -> UnsafetyNeeded { if p is AllFunctionsUnsafe { UnsafetyNeeded::Always } else { unsafety(a.param_details@, false) } }
pub open spec fn is_pure(a: FnAnalysis) -> bool { a.kind matches FnKind::Method { method_kind: MethodKind::PureVirtual(_), .. } }
/// The C++ override of the method `name` in the subclass `sub`: it has that method's C++ name and constness, and
/// calls - through the bridge function which has exactly this name - the Rust method of this method's Rust name, with
/// each of its arguments in order, each in its own conversion, and hands its result back.
pub open spec fn overrides<P>(api: Api<P>, sub: SubclassName, a: FnAnalysis, name: ApiName, recv: ReceiverMutability, sup: QualifiedName) -> bool {
    api matches Api::RustSubclassFn { name: n, subclass, details } && {
        let c = details.cpp_impl;
        &&& n == ApiName::root(ident_of(call_name(sub, name)))
        &&& c.payload == CppFunctionBody::FunctionCall(root_ns(), bridge_function(call_name(sub, name)))
        &&& c.original_cpp_name == original_cpp_name(name)
        &&& c.wrapper_function_name == ident_of(a.rust_name@)
        &&& c.kind == (if recv is Mutable { CppFunctionKind::Method } else { CppFunctionKind::ConstMethod })
        &&& c.argument_conversion@ == conversions(a.param_details@, 1)
        &&& c.return_conversion == a.ret_conversion
        &&& c.pass_obs_field && c.qualification == Some(cpp_of(sub))
        &&& subclass == sub && details.superclass == sup && details.receiver_mutability == recv
        &&& details.method_name == ident_of(a.rust_name@)
        &&& details.params@.len() == tail(a.params@).len() + 1 && details.params@.skip(1) == tail(a.params@)
        &&& details.params@[0].tok() == q1("me : & #0"@, holder_of(sub).tok())
        &&& details.ret == a.ret_type
        &&& details.is_pure_virtual == is_pure(a)
    }
}
/// The declaration of the method in the trait which Rust subclasses implement.
pub open spec fn declares<P>(api: Api<P>, name: ApiName, a: FnAnalysis, recv: ReceiverMutability, sup: QualifiedName, pure_: bool) -> bool {
    api matches Api::SubclassTraitItem { name: n, details } && {
        &&& n == name
        &&& details.name == ident_of(a.rust_name@) && details.receiver == sup && details.receiver_mutability == recv && details.is_pure_virtual == pure_
        &&& details.params@ == a.params@ && details.ret_type == a.ret_type
        &&& details.param_names@ == Seq::new(a.param_details@.len(), |i: int| a.param_details@[i].name)
    }
}
@@fn engine/src/conversion/analysis/fun/subclass.rs fn create_subclass_function
%ret r
%fmt
%panics
%prerewrite? `crate :: minisyn :: FnArg` => `vx_same::<FnArg>`
%prerewrite? `std :: iter :: once` => `once`
%ensures
    overrides(r, *sub, *analysis, *name, *receiver_mutability, *superclass),
    r matches Api::RustSubclassFn { details, .. } && details.dependencies == dependencies && details.requires_unsafe == need(*unsafe_policy, *analysis),
%closure `p . conversion . clone`
 -> (vr: TypeConversionPolicy) ensures vr == p.conversion
%before? `let kind`
    assert(vec_of::<FnArg>(params)@.skip(1) =~= tail(analysis.params@));
%before? `let requires_unsafe`
    assert(vec_of::<TypeConversionPolicy>(argument_conversion)@ =~= conversions(analysis.param_details@, 1));
@@end
@@fn engine/src/conversion/analysis/fun/subclass.rs fn create_subclass_trait_item
%ret r
%ensures
    declares(r, name, *analysis, *receiver_mutability, receiver, is_pure_virtual),
    r matches Api::SubclassTraitItem { details, .. } && details.requires_unsafe == need(*unsafe_policy, *analysis),
%closure `pd . name . clone`
 -> (vr: Pat) ensures vr == pd.name
%before? `let requires_unsafe`
    let ghost names = Seq::new(analysis.param_details@.len(), |i: int| analysis.param_details@[i].name);
    assert(vec_of::<Pat>(param_names)@ =~= names);
@@end
/// The way from Rust to the superclass's own implementation: the same signature, on the subclass.
pub open spec fn calls_super(f: FuncToConvert, sub: SubclassName, n: QualifiedName, fun: FuncToConvert) -> bool {
    &&& f.ident == n.final_ident() && f.inputs == fun.inputs && f.output == fun.output && f.variadic == fun.variadic
    &&& f.self_ty == Some(cpp_of(sub)) && f.synthesized_this_type == Some(cpp_of(sub))
    &&& f.virtualness is None && f.cpp_vis is Public && f.special_member is None && f.original_name is None && f.synthetic_cpp is None && f.provenance is SynthesizedOther
    &&& f.is_deleted == fun.is_deleted && f.add_to_trait == fun.add_to_trait
}
@@fn engine/src/conversion/analysis/fun/subclass.rs fn create_subclass_fn_wrapper
%ret r
%ensures
    calls_super(*r, *sub, *super_fn_name, *fun),
@@end
#[verifier::external_body]
pub fn vx_first_mut(v: &mut Vec<FnArg>) -> (r: Option<&mut FnArg>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> (r matches Some(x) && *x == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(x))),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_iter<T>(o: Option<T>) -> (r: It<T>)
    ensures r.pos() == 0, o is None ==> r.all() == Seq::<T>::empty(), o matches Some(x) ==> r.all() == seq![x],
{ unimplemented!() }
/// The receiver of a constructor, as a pointer to another class.
pub open spec fn receiver_as(a: FnArg, q: QualifiedName, b: FnArg) -> bool {
    a matches FnArg::Typed(p) && (*p.ty matches Type::Ptr(_)) && b == FnArg::Typed(PatType { ty: Box::new(Type::Ptr(TypePtr { elem: Box::new(Type::Path(path_of(q))) })), pat: p.pat })
}
/// A constructor of the subclass for each of the superclass's: it takes the Rust half first, then each of that
/// constructor's own arguments in order, each in its own conversion, and passes these on to it.
pub open spec fn constructs(f: FuncToConvert, n: ApiName, sub: SubclassName, a: FnAnalysis, sup: QualifiedName, fun: FuncToConvert) -> bool {
    let cpp = cpp_of(sub);
    let id = ident_of(fmt2("{}_{}"@, cpp.final_item(), cpp.final_item()));
    &&& n == (ApiName { name: qn_of(root_ns(), id), cpp_name: Some(ctor_of(cpp)) })
    &&& f.ident == id && f.output == fun.output && f.variadic == fun.variadic && f.special_member == fun.special_member && f.is_deleted == fun.is_deleted
    &&& f.self_ty == Some(cpp) && f.synthesized_this_type == Some(cpp) && f.virtualness is None && f.cpp_vis is Public && f.add_to_trait is None && f.synthetic_cpp is None && f.original_name is None
    &&& f.inputs@.len() == fun.inputs@.len() + 1 && f.inputs@.len() >= 2
    &&& receiver_as(fun.inputs@[0], cpp, f.inputs@[0])
    &&& f.inputs@[1].tok() == q1("peer : rust : : Box < #0 >"@, holder_of(sub).tok())
    &&& forall|i: int| 2 <= i < f.inputs@.len() ==> #[trigger] f.inputs@[i] == fun.inputs@[i - 1]
    &&& f.provenance matches Provenance::SynthesizedSubclassConstructor(d) && {
        let c = d.cpp_impl;
        &&& d.subclass == sub && d.is_trivial == (a.param_details@.len() == 1)
        &&& c.payload matches CppFunctionBody::ConstructSuperclass(s) && s@ == sup.cpp_text()
        &&& c.kind is SynthesizedConstructor && !c.pass_obs_field && c.return_conversion is None && c.qualification == Some(cpp)
        &&& c.wrapper_function_name == cpp.final_ident() && c.original_cpp_name == class_itself(cpp.cpp_text())
        &&& c.argument_conversion@.skip(1) == conversions(a.param_details@, 1) && c.argument_conversion@.len() >= 1
        &&& exists|t: Type| c.argument_conversion@[0] == #[trigger] unconverted(t) && t.tok() == q1("rust : : Box < #0 >"@, holder_of(sub).tok())
    }
}
@@fn engine/src/conversion/analysis/fun/subclass.rs fn create_subclass_constructor
%ret r
%fmt
%panics
%prerewrite? `std :: iter :: once` => `once`
%prerewrite? `existing_params . first_mut () . map (DerefMut :: deref_mut)` => `vx_first_mut(&mut existing_params)`
%prerewrite? `self_param . into_iter ()` => `vx_opt_iter(self_param)`
%ensures
    constructs(*r.0, r.1, sub, *analysis, *sup, *fun),
%closure `aa . conversion . clone`
 -> (vr: TypeConversionPolicy) ensures vr == aa.conversion
%before? `let self_param`
    assert(receiver_as(fun.inputs@[0], cpp, existing_params.all()[0]));
    let ghost ins = existing_params.all();
%before? `let cpp_impl`
    let ghost first = initial_arg;
    let ghost av = args.all();
    assert(av.skip(1) =~= conversions(analysis.param_details@, 1));
%before? `let subclass_constructor_details`
    assert(cpp_impl.argument_conversion@ == av);
%before? `let maybe_wrap`
    assert(vec_of::<FnArg>(inputs)@.len() == ins.len() + 1);
    assert(vec_of::<FnArg>(inputs)@[0] == ins[0]);
    assert(forall|i: int| 2 <= i < ins.len() + 1 ==> #[trigger] vec_of::<FnArg>(inputs)@[i] == ins[i - 1]);
    assert(vec_of::<FnArg>(inputs)@[1].tok() == q1("peer : rust : : Box < #0 >"@, holder_of(sub).tok()));
@@end
// --- which subclasses there are ------------------------------------------------------
impl<P> Api<P> {
    pub open spec fn qname(&self) -> QualifiedName {
        match self { Api::Function { name, .. } => name.name, Api::RustSubclassFn { name, .. } => name.name, Api::SubclassTraitItem { name, .. } => name.name, Api::IgnoredItem { name } => name.name, Api::Subclass { name, .. } => name.0.name, Api::Other(name, _) => name.name }
    }
}
/// The list of all items, as unit `apivec` proves it to behave: an item stays, unless its name comes up twice.
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct ApiVec<P> { x: core::marker::PhantomData<P> }
pub open spec fn stands<P>(s: Seq<Api<P>>, a: Api<P>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i] == a || (s[i] is IgnoredItem && s[i].qname() == a.qname())) }
impl<P> ApiVec<P> {
    pub uninterp spec fn apis(&self) -> Seq<Api<P>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.apis() == Seq::<Api<P>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, a: Api<P>)
        ensures a !is IgnoredItem ==> stands(final(self).apis(), a), forall|x: Api<P>| stands(old(self).apis(), x) ==> #[trigger] stands(final(self).apis(), x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&Api<P>>)
        ensures r.pos() == 0, r.all().len() == self.apis().len(), forall|i: int| 0 <= i < r.all().len() ==> *#[trigger] r.all()[i] == self.apis()[i],
            forall|i: int| 0 <= i < r.all().len() ==> *r.all()[i] == #[trigger] self.apis()[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<Api<P>>) ensures r.pos() == 0, r.all() == self.apis() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, it: It<Api<P>>)
        requires it.pos() == 0,
        ensures final(self).apis() == merged(old(self).apis(), it.all()),
    { unimplemented!() }
}
/// As unit `apivec` proves it.
pub uninterp spec fn merged<P>(s: Seq<Api<P>>, t: Seq<Api<P>>) -> Seq<Api<P>>;
pub struct PodPhase;
pub open spec fn subs_of<P>(s: Seq<Api<P>>, sup: QualifiedName) -> Seq<SubclassName> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { Api::Subclass { name, superclass } => if superclass == sup { subs_of(s.drop_last(), sup).push(name) } else { subs_of(s.drop_last(), sup) }, _ => subs_of(s.drop_last(), sup) }
    }
}
pub open spec fn listed(m: Map<QualifiedName, Vec<SubclassName>>, sup: QualifiedName) -> Seq<SubclassName> { if m.dom().contains(sup) { m[sup]@ } else { Seq::empty() } }
impl VxDefault for Vec<SubclassName> { open spec fn default_spec(r: Self) -> bool { r@ == Seq::<SubclassName>::empty() } }
pub proof fn lemma_subs_step<P>(s: Seq<Api<P>>, n: int, sup: QualifiedName)
    requires 0 <= n < s.len(),
    ensures subs_of(s.take(n + 1), sup) == (match s[n] { Api::Subclass { name, superclass } => if superclass == sup { subs_of(s.take(n), sup).push(name) } else { subs_of(s.take(n), sup) }, _ => subs_of(s.take(n), sup) }),
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); }
@@fn engine/src/conversion/analysis/fun/subclass.rs fn subclasses_by_superclass
%ret r
%nloops 1
%ensures
    forall|sup: QualifiedName| #[trigger] listed(r@, sup) == subs_of(apis.apis(), sup),
%loop 0
    invariant __it0.all().len() == apis.apis().len(), forall|i: int| 0 <= i < __it0.all().len() ==> *#[trigger] __it0.all()[i] == apis.apis()[i],
        forall|sup: QualifiedName| #[trigger] listed(subclasses_per_superclass@, sup) == subs_of(apis.apis().take(__it0.pos()), sup),
%loopbegin 0
    let ghost m0 = subclasses_per_superclass@;
%loopend 0
    proof { assert forall|sup: QualifiedName| #[trigger] listed(subclasses_per_superclass@, sup) == subs_of(apis.apis().take(__it0.pos()), sup) by { lemma_subs_step(apis.apis(), __it0.pos() - 1, sup); let _ = listed(m0, sup); } }
%loopafter 0
    assert(apis.apis().take(apis.apis().len() as int) =~= apis.apis());
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalyzer
only unsafe_policy subclasses_by_superclass existing_superclass_trait_api_names
unsafe_policy => UnsafePolicy
generics <>
@@end
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::subclasses_by_superclass
%sig
pub fn subclasses_by_superclass(&self, sup: &QualifiedName) -> (r: It<SubclassName>)
%ensures
    r.pos() == 0, r.all() == listed(self.subclasses_by_superclass@, *sup),
@@end
}
/// The analysis of a function (unit `analyze` proves what it says).
pub uninterp spec fn seen(fun: FuncToConvert, name: ApiName, soph: VxSoph, a: FnAnalysis, n: ApiName) -> bool;
pub open spec fn same(a: FnAnalyzer, b: FnAnalyzer) -> bool { a.unsafe_policy == b.unsafe_policy && a.subclasses_by_superclass == b.subclasses_by_superclass }
impl FnAnalyzer {
    #[verifier::external_body]
    pub fn analyze_foreign_fn(&mut self, name: ApiName, fun: &FuncToConvert, sophistication: VxSoph, predetermined_rust_name: Option<String>) -> (r: (FnAnalysis, ApiName))
        ensures same(*final(self), *old(self)), final(self).existing_superclass_trait_api_names == old(self).existing_superclass_trait_api_names,
            seen(*fun, name, sophistication, r.0, r.1),
            fun.add_to_trait is None && r.0.kind is Method ==> (predetermined_rust_name matches Some(n) ==> r.0.rust_name == n),
    { unimplemented!() }
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_and_add
%sig
pub fn analyze_and_add<P>(&mut self, name: ApiName, new_func: Box<FuncToConvert>, results: &mut ApiVec<P>, sophistication: TypeConversionSophistication) -> (r: QualifiedName)
%ensures
    same(*final(self), *old(self)), final(self).existing_superclass_trait_api_names == old(self).existing_superclass_trait_api_names,
    forall|x: Api<P>| stands(old(results).apis(), x) ==> #[trigger] stands(final(results).apis(), x),
    exists|a: FnAnalysis, n: ApiName| added(final(results).apis(), *new_func, name, sophistication, a, n) && r == n.name,
%begin
    let ghost fun0 = *new_func; let ghost name0 = name;
%end QualifiedName
    proof { let x = Api::<P>::Function { name: name, fun: Box::new(fun0), analysis: analysis }; assert(stands(results.apis(), x)); assert(added(results.apis(), fun0, name0, sophistication, analysis, name)); }
@@end
}
/// The binding of this function stands.
pub open spec fn added<P>(s: Seq<Api<P>>, fun: FuncToConvert, name: ApiName, soph: VxSoph, a: FnAnalysis, n: ApiName) -> bool {
    seen(fun, name, soph, a, n) && stands(s, Api::<P>::Function { name: n, fun: Box::new(fun), analysis: a })
}
pub open spec fn virtual_of(k: FnKind) -> Option<(QualifiedName, ReceiverMutability)> {
    match k { FnKind::Method { impl_for, method_kind: MethodKind::Virtual(m), .. } => Some((impl_for, m)), FnKind::Method { impl_for, method_kind: MethodKind::PureVirtual(m), .. } => Some((impl_for, m)), _ => None }
}
/// The override in the subclass stands, and needs the trait item; where the superclass implements the method, so does the
/// way to that implementation.
pub open spec fn overridden<P>(s: Seq<Api<P>>, sub: SubclassName, fun: FuncToConvert, a: FnAnalysis, simple: FnAnalysis, n: ApiName, sup: QualifiedName, recv: ReceiverMutability) -> bool {
    &&& exists|x: Api<P>| #[trigger] stands(s, x) && overrides(x, sub, simple, n, recv, sup) && (x matches Api::RustSubclassFn { details, .. } && vx_has(details.dependencies@, trait_item(sup, a.rust_name@)))
    &&& !is_pure(simple) ==> exists|f: FuncToConvert, fname: ApiName, fa: FnAnalysis, fnm: ApiName| calls_super(f, sub, super_fn(root_ns(), a.rust_name@), fun) && #[trigger] added(s, f, fname, VxSoph::SimpleForSubclasses, fa, fnm)
}
pub open spec fn all_overridden<P>(s: Seq<Api<P>>, subs: Seq<SubclassName>, k: int, fun: FuncToConvert, a: FnAnalysis, simple: FnAnalysis, n: ApiName, sup: QualifiedName, recv: ReceiverMutability) -> bool {
    forall|i: int| 0 <= i < k ==> overridden(s, #[trigger] subs[i], fun, a, simple, n, sup, recv)
}
pub open spec fn keeps<P>(a: Seq<Api<P>>, b: Seq<Api<P>>) -> bool { forall|x: Api<P>| stands(a, x) ==> #[trigger] stands(b, x) }
pub proof fn lemma_overridden_keeps<P>(s: Seq<Api<P>>, t: Seq<Api<P>>, subs: Seq<SubclassName>, k: int, fun: FuncToConvert, a: FnAnalysis, simple: FnAnalysis, n: ApiName, sup: QualifiedName, recv: ReceiverMutability)
    requires keeps(s, t), all_overridden(s, subs, k, fun, a, simple, n, sup, recv),
    ensures all_overridden(t, subs, k, fun, a, simple, n, sup, recv),
{
    assert forall|i: int| 0 <= i < k implies overridden(t, #[trigger] subs[i], fun, a, simple, n, sup, recv) by {
        assert(overridden(s, subs[i], fun, a, simple, n, sup, recv));
        let x = choose|x: Api<P>| #[trigger] stands(s, x) && overrides(x, subs[i], simple, n, recv, sup) && (x matches Api::RustSubclassFn { details, .. } && vx_has(details.dependencies@, trait_item(sup, a.rust_name@)));
        assert(stands(t, x));
        if !is_pure(simple) {
            let (f, fname, fa, fnm) = choose|f: FuncToConvert, fname: ApiName, fa: FnAnalysis, fnm: ApiName| calls_super(f, subs[i], super_fn(root_ns(), a.rust_name@), fun) && #[trigger] added(s, f, fname, VxSoph::SimpleForSubclasses, fa, fnm);
            assert(stands(t, Api::<P>::Function { name: fnm, fun: Box::new(f), analysis: fa }));
            assert(added(t, f, fname, VxSoph::SimpleForSubclasses, fa, fnm));
        }
    }
}
pub struct ConvertErrorWithContext { pub x: VxOpaque }
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::analyze_foreign_fn_and_subclasses
%sig
pub fn analyze_foreign_fn_and_subclasses(&mut self, name: ApiName, fun: Box<FuncToConvert>) -> (r: Result<It<Api<FnPrePhase1>>, ConvertErrorWithContext>)
%nloops 1
%attr #[verifier::loop_isolation(false)]
%prerewrite? `Box :: new` => `vx_same`
%prerewrite? `self . unsafe_policy` => `&self.unsafe_policy`
%ensures
    same(*final(self), *old(self)),
    r matches Ok(it) && it.pos() == 0 && exists|a: FnAnalysis, n: ApiName| bound_with_overrides(*old(self), *final(self), it.all(), *fun, name, a, n),
%begin
    hide(stands);
    let ghost fun0 = *fun; let ghost name0 = name;
    let ghost mut sim: FnAnalysis = arbitrary(); let ghost mut n2: ApiName = arbitrary();
    let ghost mut sx: Seq<Api<FnPrePhase1>> = Seq::empty();
%loop 0
    invariant same(*self, *old(self)), __it0.all() == listed(old(self).subclasses_by_superclass@, *sup),
        all_overridden(results.apis(), __it0.all(), __it0.pos(), fun0, analysis, simpler_analysis, name, *sup, *receiver_mutability),
        trait_there(*old(self), *self, results.apis(), __it0.pos(), analysis, simpler_analysis, *sup, *receiver_mutability),
%loopbefore 0
    let ghost sm = simpler_analysis;
%loopafter 0
    proof {
        sim = simpler_analysis; sx = results.apis();
        n2 = choose|n2: ApiName| seen(fun0, name, VxSoph::SimpleForSubclasses, simpler_analysis, n2);
        assert(virtual_of(analysis.kind) == Some((*sup, *receiver_mutability)));
    }
%before? `Api :: Function`
    let ghost an = analysis; let ghost nm = name;
    proof { if virtual_of(an.kind) is None { sx = results.apis(); } }
    assert(sx == results.apis());
%end Result<It<Api<FnPrePhase1>>, ConvertErrorWithContext>
    proof {
        let s = results.apis();
        assert(__ret matches Ok(it) && it.pos() == 0 && it.all() == s);
        assert(keeps(sx, s));
        assert(added(s, fun0, name0, VxSoph::Regular, an, nm));
        if virtual_of(an.kind) is Some {
            let v = virtual_of(an.kind)->Some_0;
            let subs = listed(old(self).subclasses_by_superclass@, v.0);
            lemma_overridden_keeps(sx, s, subs, subs.len() as int, fun0, an, sim, nm, v.0, v.1);
            let t = trait_item(v.0, an.rust_name@);
            assert(trait_there(*old(self), *self, sx, subs.len() as int, an, sim, v.0, v.1));
            if self.existing_superclass_trait_api_names@.contains(t) && !old(self).existing_superclass_trait_api_names@.contains(t) {
                let y = choose|y: Api<FnPrePhase1>| #[trigger] stands(sx, y) && declares(y, ApiName { name: t, cpp_name: None }, sim, v.1, v.0, is_pure(sim));
                assert(stands(s, y));
            }
            assert(trait_there(*old(self), *self, s, subs.len() as int, an, sim, v.0, v.1));
            assert(seen(fun0, nm, VxSoph::SimpleForSubclasses, sim, n2));
        }
        assert(bound_with_overrides(*old(self), *self, s, fun0, name0, an, nm));
    }
%loopbegin 0
    let ghost s0 = results.apis();
    let ghost e0 = self.existing_superclass_trait_api_names@;
%before? `if ! is_pure_virtual`
    let ghost t = trait_item(*sup, analysis.rust_name@);
    assert(subclass_fn_deps@[0] == t);
%before? `create_subclass_function`
    let ghost s1 = results.apis();
    assert(keeps(s0, s1));
    assert(subclass_fn_deps@[0] == t);
    let ghost deps = subclass_fn_deps@;
    assert(!is_pure(simpler_analysis) ==> exists|f: FuncToConvert, fname: ApiName, fa: FnAnalysis, fnm: ApiName| calls_super(f, sub, super_fn(root_ns(), analysis.rust_name@), fun0) && #[trigger] added(s1, f, fname, VxSoph::SimpleForSubclasses, fa, fnm));
%before? `if ! self . existing_superclass_trait_api_names`
    let ghost s2 = results.apis();
    assert(keeps(s1, s2));
    assert(vx_has(deps, t));
    assert(exists|x: Api<FnPrePhase1>| #[trigger] stands(s2, x) && overrides(x, sub, simpler_analysis, name, *receiver_mutability, *sup) && (x matches Api::RustSubclassFn { details, .. } && details.dependencies@ == deps));
%loopend 0
    proof {
        let s3 = results.apis(); let k = __it0.pos() - 1; let all = __it0.all();
        assert(keeps(s0, s3));
        lemma_overridden_keeps(s0, s3, all, k, fun0, analysis, simpler_analysis, name, *sup, *receiver_mutability);
        let x = choose|x: Api<FnPrePhase1>| #[trigger] stands(s2, x) && overrides(x, sub, simpler_analysis, name, *receiver_mutability, *sup) && (x matches Api::RustSubclassFn { details, .. } && details.dependencies@ == deps);
        assert(stands(s3, x));
        if !is_pure(simpler_analysis) {
            let (f, fname, fa, fnm) = choose|f: FuncToConvert, fname: ApiName, fa: FnAnalysis, fnm: ApiName| calls_super(f, sub, super_fn(root_ns(), analysis.rust_name@), fun0) && #[trigger] added(s1, f, fname, VxSoph::SimpleForSubclasses, fa, fnm);
            assert(stands(s3, Api::<FnPrePhase1>::Function { name: fnm, fun: Box::new(f), analysis: fa }));
            assert(added(s3, f, fname, VxSoph::SimpleForSubclasses, fa, fnm));
        }
        assert(overridden(s3, sub, fun0, analysis, simpler_analysis, name, *sup, *receiver_mutability));
        assert(sub == all[k]);
        if e0.contains(t) && !old(self).existing_superclass_trait_api_names@.contains(t) {
            let y = choose|y: Api<FnPrePhase1>| #[trigger] stands(s0, y) && declares(y, ApiName { name: t, cpp_name: None }, simpler_analysis, *receiver_mutability, *sup, is_pure(simpler_analysis));
            assert(stands(s3, y));
        }
    }
@@end
}
/// Once there is a subclass, there is the trait item, which is made here unless it was there before.
pub open spec fn trait_there<P>(a0: FnAnalyzer, a1: FnAnalyzer, s: Seq<Api<P>>, k: int, a: FnAnalysis, simple: FnAnalysis, sup: QualifiedName, recv: ReceiverMutability) -> bool {
    let t = trait_item(sup, a.rust_name@);
    &&& forall|q: QualifiedName| a0.existing_superclass_trait_api_names@.contains(q) ==> a1.existing_superclass_trait_api_names@.contains(q)
    &&& k > 0 ==> a1.existing_superclass_trait_api_names@.contains(t)
    &&& a1.existing_superclass_trait_api_names@.contains(t) && !a0.existing_superclass_trait_api_names@.contains(t) ==> exists|x: Api<P>| #[trigger] stands(s, x) && declares(x, ApiName { name: t, cpp_name: None }, simple, recv, sup, is_pure(simple))
}
/// The function's own binding; and where it is virtual, its override in each subclass of its class.
pub open spec fn bound_with_overrides<P>(a0: FnAnalyzer, a1: FnAnalyzer, s: Seq<Api<P>>, fun: FuncToConvert, name: ApiName, a: FnAnalysis, n: ApiName) -> bool {
    &&& added(s, fun, name, VxSoph::Regular, a, n)
    &&& virtual_of(a.kind) matches Some(v) ==> exists|simple: FnAnalysis, n2: ApiName| {
        let subs = listed(a0.subclasses_by_superclass@, v.0);
        &&& #[trigger] seen(fun, n, VxSoph::SimpleForSubclasses, simple, n2)
        &&& fun.add_to_trait is None && simple.kind is Method ==> simple.rust_name == a.rust_name
        &&& all_overridden(s, subs, subs.len() as int, fun, a, simple, n, v.0, v.1)
        &&& trait_there(a0, a1, s, subs.len() as int, a, simple, v.0, v.1)
    }
}
/// Has an accessible destructor, and so can be owned by a unique_ptr.
pub open spec fn destroys<P>(x: Api<P>, ty: QualifiedName) -> bool {
    x matches Api::Function { fun, analysis, .. } && (analysis.kind matches FnKind::TraitMethod { impl_for, .. } && impl_for == ty)
        && fun.special_member == Some(SpecialMemberKind::Destructor) && (fun.is_deleted is None || fun.is_deleted == Some(Explicitness::Defaulted)) && fun.cpp_vis is Public
}
pub open spec fn has_destructor<P>(s: Seq<Api<P>>, ty: QualifiedName) -> bool { exists|i: int| 0 <= i < s.len() && destroys(#[trigger] s[i], ty) }
/// A constructor which a subclass can call.
pub open spec fn ctor_for<P>(x: Api<P>) -> Option<QualifiedName> {
    match x { Api::Function { fun, analysis, .. } => match analysis.kind { FnKind::Method { impl_for, method_kind: MethodKind::Constructor { .. }, .. } => if fun.cpp_vis is Private { None } else { Some(impl_for) }, _ => None }, _ => None }
}
/// Every subclass has this constructor, too.
pub open spec fn passed_on<P>(s: Seq<Api<P>>, sub: SubclassName, x: Api<P>, sup: QualifiedName) -> bool {
    x matches Api::Function { fun, analysis, .. } && exists|f: FuncToConvert, n: ApiName, a: FnAnalysis, nm: ApiName| constructs(f, n, sub, analysis, sup, *fun) && #[trigger] added(s, f, n, VxSoph::Regular, a, nm)
}
pub open spec fn given_to_all<P>(s: Seq<Api<P>>, x: Api<P>, from: Seq<Api<P>>, m: Map<QualifiedName, Vec<SubclassName>>) -> bool {
    match ctor_for(x) { Some(sup) => has_destructor(from, sup) ==> subs_have(s, listed(m, sup), listed(m, sup).len() as int, x, sup), None => true }
}
pub open spec fn all_passed_on<P>(s: Seq<Api<P>>, from: Seq<Api<P>>, k: int, m: Map<QualifiedName, Vec<SubclassName>>) -> bool {
    forall|i: int| 0 <= i < k ==> given_to_all(s, #[trigger] from[i], from, m)
}
pub open spec fn subs_have<P>(s: Seq<Api<P>>, subs: Seq<SubclassName>, k: int, x: Api<P>, sup: QualifiedName) -> bool { forall|j: int| 0 <= j < k ==> passed_on(s, #[trigger] subs[j], x, sup) }
pub proof fn lemma_subs_have_keeps<P>(s: Seq<Api<P>>, t: Seq<Api<P>>, subs: Seq<SubclassName>, k: int, x: Api<P>, sup: QualifiedName)
    requires keeps(s, t), subs_have(s, subs, k, x, sup),
    ensures subs_have(t, subs, k, x, sup),
{
    assert forall|j: int| 0 <= j < k implies passed_on(t, #[trigger] subs[j], x, sup) by {
        assert(passed_on(s, subs[j], x, sup));
        let (f, n, a, nm) = choose|f: FuncToConvert, n: ApiName, a: FnAnalysis, nm: ApiName| constructs(f, n, subs[j], x->Function_analysis, sup, *x->Function_fun) && #[trigger] added(s, f, n, VxSoph::Regular, a, nm);
        assert(stands(t, Api::<P>::Function { name: nm, fun: Box::new(f), analysis: a }));
        assert(added(t, f, n, VxSoph::Regular, a, nm));
    }
}
pub proof fn lemma_all_passed_keeps<P>(s: Seq<Api<P>>, t: Seq<Api<P>>, from: Seq<Api<P>>, k: int, m: Map<QualifiedName, Vec<SubclassName>>)
    requires keeps(s, t), all_passed_on(s, from, k, m),
    ensures all_passed_on(t, from, k, m),
{
    assert forall|i: int| 0 <= i < k implies given_to_all(t, #[trigger] from[i], from, m) by {
        assert(given_to_all(s, from[i], from, m));
        if let Some(sup) = ctor_for(from[i]) { if has_destructor(from, sup) { lemma_subs_have_keeps(s, t, listed(m, sup), listed(m, sup).len() as int, from[i], sup); } }
    }
}
pub struct FnPrePhase2;
pub open spec fn dtor_of<P>(x: Api<P>, v: Option<QualifiedName>) -> bool { match v { Some(t) => destroys(x, t), None => forall|t: QualifiedName| !destroys(x, t) } }
pub open spec fn deref_opt<'a, T>(o: Option<&'a T>) -> Option<T> { match o { Some(t) => Some(*t), None => None } }
pub broadcast proof fn lemma_dtors<'a, P, F: Fn(&'a Api<P>) -> Option<&'a QualifiedName>>(all: Seq<&'a Api<P>>, f: F, o: Seq<Option<&'a QualifiedName>>, r: Seq<&'a QualifiedName>)
    requires #[trigger] vx_fm(all, f, o, r), forall|a: &'a Api<P>, v: Option<&'a QualifiedName>| #[trigger] f.ensures((a,), v) ==> dtor_of(*a, deref_opt(v)),
    ensures forall|ty: QualifiedName| #[trigger] vx_has(r, &ty) <==> exists|i: int| 0 <= i < all.len() && destroys(*#[trigger] all[i], ty),
{
    lemma_somes_dtors(all, o);
    assert forall|i: int| 0 <= i < all.len() implies dtor_of(*#[trigger] all[i], deref_opt(o[i])) by { assert(f.ensures((all[i],), o[i])); }
}
pub proof fn lemma_somes_dtors<'a, P>(all: Seq<&'a Api<P>>, o: Seq<Option<&'a QualifiedName>>)
    requires o.len() == all.len(),
    ensures (forall|i: int| 0 <= i < all.len() ==> dtor_of(*#[trigger] all[i], deref_opt(o[i]))) ==> forall|ty: QualifiedName| #[trigger] vx_has(vx_somes(o), &ty) <==> exists|i: int| 0 <= i < all.len() && destroys(*#[trigger] all[i], ty),
    decreases o.len(),
{
    broadcast use vx_has_lemmas;
    if o.len() > 0 && (forall|i: int| 0 <= i < all.len() ==> dtor_of(*#[trigger] all[i], deref_opt(o[i]))) {
        let a = all.drop_last(); let p = o.drop_last();
        lemma_somes_dtors(a, p);
        assert forall|i: int| 0 <= i < a.len() implies dtor_of(*#[trigger] a[i], deref_opt(p[i])) by { assert(a[i] == all[i]); }
        assert(dtor_of(*all[o.len() - 1], deref_opt(o.last())));
        assert forall|ty: QualifiedName| #[trigger] vx_has(vx_somes(o), &ty) <==> exists|i: int| 0 <= i < all.len() && destroys(*#[trigger] all[i], ty) by {
            if vx_has(vx_somes(p), &ty) { let i = choose|i: int| 0 <= i < a.len() && destroys(*#[trigger] a[i], ty); assert(destroys(*all[i], ty)); }
            if exists|i: int| 0 <= i < all.len() && destroys(*#[trigger] all[i], ty) {
                let i = choose|i: int| 0 <= i < all.len() && destroys(*#[trigger] all[i], ty);
                if i < a.len() { assert(destroys(*a[i], ty)); } else { assert(destroys(*all.last(), ty)); }
            }
            if o.last() == Some(&ty) { assert(destroys(*all[o.len() - 1], ty)); }
        }
    }
}
impl FnAnalyzer {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::add_subclass_constructors
%nloops 2
%ensures
    same(*final(self), *old(self)),
    exists|res: Seq<Api<FnPrePhase2>>| final(apis).apis() == merged(old(apis).apis(), res) && #[trigger] all_passed_on(res, old(apis).apis(), old(apis).apis().len() as int, old(self).subclasses_by_superclass@),
%begin
    hide(stands); hide(constructs); hide(passed_on); hide(subs_have); hide(added);
    let ghost from = apis.apis(); let ghost m = self.subclasses_by_superclass@;
%closure `Some (impl_for)`
 -> (vr: Option<&QualifiedName>) ensures dtor_of(*api, deref_opt(vr))
%loopbefore 0
    assert(forall|ty: QualifiedName| types_with_destructors@.contains(ty) <==> has_destructor(from, ty)) by { broadcast use lemma_dtors, lemma_has_index; }
%loop 0
    invariant apis.apis() == from, same(*self, *old(self)), m == self.subclasses_by_superclass@, __it0.all().len() == from.len(), forall|i: int| 0 <= i < from.len() ==> *#[trigger] __it0.all()[i] == from[i],
        forall|ty: QualifiedName| types_with_destructors@.contains(ty) <==> has_destructor(from, ty),
        all_passed_on(results.apis(), from, __it0.pos(), m),
%loop 1
    invariant same(*self, *old(self)), m == self.subclasses_by_superclass@, Some(*sup) == ctor_for(*api), __it0.pos() >= 1, (*api matches Api::Function { fun: vx_f, analysis: vx_a, .. } && *fun == vx_f && *analysis == vx_a), __it1.all() == listed(m, *sup),
        all_passed_on(results.apis(), from, __it0.pos() - 1, m), subs_have(results.apis(), __it1.all(), __it1.pos(), *api, *sup),
%loopbefore 1
    assert(subs_have(results.apis(), listed(m, *sup), 0, *api, *sup)) by { reveal(subs_have); }
%loopbegin 1
    let ghost s0 = results.apis();
%loopend 1
    proof {
        lemma_all_passed_keeps(s0, results.apis(), from, __it0.pos() - 1, m);
        lemma_subs_have_keeps(s0, results.apis(), __it1.all(), __it1.pos() - 1, *api, *sup);
        assert(passed_on(results.apis(), sub, *api, *sup)) by { reveal(passed_on); }
        assert(sub == __it1.all()[__it1.pos() - 1]);
        assert(subs_have(results.apis(), __it1.all(), __it1.pos(), *api, *sup)) by { reveal(subs_have); }
    }
@@end
}
pub struct FnPhase;
/// A constructor of a subclass: which subclass, what Rust calls it, and whether it takes the Rust half alone.
pub open spec fn sub_ctor<P>(x: Api<P>) -> Option<(QualifiedName, String, bool)> {
    match x { Api::Function { fun, analysis, .. } => match fun.provenance { Provenance::SynthesizedSubclassConstructor(d) => Some((d.subclass.0.name, analysis.rust_name, d.is_trivial)), _ => None }, _ => None }
}
pub open spec fn only_simple<P>(s: Seq<Api<P>>, q: QualifiedName) -> bool { forall|i: int| 0 <= i < s.len() ==> (sub_ctor(#[trigger] s[i]) matches Some(c) ==> c.0 == q ==> c.2) }
pub open spec fn untup<'a>(o: Option<(&'a QualifiedName, &'a String, bool)>) -> Option<(QualifiedName, String, bool)> { match o { Some(c) => Some((*c.0, *c.1, c.2)), None => None } }
pub open spec fn is_ctor_tuple<'a, P>(s: Seq<Api<P>>, c: (&'a QualifiedName, &'a String, bool)) -> bool { exists|i: int| 0 <= i < s.len() && sub_ctor(#[trigger] s[i]) == Some((*c.0, *c.1, c.2)) }
@@fn engine/src/conversion/codegen_rs/mod.rs fn find_trivially_constructed_subclasses
%ret r
%ensures
    forall|q: QualifiedName| #[trigger] r@.dom().contains(q) ==> only_simple(apis.apis(), q) && exists|i: int| 0 <= i < apis.apis().len() && sub_ctor(#[trigger] apis.apis()[i]) == Some((q, r@[q], true)),
    forall|i: int| 0 <= i < apis.apis().len() ==> (sub_ctor(#[trigger] apis.apis()[i]) matches Some(c) ==> only_simple(apis.apis(), c.0) ==> r@.dom().contains(c.0)),
%closure `Provenance :: SynthesizedSubclassConstructor`
 -> (vr: Option<(&QualifiedName, &String, bool)>) ensures untup(vr) == sub_ctor(*api)
%closure `* trivial`
 -> (vr: bool) ensures vr == vx_p1_0.2
%closure `{ let (qn , _ , _) = vx_p2_0 ; qn }`
 -> (vr: &QualifiedName) ensures vr == vx_p2_0.0
%closure `! complex_constructors . contains (qn)`
 -> (vr: bool) ensures vr == !complex_constructors@.contains(vx_p3_0.0)
%closure `qn . clone ()`
 -> (vr: (QualifiedName, String)) ensures vr == (*vx_p4_0.0, *vx_p4_0.1)
%begin
    broadcast use lemma_has_index;
    let ghost s = apis.apis();
%before? `let complex_constructors`
    let ghost sc = simple_constructors@; let ghost cc = complex_constructors@;
    assert(forall|j: int| 0 <= j < sc.len() ==> (#[trigger] sc[j]).2 && is_ctor_tuple(s, sc[j]));
    assert(forall|j: int| 0 <= j < cc.len() ==> !(#[trigger] cc[j]).2 && is_ctor_tuple(s, cc[j]));
    assert(forall|i: int| 0 <= i < s.len() ==> (sub_ctor(#[trigger] s[i]) matches Some(c) ==> exists|t: (&QualifiedName, &String, bool)| untup(Some(t)) == Some(c) && (#[trigger] vx_has(sc, t) || vx_has(cc, t))));
@@end
} // verus!
fn main() {}
