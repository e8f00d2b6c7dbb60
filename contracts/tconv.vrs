@@include core.rs
@@include qname.rs
verus! {
// A cut-down `syn` and the neighbours of TypeConverter, as far as the kind of a converted type depends on them.
pub struct TypePath { pub x: VxOpaque }
#[derive(Clone, Copy)]
pub struct VxMut;
pub struct TypePtr { pub mutability: Option<VxMut>, pub elem: Box<Type> }
pub struct TypeReference { pub elem: Box<Type>, pub x: VxOpaque }
pub struct TypeArray { pub elem: Box<Type>, pub x: VxOpaque }
pub enum Type { Path(TypePath), Reference(TypeReference), Array(TypeArray), Ptr(TypePtr), Other(VxOpaque) }
pub enum GenericArgument { Type(Type), Other(VxOpaque) }
pub struct AngleArgs { pub args: Vec<GenericArgument> }
pub enum PathArguments { None, Parenthesized(VxOpaque), AngleBracketed(AngleArgs) }
pub struct PathSegment { pub arguments: PathArguments }
impl Clone for TypePath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for TypePtr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Namespace { x: u8 }
pub struct NullPhase;
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct ApiVec<P> { x: std::marker::PhantomData<P> }
impl<P> ApiVec<P> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
}
@@type engine/src/known_types.rs CxxGenericType
@@end
impl PartialEq for CxxGenericType { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
@@type engine/src/conversion/analysis/type_converter.rs TypeKind
@@end
@@type engine/src/conversion/analysis/type_converter.rs Annotated
@@end
pub enum TypeConversionContext { WithinReference, WithinStructField { struct_type_params: HashSet<Ident> }, WithinContainer, OuterType }
impl TypeConversionContext {
    #[verifier::external_body]
    pub fn allow_instantiation_of_forward_declaration(&self) -> bool { unimplemented!() }
}
pub struct ConvertErrorFromCpp { pub x: VxOpaque }
#[verifier::external_body]
pub fn vx_err() -> ConvertErrorFromCpp { unimplemented!() }
/// Whatever a `parse_quote!` yields: nothing is known about it.
#[verifier::external_body]
pub fn vx_tokens<T>() -> T { unimplemented!() }
pub struct KnownTypes;
pub fn known_types() -> KnownTypes { KnownTypes }
impl KnownTypes {
    #[verifier::external_body]
    pub fn should_dereference_in_cpp(&self, q: &QualifiedName) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn cxx_generic_behavior(&self, q: &QualifiedName) -> CxxGenericType { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_any_path() -> TypePath { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_bool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_args() -> Vec<GenericArgument> { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_behavior() -> CxxGenericType { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_ident() -> Ident { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_deps() -> HashSet<QualifiedName> { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_kind() -> TypeKind { unimplemented!() }
#[verifier::external_body]
pub fn vx_generic_args(t: &TypePath) -> Option<&PathSegment> { unimplemented!() }
pub uninterp spec fn path_name(p: TypePath) -> QualifiedName;
impl QualifiedName {
    #[verifier::external_body]
    pub fn from_type_path(p: &TypePath) -> (r: QualifiedName) ensures r == path_name(*p) { unimplemented!() }
}
/// What bindgen's marker paths wrap.
pub uninterp spec fn unused_inner(p: TypePath) -> Option<Type>;
pub uninterp spec fn opaque_inner(p: TypePath) -> Option<Type>;
pub uninterp spec fn ref_inner(p: TypePath, rvalue: bool) -> Option<TypePtr>;
#[verifier::external_body]
pub fn unwrap_has_unused_template_param(p: &TypePath) -> (r: Option<&Type>) ensures r is Some <==> unused_inner(*p) is Some, r matches Some(t) ==> unused_inner(*p) == Some(*t) { unimplemented!() }
#[verifier::external_body]
pub fn unwrap_has_opaque(p: &TypePath) -> (r: Option<&Type>) ensures r is Some <==> opaque_inner(*p) is Some, r matches Some(t) ==> opaque_inner(*p) == Some(*t) { unimplemented!() }
#[verifier::external_body]
pub fn unwrap_reference(p: &TypePath, rv: bool) -> (r: Option<&TypePtr>) ensures r is Some <==> ref_inner(*p, rv) is Some, r matches Some(t) ==> ref_inner(*p, rv) == Some(*t) { unimplemented!() }

/// A C++ rvalue reference, possibly inside bindgen's other markers.
pub open spec fn rvalue(t: Type, n: nat) -> bool
    decreases n,
{
    n > 0 && (t matches Type::Path(p) && (ref_inner(p, true) is Some
        || (unused_inner(p) matches Some(u) && rvalue(u, (n - 1) as nat))
        || (opaque_inner(p) matches Some(u) && rvalue(u, (n - 1) as nat))))
}
pub open spec fn is_rvalue(t: Type) -> bool { exists|n: nat| #[trigger] rvalue(t, n) }
pub broadcast proof fn lemma_rvalue_unused(p: TypePath, u: Type)
    requires #[trigger] unused_inner(p) == Some(u), #[trigger] is_rvalue(u),
    ensures is_rvalue(Type::Path(p)),
{ let n = choose|n: nat| #[trigger] rvalue(u, n); assert(rvalue(Type::Path(p), n + 1)); }
pub broadcast proof fn lemma_rvalue_opaque(p: TypePath, u: Type)
    requires #[trigger] opaque_inner(p) == Some(u), #[trigger] is_rvalue(u),
    ensures is_rvalue(Type::Path(p)),
{ let n = choose|n: nat| #[trigger] rvalue(u, n); assert(rvalue(Type::Path(p), n + 1)); }
pub proof fn lemma_rvalue0(p: TypePath)
    requires ref_inner(p, true) is Some,
    ensures is_rvalue(Type::Path(p)),
{ assert(rvalue(Type::Path(p), 1)); }
/// The kind of a converted type says truthfully whether it is a raw pointer.
pub open spec fn honest(t: Type, kind: TypeKind, from: Type) -> bool {
    &&& t is Ptr <==> kind is Pointer || kind is RValueReference
    &&& kind is RValueReference ==> is_rvalue(from)
}
impl<T> Annotated<T> {
@@fn engine/src/conversion/analysis/type_converter.rs Annotated::new
%ensures
    r == (Annotated { ty, types_encountered, extra_apis, kind }),
@@end
@@fn engine/src/conversion/analysis/type_converter.rs Annotated::map
%requires
    fun.requires((self.ty,)),
%ensures
    r.kind == self.kind,
    fun.ensures((self.ty,), r.ty),
@@end
}
pub fn vx_box(t: Type) -> (r: Box<Type>) ensures *r == t { Box::new(t) }
#[verifier::external_body]
pub struct IncludeCppConfig { x: u8 }
impl IncludeCppConfig {
    #[verifier::external_body]
    pub fn is_rust_type(&self, i: &Ident) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subclass_holder(&self, i: &String) -> bool { unimplemented!() }
}
impl Namespace { #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() } }
impl Ident { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
impl QualifiedName { #[verifier::external_body] pub fn get_namespace(&self) -> &Namespace { unimplemented!() } }
impl KnownTypes {
    #[verifier::external_body]
    pub fn permissible_within_vector(&self, q: &QualifiedName) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn permissible_within_unique_ptr(&self, q: &QualifiedName) -> bool { unimplemented!() }
}
pub struct TypeConverter { pub config: IncludeCppConfig, pub typedefs: HashMap<QualifiedName, Type>, pub forward_declarations: HashSet<QualifiedName> }
impl TypeConverter {
    // No contract: they may answer anything.
    #[verifier::external_body]
    pub fn resolve_typedef(&self, tn: &QualifiedName) -> Result<Option<&Type>, ConvertErrorFromCpp> { unimplemented!() }
    #[verifier::external_body]
    pub fn ensure_pointee_is_valid(p: &TypePtr) -> Result<(), ConvertErrorFromCpp> { unimplemented!() }
@@fn engine/src/conversion/analysis/type_converter.rs TypeConverter::convert_boxed_type
%attr #[verifier::exec_allows_no_decreases_clause]
%abserr ConvertErrorFromCpp
%prerewrite `. map (Box :: new)` => `. map (vx_box)`
%ensures
    r matches Ok(a) ==> honest(*a.ty, a.kind, *ty),
@@end
@@fn engine/src/conversion/analysis/type_converter.rs TypeConverter::convert_type
%attr #[verifier::exec_allows_no_decreases_clause]
%abserr ConvertErrorFromCpp
%ensures
    r matches Ok(a) ==> honest(a.ty, a.kind, ty),
@@end
@@fn engine/src/conversion/analysis/type_converter.rs TypeConverter::convert_type_path
%attr #[verifier::exec_allows_no_decreases_clause]
%abserr ConvertErrorFromCpp
%ensures
    r matches Ok(a) ==> honest(a.ty, a.kind, Type::Path(typ)),
%closure 0
 -> (vr: Type) ensures !(vr is Ptr)
%begin
    broadcast use lemma_rvalue_unused; broadcast use lemma_rvalue_opaque;
    proof { if ref_inner(typ, true) is Some { lemma_rvalue0(typ); } }
@@end
@@fn engine/src/conversion/analysis/type_converter.rs TypeConverter::convert_type_path_which_is_not_a_reference
%attr #[verifier::exec_allows_no_decreases_clause]
%abserr ConvertErrorFromCpp
%drop `let first_seg =` .. `if first_seg !=` => `let mut typ = vx_any_path();`
%drop `original_tn . validate_ok_for_cxx` .. `if self . config . is_on_blocklist` 
%drop `let mut innerty = self . convert_punctuated` .. `ab . args =` => `let args = vx_any_args();`
%drop `deps . extend (innerty` .. `deps . extend (innerty`
%drop `for seg in & typ . path` .. `deps . insert (new_tn)`
%prerewrite `Self :: get_generic_args (& mut typ)` => `vx_generic_args(&typ)`
%prerewrite `ref mut ab` => `ref ab`
%prerewrite `& ab . args` => `& args`
%drop `let mut typ = match known_types ()` .. `let mut typ = match known_types ()` => `let mut typ = vx_any_path();`
%ensures
    r matches Ok(a) ==> (a.ty is Ptr <==> a.kind is Pointer) && !(a.kind is RValueReference),
@@end
@@fn engine/src/conversion/analysis/type_converter.rs TypeConverter::convert_ptr
%attr #[verifier::exec_allows_no_decreases_clause]
%abserr ConvertErrorFromCpp
%ensures
    r matches Ok(a) ==> a.ty is Ptr && a.kind is Pointer,
@@end
@@fn engine/src/conversion/analysis/type_converter.rs TypeConverter::confirm_inner_type_is_acceptable_generic_payload
%drop `if matches ! (typ . path` .. `if matches ! (typ . path`
%abserr ConvertErrorFromCpp
%ensures
    r matches Ok(k) ==> k is Regular || k is SubclassHolder,
@@end
}
} // verus!
fn main(){}
