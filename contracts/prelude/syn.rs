verus! {
// A cut-down `syn`: only the shapes the functions under contract look at.
pub struct TypePath { pub x: VxOpaque }
pub struct TypeArray { pub elem: Box<Type> }
pub enum Type { Path(TypePath), Array(TypeArray), Ptr(VxOpaque), Reference(VxOpaque), Other(VxOpaque) }
pub enum Visibility { Public(VxOpaque), Restricted(VxOpaque), Inherited }
pub struct Field { pub ident: Option<Ident>, pub ty: Type, pub vis: Visibility }
pub struct Generics { pub params: Vec<VxOpaque> }
pub struct ItemStruct { pub ident: Ident, pub fields: Vec<Field>, pub generics: Generics }
pub struct ItemType { pub ty: Box<Type> }
#[verifier::external_body]
pub struct Namespace { x: u8 }
impl Ident {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl VxStr for Ident { open spec fn vx_chars(&self) -> Seq<char> { self.text() } }
/// The C++ name a Rust path stands for.
pub uninterp spec fn path_name(p: TypePath) -> QualifiedName;
pub uninterp spec fn qn_of(ns: Namespace, id: Ident) -> QualifiedName;
pub uninterp spec fn cpp_str_name(s: Seq<char>) -> QualifiedName;
impl QualifiedName {
    pub open spec fn path_name_ref(p: &TypePath) -> QualifiedName { path_name(*p) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(path_name_ref)]
    pub fn from_type_path(p: &TypePath) -> (r: QualifiedName) ensures r == path_name(*p) { unimplemented!() }
    pub uninterp spec fn ns(&self) -> Namespace;
    #[verifier::external_body]
    pub fn get_namespace(&self) -> (r: &Namespace) ensures *r == self.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(ns: &Namespace, id: Ident) -> (r: QualifiedName) ensures r == qn_of(*ns, id) { unimplemented!() }
    pub open spec fn cpp_name_of(s: &String) -> QualifiedName { cpp_str_name(s@) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(cpp_name_of)]
    pub fn new_from_cpp_name(s: &String) -> (r: QualifiedName) ensures r == cpp_str_name(s@) { unimplemented!() }
}
/// The element type of (arrays of arrays of ...) arrays.
pub open spec fn elem_ty(t: Type) -> Type
    decreases t,
{ match t { Type::Array(a) => elem_ty(*a.elem), _ => t } }
} // verus!
