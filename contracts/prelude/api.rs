verus! {
pub trait AnalysisPhase { type TypedefAnalysis; type StructAnalysis; type FunAnalysis; }
pub struct CppOriginalName { pub x: VxOpaque }
impl Clone for CppOriginalName {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct ErrorContext { pub ident: Ident }
pub uninterp spec fn item_ctx(id: Ident) -> ErrorContext;
pub uninterp spec fn method_ctx(self_ty: Ident, id: Ident) -> ErrorContext;
impl ErrorContext {
    #[verifier::external_body]
    pub fn new_for_item(id: Ident) -> (r: ErrorContext) ensures r == item_ctx(id) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_for_method(self_ty: Ident, id: Ident) -> (r: ErrorContext) ensures r == method_ctx(self_ty, id) { unimplemented!() }
}
@@type engine/src/conversion/api.rs ApiName
only name cpp_name
keep name cpp_name
@@end
impl Clone for ApiName {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ApiName {
    #[verifier::external_body]
    pub fn new_from_qualified_name(name: QualifiedName) -> (r: ApiName) ensures r.name == name { unimplemented!() }
}
pub struct SubclassName(pub ApiName);
@@type engine/src/conversion/api.rs RustSubclassFnDetails
only dependencies
keep dependencies
@@end
pub enum ConvertErrorFromCpp {
    DuplicateItemsFoundInParsing,
    IgnoredDependent(HashSet<QualifiedName>),
    UnknownDependentType(QualifiedName),
    ${ERR_VARIANTS:}
    Other(VxOpaque),
}
pub struct ConvertErrorWithContext(pub ConvertErrorFromCpp, pub Option<ErrorContext>);
@@type engine/src/conversion/api.rs Api
Struct.details => ${STRUCT_DETAILS:VxOpaque}
* => VxOpaque
keep ForwardDeclaration.name OpaqueTypedef.name ConcreteType.name StringConstructor.name Function.name Const.name Typedef.name Enum.name Struct.name CType.name IgnoredItem.name RustType.name RustFn.name RustSubclassFn.name Subclass.name SubclassTraitItem.name ExternCppType.name
keep ForwardDeclaration.err OpaqueTypedef.forward_declaration Function.analysis Typedef.old_tyname Typedef.analysis Struct.analysis IgnoredItem.err IgnoredItem.ctx RustFn.deps RustSubclassFn.details Subclass.superclass ExternCppType.pod CType.typename ${API_KEEP:}
@@end
impl<P: AnalysisPhase> Api<P> {
    pub open spec fn qname(&self) -> QualifiedName { self.info().name }
    pub open spec fn info(&self) -> ApiName {
        match self {
            Api::ForwardDeclaration { name, .. } => *name,
            Api::OpaqueTypedef { name, .. } => *name,
            Api::ConcreteType { name, .. } => *name,
            Api::StringConstructor { name } => *name,
            Api::Function { name, .. } => *name,
            Api::Const { name, .. } => *name,
            Api::Typedef { name, .. } => *name,
            Api::Enum { name, .. } => *name,
            Api::Struct { name, .. } => *name,
            Api::CType { name, .. } => *name,
            Api::IgnoredItem { name, .. } => *name,
            Api::RustType { name, .. } => *name,
            Api::RustFn { name, .. } => *name,
            Api::RustSubclassFn { name, .. } => *name,
            Api::Subclass { name, .. } => name.0,
            Api::SubclassTraitItem { name, .. } => *name,
            Api::ExternCppType { name, .. } => *name,
        }
    }
    pub open spec fn is_ignored(&self) -> bool { self is IgnoredItem }
    pub open spec fn info_ref(&self) -> &ApiName { &self.info() }
    pub open spec fn qname_ref(&self) -> &QualifiedName { &self.info().name }
@@fn engine/src/conversion/api.rs Api::name_info
%attr #[verifier::when_used_as_spec(info_ref)]
%ensures
    *r == self.info(),
@@end
@@fn engine/src/conversion/api.rs Api::name
%attr #[verifier::when_used_as_spec(qname_ref)]
%ensures
    *r == self.qname(),
@@end
@@fn engine/src/conversion/api.rs Api::discard_duplicates
%ensures
    r == self.is_ignored(),
@@end
}
} // verus!
