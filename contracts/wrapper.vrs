@@include core.rs
@@include qname.rs
@@include text.rs
verus! {
// A cut-down `syn`: only the shapes the functions under contract look at.
pub struct TypePath { pub x: VxOpaque }
#[derive(Clone, Copy)]
pub struct VxMut;
pub struct TypePtr { pub mutability: Option<VxMut>, pub elem: Box<Type> }
pub struct TypeReference { pub mutability: Option<VxMut>, pub elem: Box<Type> }
pub enum Type { Path(TypePath), Ptr(TypePtr), Reference(TypeReference), Other(VxOpaque) }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum Tok { Ty(Type), Id(Ident), List(Seq<Tok>), Other(VxOpaque) }
impl VxTok for Type { open spec fn tok(&self) -> Tok { Tok::Ty(*self) } }
impl VxTok for Box<Type> { open spec fn tok(&self) -> Tok { Tok::Ty(**self) } }
impl VxTok for Ident { open spec fn tok(&self) -> Tok { Tok::Id(*self) } }
impl Ident { pub uninterp spec fn text(&self) -> Seq<char>; }
impl VxStr for Ident { open spec fn vx_chars(&self) -> Seq<char> { self.text() } }
#[verifier::external_body]
pub struct Expr { x: u8 }
impl Expr { pub uninterp spec fn view(&self) -> Tok; }
impl VxTok for Expr { open spec fn tok(&self) -> Tok { self.view() } }
/// `*mut T`, `*const T`.
pub open spec fn ptr_to(m: bool, e: Type) -> Type { Type::Ptr(TypePtr { mutability: if m { Some(VxMut) } else { None }, elem: Box::new(e) }) }
/// Syntax: what `parse_quote!` makes of these tokens.
#[verifier::external_body]
pub broadcast proof fn axiom_mut_ptr(e: Type)
    ensures #[trigger] q1("* mut #0"@, Tok::Ty(e)) == Tok::Ty(ptr_to(true, e)),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_const_ptr(e: Type)
    ensures #[trigger] q1("* const #0"@, Tok::Ty(e)) == Tok::Ty(ptr_to(false, e)),
{}
pub uninterp spec fn unique_ptr(e: Type) -> Type;
#[verifier::external_body]
pub broadcast proof fn axiom_unique_ptr(e: Type)
    ensures #[trigger] q1("cxx : : UniquePtr < #0 >"@, Tok::Ty(e)) == Tok::Ty(unique_ptr(e)),
{}
/// C++ expressions.
pub uninterp spec fn deref(e: Seq<char>) -> Seq<char>;
pub uninterp spec fn moved(e: Seq<char>) -> Seq<char>;
pub uninterp spec fn address_of(e: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn axiom_deref(e: Seq<char>) ensures #[trigger] fmt1("*{}"@, e) == deref(e) {}
#[verifier::external_body]
pub broadcast proof fn axiom_deref_paren(e: Seq<char>) ensures #[trigger] fmt1("(*{})"@, e) == deref(e) {}
#[verifier::external_body]
pub broadcast proof fn axiom_moved(e: Seq<char>) ensures #[trigger] fmt1("std::move({})"@, e) == moved(e) {}
#[verifier::external_body]
pub broadcast proof fn axiom_moved_deref(e: Seq<char>) ensures #[trigger] fmt1("std::move(*{})"@, e) == moved(deref(e)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_address(e: Seq<char>) ensures #[trigger] fmt1("&{}"@, e) == address_of(e) {}
/// C++ types.
pub uninterp spec fn cpp_ptr(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn cpp_const_ptr(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn cpp_unique_ptr(t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn axiom_cpp_ptr(e: Seq<char>) ensures #[trigger] fmt1("{}*"@, e) == cpp_ptr(e) {}
#[verifier::external_body]
pub broadcast proof fn axiom_cpp_ptr_empty(e: Seq<char>) ensures #[trigger] fmt2("{}{}*"@, ""@, e) == cpp_ptr(e) {}
#[verifier::external_body]
pub broadcast proof fn axiom_cpp_const_ptr(e: Seq<char>) ensures #[trigger] fmt2("{}{}*"@, "const "@, e) == cpp_const_ptr(e) {}
#[verifier::external_body]
pub broadcast proof fn axiom_cpp_unique_ptr(e: Seq<char>) ensures #[trigger] fmt1("std::unique_ptr<{}>"@, e) == cpp_unique_ptr(e) {}
pub broadcast group cpp_text { axiom_deref, axiom_deref_paren, axiom_moved, axiom_moved_deref, axiom_address, axiom_cpp_ptr, axiom_cpp_ptr_empty, axiom_cpp_const_ptr, axiom_cpp_unique_ptr }
pub broadcast group rust_text { axiom_mut_ptr, axiom_const_ptr, axiom_unique_ptr }

pub struct ConvertErrorFromCpp { pub x: VxOpaque }
#[verifier::external_body]
pub struct CppNameMap { x: u8 }
impl CppNameMap {
    /// The C++ spelling of a Rust-side type (`None`: it has none).
    pub uninterp spec fn spelling(&self, t: Type) -> Seq<char>;
    #[verifier::external_body]
    pub fn type_to_cpp(&self, t: &Type) -> (r: Result<String, ConvertErrorFromCpp>)
        ensures r is Ok ==> r->Ok_0@ == self.spelling(*t),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SubclassName { x: u8 }
impl Clone for SubclassName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn held_by(h: Ident) -> SubclassName;
impl SubclassName {
    #[verifier::external_body]
    pub fn from_holder_name(id: &Ident) -> (r: SubclassName) ensures r == held_by(*id) { unimplemented!() }
}
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppConversionType
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs RustConversionType
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy
unwrapped_type => Type
@@end
impl Clone for CppConversionType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RustConversionType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- what crosses the bridge ----------------------------------------------
/// How a value of the policy's type travels through the cxx bridge.
pub enum Form { AsIs, InUniquePtr, Address }
/// The form the C++ wrapper takes an argument in.
pub open spec fn cpp_takes(c: CppConversionType) -> Form {
    match c { CppConversionType::FromUniquePtrToValue => Form::InUniquePtr, CppConversionType::FromPtrToValue => Form::Address, _ => Form::AsIs }
}
/// The form the Rust wrapper produces, where it converts at all.
pub open spec fn rust_gives(r: RustConversionType) -> Form {
    match r {
        RustConversionType::FromStr => Form::InUniquePtr,
        RustConversionType::FromValueParamToPtr => Form::Address,
        RustConversionType::FromRValueParamToPtr => Form::Address,
        _ => Form::AsIs,
    }
}
/// The Rust wrapper hands over exactly what the C++ wrapper expects. (With no
/// Rust conversion the caller supplies the bridge type itself.)
pub open spec fn coherent(p: TypeConversionPolicy) -> bool {
    &&& p.rust_conversion is None || rust_gives(p.rust_conversion) == cpp_takes(p.cpp_conversion)
    &&& (p.rust_conversion is FromPinMaybeUninitToPtr || p.rust_conversion is FromPinMoveRefToPtr || p.rust_conversion is FromTypeToPtr
        || p.rust_conversion is FromPlacementParamToNewReturn || p.rust_conversion is FromReferenceWrapperToPointer
        || p.rust_conversion is FromPointerToReferenceWrapper) ==> p.unwrapped_type is Ptr
    &&& p.cpp_conversion is FromPtrToMove || p.cpp_conversion is FromPointerToReference ==> p.unwrapped_type is Ptr
}
/// The type in the bridge for a value of type t in the given form.
pub open spec fn bridge_type(t: Type, f: Form) -> Type {
    match f { Form::AsIs => t, Form::InUniquePtr => unique_ptr(t), Form::Address => ptr_to(true, t) }
}
/// The C++ type of the same thing, and the C++ expression which gets the value out.
pub open spec fn cpp_form_type(s: Seq<char>, f: Form) -> Seq<char> {
    match f { Form::AsIs => s, Form::InUniquePtr => cpp_unique_ptr(s), Form::Address => cpp_ptr(s) }
}
/// The argument (or result) expression which the C++ wrapper makes from `var`.
pub open spec fn cpp_expr(p: TypeConversionPolicy, var: Seq<char>, m: CppNameMap, is_return: bool) -> Option<Seq<char>> {
    match p.cpp_conversion {
        CppConversionType::None => Some(var),
        CppConversionType::FromReturnValueToPlacementPtr => Some(var),
        CppConversionType::Move => Some(moved(var)),
        // out of the heap or the stack of the caller: moved from, exactly once
        CppConversionType::FromUniquePtrToValue => Some(moved(deref(var))),
        CppConversionType::FromPtrToMove => Some(moved(deref(var))),
        CppConversionType::FromPtrToValue => Some(if is_return { deref(var) } else { moved(deref(var)) }),
        // the caller's object itself
        CppConversionType::FromPointerToReference => Some(deref(var)),
        CppConversionType::FromReferenceToPointer => Some(address_of(var)),
        CppConversionType::FromValueToUniquePtr => Some(fmt2("std::make_unique<{}>({})"@, m.spelling(p.unwrapped_type), var)),
        CppConversionType::IgnoredPlacementPtrParameter => None,
    }
}
/// The type the C++ wrapper returns.
pub open spec fn cpp_result_type(p: TypeConversionPolicy, m: CppNameMap) -> Seq<char> {
    let t = p.unwrapped_type;
    match p.cpp_conversion {
        CppConversionType::FromValueToUniquePtr => cpp_unique_ptr(m.spelling(t)),
        CppConversionType::FromReferenceToPointer => {
            let s = m.spelling(*t->Ptr_0.elem);
            if t->Ptr_0.mutability is Some { cpp_ptr(s) } else { cpp_const_ptr(s) }
        },
        _ => m.spelling(t),
    }
}
pub open spec fn inverse_of(c: CppConversionType, r: CppConversionType) -> bool {
    match c {
        CppConversionType::None => r is None,
        CppConversionType::Move => r is Move,
        CppConversionType::FromUniquePtrToValue => r is FromValueToUniquePtr,
        CppConversionType::FromPtrToValue => r is FromValueToUniquePtr,
        CppConversionType::FromValueToUniquePtr => r is FromUniquePtrToValue,
        CppConversionType::FromPointerToReference => r is FromReferenceToPointer,
        CppConversionType::FromReferenceToPointer => r is FromPointerToReference,
        _ => false,
    }
}
impl CppConversionType {
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs CppConversionType::inverse
%panics
%ensures
    inverse_of(*self, r),
@@end
}
impl TypeConversionPolicy {
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::new_unconverted
%ensures
    r.unwrapped_type == ty, r.cpp_conversion is None, r.rust_conversion is None,
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::new
%prerewrite? `ty . into ()` => `ty`
%ensures
    r == (TypeConversionPolicy { unwrapped_type: ty, cpp_conversion, rust_conversion }),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::cxxbridge_type
%ensures
    *r == self.unwrapped_type,
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::new_to_unique_ptr
%prerewrite? `ty . into ()` => `ty`
%ensures
    r.unwrapped_type == ty, r.cpp_conversion is FromValueToUniquePtr, r.rust_conversion is None,
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::new_for_placement_return
%prerewrite? `ty . into ()` => `ty`
%ensures
    r.unwrapped_type == ty, r.cpp_conversion is FromReturnValueToPlacementPtr, r.rust_conversion is None,
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::cpp_work_needed
%ensures
    r == !(self.cpp_conversion is None),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::rust_work_needed
%ensures
    r == !(self.rust_conversion is None),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::make_unique_ptr_type
%fmt
%begin
    broadcast use rust_text;
%ensures
    r == unique_ptr(self.unwrapped_type),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::unconverted_rust_type
%prerewrite? `. clone () . into ()` => `. clone ()`
%ensures
    r == (if self.cpp_conversion is FromValueToUniquePtr { unique_ptr(self.unwrapped_type) } else { self.unwrapped_type }),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::converted_rust_type
%fmt
%prerewrite? `. clone () . into ()` => `. clone ()`
%begin
    broadcast use rust_text;
%ensures
    r == bridge_type(self.unwrapped_type, cpp_takes(self.cpp_conversion)),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::inverse
%ensures
    r.unwrapped_type == self.unwrapped_type, r.rust_conversion == self.rust_conversion, inverse_of(self.cpp_conversion, r.cpp_conversion),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::is_placement_parameter
%ensures
    r == (self.cpp_conversion is IgnoredPlacementPtrParameter),
@@end
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::populate_return_value
%ensures
    r == !(self.cpp_conversion is FromReturnValueToPlacementPtr),
@@end
// Passing our own stack space or a raw pointer across needs an unsafe bridge function.
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::bridge_unsafe_needed
%ensures
    r == (self.rust_conversion is FromValueParamToPtr || self.rust_conversion is FromRValueParamToPtr || self.rust_conversion is FromPlacementParamToNewReturn
        || self.rust_conversion is FromPointerToReferenceWrapper || self.rust_conversion is FromReferenceWrapperToPointer),
@@end
@@fn engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs TypeConversionPolicy::unwrapped_type_as_string
%ensures
    r is Ok ==> r->Ok_0@ == cpp_name_map.spelling(self.unwrapped_type),
@@end
@@fn engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs TypeConversionPolicy::unique_ptr_wrapped_type
%fmt
%begin
    broadcast use cpp_text;
%ensures
    r is Ok ==> r->Ok_0@ == cpp_unique_ptr(original_name_map.spelling(self.unwrapped_type)),
@@end
// The type of a parameter of the C++ wrapper: the same form as in the bridge.
@@fn engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs TypeConversionPolicy::unconverted_type
%fmt
%begin
    broadcast use cpp_text;
%ensures
    r is Ok ==> r->Ok_0@ == cpp_form_type(cpp_name_map.spelling(self.unwrapped_type), cpp_takes(self.cpp_conversion)),
@@end
@@fn engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs TypeConversionPolicy::converted_type
%fmt
%panics
%prerewrite? `elem . as_ref ()` => `&**elem`
%begin
    broadcast use cpp_text;
%ensures
    r is Ok ==> r->Ok_0@ == cpp_result_type(*self, *cpp_name_map),
    r is Ok && self.cpp_conversion is FromReferenceToPointer ==> self.unwrapped_type is Ptr,
@@end
@@fn engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs TypeConversionPolicy::cpp_conversion
%fmt
%begin
    broadcast use cpp_text;
%ensures
    r is Ok ==> ({
        let e = cpp_expr(*self, var_name@, *cpp_name_map, is_return);
        (r->Ok_0 is Some <==> e is Some) && (e is Some ==> r->Ok_0->Some_0@ == e->Some_0)
    }),
@@end
}

// ---- which conversion an argument gets -------------------------------------
@@type parser/src/config.rs UnsafePolicy
@@end
@@type engine/src/conversion/analysis/fun/mod.rs TypeConversionSophistication
@@end
@@type engine/src/conversion/analysis/type_converter.rs TypeKind
@@end
@@type engine/src/conversion/analysis/type_converter.rs Annotated
types_encountered => VxOpaque
extra_apis => VxOpaque
@@end
pub struct KnownTypes;
pub open spec fn known_types_spec() -> KnownTypes { KnownTypes }
#[verifier::when_used_as_spec(known_types_spec)]
pub fn known_types() -> (r: KnownTypes) ensures r == known_types_spec() { KnownTypes }
/// std::unique_ptr and the like: C++ cannot copy them.
pub uninterp spec fn uncopyable(q: QualifiedName) -> bool;
/// std::string.
pub uninterp spec fn str_like(q: QualifiedName) -> bool;
pub uninterp spec fn path_name(p: TypePath) -> QualifiedName;
impl QualifiedName {
    #[verifier::external_body]
    pub fn from_type_path(p: &TypePath) -> (r: QualifiedName) ensures r == path_name(*p) { unimplemented!() }
}
impl KnownTypes {
    #[verifier::external_body]
    pub fn lacks_copy_constructor(&self, q: &QualifiedName) -> (r: bool) ensures r == uncopyable(*q) { unimplemented!() }
    #[verifier::external_body]
    pub fn convertible_from_strs(&self, q: &QualifiedName) -> (r: bool) ensures r == str_like(*q) { unimplemented!() }
}
/// `Pin<&mut T>` holds T.
pub uninterp spec fn pinned(p: TypePath) -> Type;
#[verifier::external_body]
pub fn extract_type_from_pinned_mut_ref(p: &TypePath) -> (r: Type) ensures r == pinned(*p) { unimplemented!() }
/// `Some(T)` for `Pin<&mut T>`.
pub uninterp spec fn pinned_mut(p: TypePath) -> Option<Type>;
#[verifier::external_body]
pub fn extract_pinned_mutable_reference_type(p: &TypePath) -> (r: Option<&Type>)
    ensures match r { Some(t) => pinned_mut(*p) == Some(*t), None => pinned_mut(*p) is None },
{ unimplemented!() }
pub struct IncludeCppConfig { pub unsafe_policy: UnsafePolicy, pub x: VxOpaque }
impl IncludeCppConfig {
    pub uninterp spec fn no_utilities(&self) -> bool;
    #[verifier::external_body]
    pub fn exclude_utilities(&self) -> (r: bool) ensures r == self.no_utilities() { unimplemented!() }
}
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalyzer
* => VxOpaque
only config pod_safe_types
pod_safe_types => HashSet<QualifiedName>
config => &'a IncludeCppConfig
@@end
/// Conversions which only the caller of argument_conversion_details may choose: they need a pointer.
pub open spec fn forceable(f: Option<RustConversionType>) -> bool {
    f is None || f->Some_0 is FromPinMaybeUninitToPtr || f->Some_0 is FromPinMoveRefToPtr || f->Some_0 is FromTypeToPtr || f->Some_0 is FromPlacementParamToNewReturn
}
impl<'a> FnAnalyzer<'a> {
    pub open spec fn wraps_refs(&self) -> bool { self.config.unsafe_policy is ReferencesWrappedAllFunctionsSafe }
    /// A C++ by-value parameter gets a value of its own; the caller's object is not passed.
    pub open spec fn by_value(&self, q: QualifiedName, t: Type, p: TypeConversionPolicy, simple: bool) -> bool {
        &&& p.unwrapped_type == t
        &&& if self.pod_safe_types@.contains(q) {
                // bitwise; what C++ cannot copy is moved out of the bridge's parameter
                p.rust_conversion is None && (if uncopyable(q) { p.cpp_conversion is Move } else { p.cpp_conversion is None })
            } else if str_like(q) && !self.config.no_utilities() {
                p.cpp_conversion is FromUniquePtrToValue && p.rust_conversion is FromStr
            } else if simple {
                p.cpp_conversion is FromUniquePtrToValue && p.rust_conversion is None
            } else {
                p.cpp_conversion is FromPtrToValue && p.rust_conversion is FromValueParamToPtr
            }
    }
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::argument_conversion_details
%fmt
%panics
%begin
    broadcast use rust_text;
    let ghost forced = force_rust_conversion;
%requires
    forceable(force_rust_conversion),
    // a conversion is forced, and a move constructor or rvalue reference claimed, only for pointers
    force_rust_conversion is Some ==> *annotated_type.ty is Ptr,
%ensures
    // the Rust wrapper hands over what the C++ wrapper expects
    coherent(r),
    ({
        let t = *annotated_type.ty;
        let dest = force_rust_conversion is Some && force_rust_conversion->Some_0 is FromPlacementParamToNewReturn && sophistication is Regular;
        let wrapped = self.wraps_refs() && force_rust_conversion is None;
        let is_ref = annotated_type.kind is Reference || is_self;
        if annotated_type.kind is SubclassHolder {
            r.cpp_conversion is Move && r.rust_conversion == RustConversionType::ToBoxedUpHolder(held_by(annotated_type.kind->SubclassHolder_0))
        } else if dest {
            // not passed on: it is where the result goes
            r.cpp_conversion is IgnoredPlacementPtrParameter && r.unwrapped_type == t && r.rust_conversion is FromPlacementParamToNewReturn
        } else {
            match t {
                Type::Path(p) => if wrapped && is_ref {
                        r.cpp_conversion is FromPointerToReference && r.rust_conversion is FromReferenceWrapperToPointer && r.unwrapped_type == ptr_to(true, pinned(p))
                    } else {
                        self.by_value(path_name(p), t, r, sophistication is SimpleForSubclasses)
                    },
                Type::Ptr(tp) => if is_move_constructor {
                        r.cpp_conversion is FromPtrToMove && r.unwrapped_type == t
                            && (match force_rust_conversion { Some(f) => r.rust_conversion == f, None => r.rust_conversion is None })
                    } else if annotated_type.kind is RValueReference {
                        r.cpp_conversion is FromPtrToValue && r.unwrapped_type == *tp.elem && r.rust_conversion is FromRValueParamToPtr
                    } else if wrapped && is_ref && !is_placement_return_destination {
                        r.cpp_conversion is FromPointerToReference && r.unwrapped_type == t && r.rust_conversion is FromReferenceWrapperToPointer
                    } else {
                        // the address itself
                        r.cpp_conversion is None && r.unwrapped_type == t
                            && (match force_rust_conversion { Some(f) => r.rust_conversion == f, None => r.rust_conversion is None })
                    },
                Type::Reference(tr) => if wrapped && !is_placement_return_destination {
                        r.cpp_conversion is FromPointerToReference && r.unwrapped_type == ptr_to(false, *tr.elem) && r.rust_conversion is FromReferenceWrapperToPointer
                    } else {
                        r.cpp_conversion is None && r.unwrapped_type == t && r.rust_conversion is None
                    },
                _ => r.cpp_conversion is None && r.unwrapped_type == t && r.rust_conversion is None,
            }
        }
    }),
@@end
}
impl TypeConversionPolicy {
// The result of a function returning a reference: its address, wrapped, with the same constness.
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs TypeConversionPolicy::return_reference_into_wrapper
%fmt
%panics
%begin
    broadcast use rust_text;
%ensures
    coherent(r),
    r.cpp_conversion is FromReferenceToPointer && r.rust_conversion is FromPointerToReferenceWrapper,
    ty is Reference ==> r.unwrapped_type == ptr_to(ty->Reference_0.mutability is Some, *ty->Reference_0.elem),
    ty is Path ==> pinned_mut(ty->Path_0) is Some && r.unwrapped_type == ptr_to(true, pinned_mut(ty->Path_0)->Some_0),
@@end
}

// ---- the Rust side ----------------------------------------------------------
pub uninterp spec fn ident_of(s: Seq<char>) -> Ident;
#[verifier::external_body]
pub fn make_ident<S: VxStr>(s: S) -> (r: Ident) ensures r == ident_of(s.vx_chars()) { unimplemented!() }
impl SubclassName {
    pub uninterp spec fn own_id(&self) -> Ident;
    pub uninterp spec fn holder_id(&self) -> Ident;
    #[verifier::external_body]
    pub fn id(&self) -> (r: Ident) ensures r == self.own_id() { unimplemented!() }
    #[verifier::external_body]
    pub fn holder(&self) -> (r: Ident) ensures r == self.holder_id() { unimplemented!() }
}
@@type engine/src/conversion/codegen_rs/mod.rs MaybeUnsafeStmt
@@end
@@type engine/src/conversion/codegen_rs/function_wrapper_rs.rs RustParamConversion
@@end
impl MaybeUnsafeStmt {
@@fn engine/src/conversion/codegen_rs/mod.rs MaybeUnsafeStmt::new
%ensures
    r == MaybeUnsafeStmt::Normal(stmt),
@@end
@@fn engine/src/conversion/codegen_rs/mod.rs MaybeUnsafeStmt::needs_unsafe
%ensures
    r == MaybeUnsafeStmt::NeedsUnsafe(stmt),
@@end
@@fn engine/src/conversion/codegen_rs/mod.rs MaybeUnsafeStmt::maybe_unsafe
%ensures
    r == (if needs_unsafe { MaybeUnsafeStmt::NeedsUnsafe(stmt) } else { MaybeUnsafeStmt::Normal(stmt) }),
@@end
@@fn engine/src/conversion/codegen_rs/mod.rs MaybeUnsafeStmt::binary
%ensures
    r == (MaybeUnsafeStmt::Binary { in_safe_context, in_unsafe_context }),
@@end
}
/// The n-th stack space of a wrapper.
pub open spec fn space(n: int) -> Tok { Tok::Id(ident_of(fmt1("space{}"@, num_text(n)))) }
pub open spec fn named(s: Seq<char>) -> Tok { Tok::Id(ident_of(s)) }
pub open spec fn stmt_is(s: MaybeUnsafeStmt, t: Tok) -> bool { s == MaybeUnsafeStmt::Normal(s->Normal_0) && s->Normal_0@ == t }
/// How the Rust wrapper passes `var` on.
pub open spec fn rust_expr(p: TypeConversionPolicy, var: Tok, n: int) -> Tok {
    match p.rust_conversion {
        RustConversionType::None => q1("#0"@, var),
        RustConversionType::FromStr => q1("#0 . into_cpp ( )"@, var),
        RustConversionType::ToBoxedUpHolder(sub) => q2("Box : : new ( #0 ( #1 ) )"@, Tok::Id(sub.holder_id()), var),
        RustConversionType::FromPinMaybeUninitToPtr => q1("#0 . get_unchecked_mut ( ) . as_mut_ptr ( )"@, var),
        RustConversionType::FromPinMoveRefToPtr => q1("{ let r : & mut _ = : : core : : pin : : Pin : : into_inner_unchecked ( #0 . as_mut ( ) ) ; r }"@, var),
        RustConversionType::FromTypeToPtr => q1("#0"@, var),
        RustConversionType::FromValueParamToPtr => q1("#0 . get_ptr ( )"@, space(n)),
        RustConversionType::FromRValueParamToPtr => q1("#0 . get_ptr ( )"@, space(n)),
        RustConversionType::FromPointerToReferenceWrapper =>
            q2("autocxx : : #0 : : from_ptr ( #1 )"@, named(if p.unwrapped_type->Ptr_0.mutability is Some { "CppMutLtRef"@ } else { "CppLtRef"@ }), var),
        RustConversionType::FromReferenceWrapperToPointer =>
            if p.unwrapped_type->Ptr_0.mutability is Some { q1("#0 . as_mut_ptr ( )"@, var) } else { q1("#0 . as_ptr ( )"@, var) },
        RustConversionType::FromPlacementParamToNewReturn => q1("#0"@, var),
    }
}
/// What the caller passes.
pub open spec fn rust_type(p: TypeConversionPolicy) -> Tok {
    let t = p.unwrapped_type;
    match p.rust_conversion {
        RustConversionType::None => Tok::Ty(bridge_type(t, cpp_takes(p.cpp_conversion))),
        RustConversionType::FromStr => q0("impl output : : ToCppString"@),
        RustConversionType::ToBoxedUpHolder(sub) => q1("autocxx : : subclass : : CppSubclassRustPeerHolder < super : : #0 >"@, Tok::Id(sub.own_id())),
        RustConversionType::FromPinMaybeUninitToPtr => q1(": : core : : pin : : Pin < & mut : : core : : mem : : MaybeUninit < #0 > >"@, Tok::Ty(*t->Ptr_0.elem)),
        RustConversionType::FromPinMoveRefToPtr => q1(": : core : : pin : : Pin < autocxx : : moveit : : MoveRef < ' _ , #0 > >"@, Tok::Ty(*t->Ptr_0.elem)),
        RustConversionType::FromTypeToPtr => q1("& mut #0"@, Tok::Ty(*t->Ptr_0.elem)),
        RustConversionType::FromValueParamToPtr => q2("impl autocxx : : #0 < #1 >"@, named("ValueParam"@), Tok::Ty(t)),
        RustConversionType::FromRValueParamToPtr => q2("impl autocxx : : #0 < #1 >"@, named("RValueParam"@), Tok::Ty(t)),
        RustConversionType::FromPointerToReferenceWrapper => if t->Ptr_0.mutability is Some { q1("autocxx : : CppMutLtRef < ' a , #0 >"@, Tok::Ty(*t->Ptr_0.elem)) } else { q1("autocxx : : CppLtRef < ' a , #0 >"@, Tok::Ty(*t->Ptr_0.elem)) },
        RustConversionType::FromReferenceWrapperToPointer => if t->Ptr_0.mutability is Some { q1("autocxx : : CppMutRef < #0 >"@, Tok::Ty(*t->Ptr_0.elem)) } else { q1("autocxx : : CppRef < #0 >"@, Tok::Ty(*t->Ptr_0.elem)) },
        RustConversionType::FromPlacementParamToNewReturn => Tok::Ty(t),
    }
}
pub open spec fn stacked(r: RustConversionType) -> bool { r is FromValueParamToPtr || r is FromRValueParamToPtr }
impl TypeConversionPolicy {
@@fn engine/src/conversion/codegen_rs/function_wrapper_rs.rs TypeConversionPolicy::rust_conversion
%fmt
%panics
%prerewrite? `elem . as_ref ()` => `&**elem`
%prerewrite? `* (* elem) . clone ()` => `(**elem).clone()`
%begin
    broadcast use rust_text;
    let ghost n0 = *counter;
%requires
    *old(counter) < usize::MAX,
%ensures
    // every by-value argument gets a stack space of its own
    *final(counter) == *old(counter) + (if stacked(self.rust_conversion) { 1int } else { 0 }),
    self.rust_conversion is FromPlacementParamToNewReturn <==> r is ReturnValue,
    r is ReturnValue ==> self.unwrapped_type is Ptr && r->ReturnValue_ty == *self.unwrapped_type->Ptr_0.elem,
    r is Param ==> r->Param_ty.tok() == rust_type(*self) && r->conversion@ == rust_expr(*self, var@, *old(counter) as int),
    // it is filled, once, from this argument and before the call
    r is Param && stacked(self.rust_conversion) ==> ({
        let v = r->local_variables@;
        let s = space(*old(counter) as int);
        let h = named(if self.rust_conversion is FromValueParamToPtr { "ValueParamHandler"@ } else { "RValueParamHandler"@ });
        &&& v.len() == 3
        &&& stmt_is(v[0], q2("let mut #0 = autocxx : : #1 : : default ( ) ;"@, s, h))
        &&& v[1] is Binary
        &&& v[1]->in_safe_context@ == q1("let mut #0 = unsafe { : : core : : pin : : Pin : : new_unchecked ( & mut #0 ) } ;"@, s)
        &&& v[1]->in_unsafe_context@ == q1("let mut #0 = : : core : : pin : : Pin : : new_unchecked ( & mut #0 ) ;"@, s)
        &&& v[2] is NeedsUnsafe
        &&& v[2]->NeedsUnsafe_0@ == q2("#0 . as_mut ( ) . populate ( #1 ) ;"@, s, var@)
    }),
    r is Param && !stacked(self.rust_conversion) ==> r->local_variables@.len() == 0,
    r is Param ==> (r->conversion_requires_unsafe <==> self.rust_conversion is FromPinMaybeUninitToPtr || self.rust_conversion is FromPinMoveRefToPtr),
@@end
}

// ---- the C++ wrapper function -----------------------------------------------
#[verifier::external_body]
pub struct Namespace { x: u8 }
impl Namespace {
    pub uninterp spec fn segments(&self) -> Seq<String>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.segments().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter<'b>(&'b self) -> (r: It<&'b String>)
        ensures r.pos() == 0, vx_derefs(r.all()) == self.segments(),
    { unimplemented!() }
}
impl Ident {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub struct CppEffectiveName { x: u8 }
impl CppEffectiveName {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string_for_cpp_generation(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
pub uninterp spec fn qn_of(ns: Namespace, id: Ident) -> QualifiedName;
impl QualifiedName {
    pub uninterp spec fn cpp_text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(ns: &Namespace, id: Ident) -> (r: QualifiedName) ensures r == qn_of(*ns, id) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_cpp_name(&self) -> (r: String) ensures r@ == self.cpp_text() { unimplemented!() }
}
impl CppNameMap {
    pub uninterp spec fn full(&self, q: QualifiedName) -> Seq<char>;
    pub uninterp spec fn last_item(&self, q: QualifiedName) -> Seq<char>;
    pub uninterp spec fn nested(&self, q: QualifiedName) -> bool;
    #[verifier::external_body]
    pub fn map(&self, q: &QualifiedName) -> (r: String) ensures r@ == self.full(*q) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_final_item<'b>(&'b self, q: &'b QualifiedName) -> (r: &'b str) ensures r@ == self.last_item(*q) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, q: &QualifiedName) -> (r: Option<VxOpaque>) ensures r is Some == self.nested(*q) { unimplemented!() }
}
@@type engine/src/conversion/codegen_cpp/mod.rs Header
@@end
@@type engine/src/conversion/codegen_cpp/mod.rs ConversionDirection
@@end
impl Clone for ConversionDirection { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ConversionDirection {}
@@type engine/src/conversion/codegen_cpp/mod.rs ExtraCpp
@@end
#[verifier::external_body]
pub fn vx_empty_extra() -> (r: ExtraCpp)
    ensures r.type_definition is None, r.declaration is None, r.definition is None, r.headers@.len() == 0, r.cpp_headers@.len() == 0,
{ unimplemented!() }
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunctionBody
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunctionKind
@@end
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunction
wrapper_function_name => Ident
@@end
@@type engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator
* => VxOpaque
only original_name_map additional_functions
original_name_map => CppNameMap
additional_functions => Vec<ExtraCpp>
generics <>
@@end
/// The conversion applied in this direction.
pub open spec fn inv(c: CppConversionType) -> CppConversionType {
    match c {
        CppConversionType::Move => CppConversionType::Move,
        CppConversionType::FromUniquePtrToValue => CppConversionType::FromValueToUniquePtr,
        CppConversionType::FromPtrToValue => CppConversionType::FromValueToUniquePtr,
        CppConversionType::FromValueToUniquePtr => CppConversionType::FromUniquePtrToValue,
        CppConversionType::FromPointerToReference => CppConversionType::FromReferenceToPointer,
        CppConversionType::FromReferenceToPointer => CppConversionType::FromPointerToReference,
        _ => CppConversionType::None,
    }
}
pub open spec fn inverted(p: TypeConversionPolicy) -> TypeConversionPolicy {
    TypeConversionPolicy { unwrapped_type: p.unwrapped_type, cpp_conversion: inv(p.cpp_conversion), rust_conversion: p.rust_conversion }
}
pub open spec fn is_method(d: CppFunction, avoid_this: bool) -> bool {
    !avoid_this && (d.kind is Method || d.kind is ConstMethod || d.kind is Constructor)
}
pub open spec fn arg_name(m: bool, i: int) -> Seq<char> { if m && i == 0 { "autocxx_gen_this"@ } else { fmt1("arg{}"@, num_text(i)) } }
/// What is passed on for parameter i.
pub open spec fn passed(p: TypeConversionPolicy, name: Seq<char>, dir: ConversionDirection, m: CppNameMap, is_return: bool) -> Option<Seq<char>> {
    match dir {
        ConversionDirection::RustCallsCpp => cpp_expr(p, name, m, is_return),
        ConversionDirection::CppCallsCpp => Some(if p.cpp_conversion is Move { moved(name) } else { name }),
        ConversionDirection::CppCallsRust => cpp_expr(inverted(p), name, m, is_return),
    }
}
/// In parameter order, everything but the place for the result.
pub open spec fn all_passed(s: Seq<TypeConversionPolicy>, meth: bool, dir: ConversionDirection, m: CppNameMap) -> Seq<Option<Seq<char>>> {
    Seq::new(s.len(), |i: int| passed(s[i], arg_name(meth, i), dir, m, false))
}

#[verifier::external_body]
pub fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// The type of parameter i of the C++ function.
pub open spec fn takes_type(p: TypeConversionPolicy, m: CppNameMap) -> Seq<char> { cpp_form_type(m.spelling(p.unwrapped_type), cpp_takes(p.cpp_conversion)) }
pub open spec fn param_type(p: TypeConversionPolicy, dir: ConversionDirection, m: CppNameMap) -> Seq<char> {
    match dir {
        ConversionDirection::RustCallsCpp => takes_type(p, m),
        ConversionDirection::CppCallsCpp => cpp_result_type(p, m),
        ConversionDirection::CppCallsRust => takes_type(inverted(p), m),
    }
}
pub open spec fn param_texts(d: CppFunction, meth: bool, dir: ConversionDirection, m: CppNameMap) -> Seq<Seq<char>> {
    Seq::new(d.argument_conversion@.len(), |i: int| fmt2("{} {}"@, param_type(d.argument_conversion@[i], dir, m), arg_name(meth, i)))
}
/// The parameters in which the result is to be built: the first of them is where it goes.
pub open spec fn places(s: Seq<TypeConversionPolicy>, meth: bool) -> Seq<Option<Seq<char>>> {
    Seq::new(s.len(), |i: int| if s[i].cpp_conversion is IgnoredPlacementPtrParameter { Some(arg_name(meth, i)) } else { None })
}
pub open spec fn place(s: Seq<TypeConversionPolicy>, meth: bool) -> Option<Seq<char>> {
    let a = vx_somes(places(s, meth));
    if a.len() > 0 { Some(a[0]) } else { None }
}
/// What is passed on, in order; of which the first is the object called, for a method.
pub open spec fn passed_on(d: CppFunction, meth: bool, dir: ConversionDirection, m: CppNameMap) -> Seq<Seq<char>> { vx_somes(all_passed(d.argument_conversion@, meth, dir, m)) }
pub open spec fn the_receiver(d: CppFunction, meth: bool, dir: ConversionDirection, m: CppNameMap) -> Option<Seq<char>> {
    let a = passed_on(d, meth, dir, m);
    if meth && a.len() > 0 { Some(a[0]) } else { None }
}
pub open spec fn the_args(d: CppFunction, meth: bool, dir: ConversionDirection, m: CppNameMap) -> Seq<char> {
    let a = passed_on(d, meth, dir, m);
    let b = if meth && a.len() > 0 { a.skip(1) } else { a };
    // the superclass's constructor does not get the Rust half
    let c = if d.payload is ConstructSuperclass && b.len() > 0 { b.skip(1) } else { b };
    if d.pass_obs_field { joined(","@, seq!["*obs"@] + c) } else { joined(", "@, c) }
}
pub open spec fn path_text(ns: Namespace, rest: Seq<Seq<char>>) -> Seq<char> { joined("::"@, texts(ns.segments()) + rest) }
/// The call itself.
pub open spec fn call_text(p: CppFunctionBody, recv: Option<Seq<char>>, args: Seq<char>, dir: ConversionDirection, m: CppNameMap) -> Seq<char> {
    match p {
        CppFunctionBody::Cast => args,
        CppFunctionBody::PlacementNew(ns, id) => fmt3("new ({}) {}({})"@, recv->Some_0, m.full(qn_of(ns, id)), args),
        CppFunctionBody::Destructor(ns, id) => destroy_text(qn_of(ns, id), ns, args, m),
        CppFunctionBody::FunctionCall(ns, id) => match recv {
            Some(o) => fmt3("{}.{}({})"@, o, id.text(), args),
            None => fmt3("{}{}({})"@, if dir is RustCallsCpp && ns.segments().len() == 0 { "::"@ } else { ""@ }, path_text(ns, seq![id.text()]), args),
        },
        CppFunctionBody::StaticMethodCall(ns, ty, id) => fmt2("{}({})"@, path_text(ns, seq![ty.text(), id.text()]), args),
        CppFunctionBody::ConstructSuperclass(_) => ""@,
        CppFunctionBody::AllocUninitialized(ty) => fmt1("new_appropriately<{}>();"@, m.full(ty)),
        CppFunctionBody::FreeUninitialized(ty) => fmt1("delete_appropriately<{}>(arg0);"@, m.full(ty)),
    }
}
pub open spec fn destroy_text(q: QualifiedName, ns: Namespace, obj: Seq<char>, m: CppNameMap) -> Seq<char> {
    let t = m.last_item(q);
    let call = fmt3("{}->{}::~{}()"@, obj, t, t);
    if ns.segments().len() == 0 { call }
    else if m.nested(q) { fmt4("{{ using {} = {}; {}; {}* pointless; (void)pointless; }}"@, t, m.full(q), call, t) }
    else { fmt2("{{ using {}; {}; }}"@, m.full(q), call) }
}
pub open spec fn ret_text(p: Option<TypeConversionPolicy>, dir: ConversionDirection, m: CppNameMap, default: Seq<char>) -> Seq<char> {
    match p {
        None => default,
        Some(p) => match dir {
            // a result which is built in place is not returned
            ConversionDirection::RustCallsCpp => if p.cpp_conversion is FromReturnValueToPlacementPtr { default } else { cpp_result_type(p, m) },
            ConversionDirection::CppCallsCpp => takes_type(p, m),
            ConversionDirection::CppCallsRust => cpp_result_type(inverted(p), m),
        },
    }
}
/// The result of the call, converted; built in its place, or returned.
pub open spec fn outcome_text(p: Option<TypeConversionPolicy>, call: Seq<char>, place: Option<Seq<char>>, dir: ConversionDirection, m: CppNameMap) -> Seq<char> {
    match p {
        None => call,
        Some(p) => {
            let v = if dir is CppCallsCpp { call } else { passed(p, call, dir, m, true)->Some_0 };
            match place {
                Some(x) => fmt3("new({}) {}({})"@, x, m.spelling(p.unwrapped_type), v),
                None => fmt1("return {}"@, v),
            }
        }
    }
}
/// A constructor of a subclass: its superclass's constructor gets the arguments, and `obs` the Rust half.
pub open spec fn inits_text(p: CppFunctionBody, supers: Seq<char>) -> Seq<char> {
    match p {
        CppFunctionBody::ConstructSuperclass(n) => fmt1(": {}obs(std::move(arg0))"@, if supers.len() == 0 { ""@ } else { fmt2("{}({}), "@, n@, supers) }),
        _ => ""@,
    }
}
pub open spec fn body_text(d: CppFunction, call: Seq<char>, place: Option<Seq<char>>, supers: Seq<char>, dir: ConversionDirection, m: CppNameMap) -> Seq<char> {
    let o = outcome_text(d.return_conversion, call, place, dir, m);
    fmt2("{} {{ {} }}"@, inits_text(d.payload, supers), if o.len() == 0 { o } else { fmt1("{};"@, o) })
}
pub open spec fn sig_text(d: CppFunction, avoid_this: bool, qualification: Seq<char>, qualified: bool, name: Seq<char>, dir: ConversionDirection, m: CppNameMap) -> Seq<char> {
    let ret = ret_text(d.return_conversion, dir, m, if d.kind is SynthesizedConstructor { ""@ } else { "void"@ });
    let params = joined(", "@, param_texts(d, is_method(d, avoid_this), dir, m));
    let c = if d.kind is ConstMethod { " const"@ } else { ""@ };
    if qualified { fmt5("{} {}{}({}){}"@, ret, qualification, name, params, c) } else { fmt4("{} {}({}){}"@, ret, name, params, c) }
}
/// The C++ function: its signature, and the call it makes.
pub open spec fn function_body(d: CppFunction, avoid_this: bool, dir: ConversionDirection, m: CppNameMap) -> Seq<char> {
    let meth = is_method(d, avoid_this);
    let recv = the_receiver(d, meth, dir, m);
    let args = the_args(d, meth, dir, m);
    body_text(d, call_text(d.payload, recv, args, dir, m), place(d.argument_conversion@, meth), if d.payload is ConstructSuperclass { args } else { ""@ }, dir, m)
}
pub open spec fn decl_text(d: CppFunction, avoid_this: bool, dir: ConversionDirection, separate: bool, name: Seq<char>, m: CppNameMap) -> Seq<char> {
    let decl = sig_text(d, avoid_this, ""@, false, name, dir, m);
    if separate { fmt1("{};"@, decl) } else { fmt2("inline {} {}"@, decl, function_body(d, avoid_this, dir, m)) }
}
pub open spec fn def_text(d: CppFunction, avoid_this: bool, dir: ConversionDirection, separate: bool, name: Seq<char>, m: CppNameMap) -> Option<Seq<char>> {
    let q = match d.qualification { Some(q) => fmt1("{}::"@, q.cpp_text()), None => ""@ };
    if separate { Some(fmt2("{} {}"@, sig_text(d, avoid_this, q, true, name, dir, m), function_body(d, avoid_this, dir, m))) } else { None }
}
/// A piece of generated C++: type definition, declaration, definition.
pub struct Piece { pub ty: Option<Seq<char>>, pub decl: Option<Seq<char>>, pub def: Option<Seq<char>> }
pub open spec fn piece(e: ExtraCpp) -> Piece { Piece { ty: opt_text(e.type_definition), decl: opt_text(e.declaration), def: opt_text(e.definition) } }
pub open spec fn pieces(s: Seq<ExtraCpp>) -> Seq<Piece> { Seq::new(s.len(), |i: int| piece(s[i])) }
pub broadcast proof fn lemma_pieces_push(s: Seq<ExtraCpp>, x: ExtraCpp) ensures #[trigger] pieces(s.push(x)) == pieces(s).push(piece(x)) { assert(pieces(s.push(x)) =~= pieces(s).push(piece(x))); }
pub open spec fn function_piece(d: CppFunction, avoid_this: bool, dir: ConversionDirection, separate: bool, name: Seq<char>, m: CppNameMap) -> Piece {
    Piece { ty: None, decl: Some(decl_text(d, avoid_this, dir, separate, name, m)), def: def_text(d, avoid_this, dir, separate, name, m) }
}
/// Without its declaration, which stands in the class.
pub open spec fn outside_class(p: Piece) -> Piece { Piece { decl: None, ..p } }
@@type engine/src/conversion/codegen_cpp/mod.rs SubclassFunction
@@end
impl Clone for Namespace { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CppEffectiveName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl QualifiedName { pub uninterp spec fn shown(&self) -> Seq<char>; }
impl VxStr for QualifiedName { open spec fn vx_chars(&self) -> Seq<char> { self.shown() } }
impl Clone for CppFunction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl QualifiedName {
    pub uninterp spec fn ns(&self) -> Namespace;
    #[verifier::external_body]
    pub fn get_namespace(&self) -> (r: &Namespace) ensures *r == self.ns() { unimplemented!() }
}
/// The name of the function which calls the superclass's own implementation.
pub uninterp spec fn super_fn(ns: Namespace, name: Seq<char>) -> QualifiedName;
impl SubclassName {
    pub uninterp spec fn cpp_s(&self) -> QualifiedName;
    pub uninterp spec fn cpp_remove_s(&self) -> Ident;
    pub uninterp spec fn remove_s(&self) -> Ident;
    #[verifier::external_body]
    pub fn cpp(&self) -> (r: QualifiedName) ensures r == self.cpp_s() { unimplemented!() }
    #[verifier::external_body]
    pub fn cpp_remove_ownership(&self) -> (r: Ident) ensures r == self.cpp_remove_s() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_ownership(&self) -> (r: Ident) ensures r == self.remove_s() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_super_fn_name(ns: &Namespace, id: &str) -> (r: QualifiedName) ensures r == super_fn(*ns, id@) { unimplemented!() }
}
/// The superclass's own implementation, called by name and so not virtually.
pub open spec fn super_of(f: CppFunction, sup: QualifiedName) -> CppFunction {
    CppFunction {
        pass_obs_field: false,
        wrapper_function_name: super_fn(sup.ns(), f.wrapper_function_name.text()).final_ident(),
        payload: CppFunctionBody::StaticMethodCall(sup.ns(), sup.final_ident(), f.original_cpp_name),
        ..f
    }
}
/// The override, which calls Rust.
pub open spec fn override_piece(f: CppFunction, m: CppNameMap) -> Piece { function_piece(f, true, ConversionDirection::CppCallsRust, true, f.original_cpp_name.text(), m) }
pub open spec fn super_piece(f: CppFunction, sup: QualifiedName, m: CppNameMap) -> Piece {
    let s = super_of(f, sup);
    function_piece(s, true, ConversionDirection::CppCallsCpp, false, s.wrapper_function_name.text(), m)
}
pub open spec fn method_pieces(ms: Seq<SubclassFunction>, sup: QualifiedName, m: CppNameMap, n: int) -> Seq<Piece> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = method_pieces(ms, sup, m, n - 1).push(outside_class(override_piece(*ms[n - 1].fun, m)));
        if ms[n - 1].is_pure_virtual { a } else { a.push(outside_class(super_piece(*ms[n - 1].fun, sup, m))) }
    }
}
pub open spec fn method_lines(ms: Seq<SubclassFunction>, sup: QualifiedName, m: CppNameMap, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = method_lines(ms, sup, m, n - 1).push(override_piece(*ms[n - 1].fun, m).decl->Some_0);
        if ms[n - 1].is_pure_virtual { a } else { a.push(super_piece(*ms[n - 1].fun, sup, m).decl->Some_0) }
    }
}
pub open spec fn ctor_piece(c: CppFunction, m: CppNameMap) -> Piece { function_piece(c, false, ConversionDirection::CppCallsCpp, false, c.wrapper_function_name.text(), m) }
pub open spec fn ctor_pieces(cs: Seq<&CppFunction>, m: CppNameMap, n: int) -> Seq<Piece> { Seq::new(n as nat, |i: int| outside_class(ctor_piece(*cs[i], m))) }
pub open spec fn ctor_lines(cs: Seq<&CppFunction>, m: CppNameMap, n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| ctor_piece(*cs[i], m).decl->Some_0) }
pub open spec fn upcast_lines(sup: QualifiedName) -> Seq<Seq<char>> {
    let n = sup.final_item();
    seq![fmt2("const {}& As_{}() const {{ return *this; }}"@, n, n), fmt2("{}& As_{}_mut() {{ return *this; }}"@, n, n)]
}
pub open spec fn upcast_piece(sub: SubclassName, sup: QualifiedName) -> Piece {
    Piece { ty: None, decl: Some(fmt5("inline std::unique_ptr<{}> {}_As_{}_UniquePtr(std::unique_ptr<{}> u) {{ return std::unique_ptr<{}>(u.release()); }}"@, sup.cpp_text(), sub.cpp_s().shown(), sup.final_item(), sub.cpp_s().shown(), sup.cpp_text())), def: None }
}
pub open spec fn holder_piece(sub: SubclassName) -> Piece { Piece { ty: Some(fmt1("struct {};"@, sub.holder_id().text())), decl: None, def: None } }
pub open spec fn class_piece(sub: SubclassName, sup: QualifiedName, ctors: Seq<Seq<char>>, methods: Seq<Seq<char>>) -> Piece {
    let c = sub.cpp_s().shown();
    Piece {
        ty: Some(fmt6("class {} : public {}\n{{\npublic:\n{}\n{}\nvoid {}() const;\nprivate:rust::Box<{}> obs;\nvoid really_remove_ownership();\n\n}};"@, c, sup.cpp_text(), joined("\n"@, ctors), joined("\n"@, methods), sub.cpp_remove_s().text(), sub.holder_id().text())),
        decl: None,
        def: Some(fmt5("void {}::{}() const {{\nconst_cast<{}*>(this)->really_remove_ownership();\n}}\nvoid {}::really_remove_ownership() {{\nauto new_obs = {}(std::move(obs));\nobs = std::move(new_obs);\n}}\n"@, c, sub.cpp_remove_s().text(), c, c, sub.remove_s().text())),
    }
}
/// One override for each virtual method, one way to the superclass's own for each which has one, one
/// constructor for each of the superclass.
pub open spec fn subclass_pieces(sup: QualifiedName, sub: SubclassName, cs: Seq<&CppFunction>, ms: Seq<SubclassFunction>, m: CppNameMap) -> Seq<Piece> {
    seq![holder_piece(sub)] + method_pieces(ms, sup, m, ms.len() as int) + seq![upcast_piece(sub, sup)] + ctor_pieces(cs, m, cs.len() as int)
        + seq![class_piece(sub, sup, ctor_lines(cs, m, cs.len() as int), method_lines(ms, sup, m, ms.len() as int) + upcast_lines(sup))]
}
pub broadcast proof fn lemma_cat_push<T>(a: Seq<T>, b: Seq<T>, x: T) ensures #[trigger] (a + b).push(x) == a + b.push(x) { assert((a + b).push(x) =~= a + b.push(x)); }
pub open spec fn place_at(p: TypeConversionPolicy, meth: bool, i: int) -> Option<Seq<char>> { if p.cpp_conversion is IgnoredPlacementPtrParameter { Some(arg_name(meth, i)) } else { None } }
pub broadcast proof fn lemma_places<'a, F: Fn((usize, &'a TypeConversionPolicy)) -> Option<String>>(all: Seq<(usize, &'a TypeConversionPolicy)>, f: F, o: Seq<Option<String>>, r: Seq<String>, s: Seq<TypeConversionPolicy>, meth: bool)
    requires #[trigger] vx_fm(all, f, o, r), all.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] all[i]).0 == i && *all[i].1 == s[i],
        forall|a: (usize, &'a TypeConversionPolicy), c: Option<String>| #[trigger] f.ensures((a,), c) ==> opt_text(c) == place_at(*a.1, meth, a.0 as int),
    ensures texts(r) == vx_somes(#[trigger] places(s, meth)),
{
    assert(opt_texts(o) =~= places(s, meth)) by { assert forall|i: int| 0 <= i < s.len() implies opt_texts(o)[i] == places(s, meth)[i] by { assert(f.ensures((all[i],), o[i])); } }
    lemma_somes_text(o);
}
pub broadcast proof fn lemma_texts_once(s: Seq<String>) requires s.len() == 1 ensures #[trigger] texts(s) == seq![s[0]@] { assert(texts(s) =~= seq![s[0]@]); }
pub broadcast proof fn lemma_texts_two(s: Seq<String>) requires s.len() == 2 ensures #[trigger] texts(s) == seq![s[0]@, s[1]@] { assert(texts(s) =~= seq![s[0]@, s[1]@]); }
impl CppCodeGenerator {
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::namespaced_name
%ret r
%ensures
    r@ == self.original_name_map.full(*name),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice let is_a_method
%sig
pub fn vx_is_a_method(avoid_this: bool, details: &CppFunction) -> (r: bool)
%ensures
    r == is_method(*details, avoid_this),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice let name
%prerewrite? `n . to_string_for_cpp_generation () . to_string ()` => `vx_own(n.to_string_for_cpp_generation())`
%sig
pub fn vx_name(force_name: Option<&CppEffectiveName>, details: &CppFunction) -> (r: String)
%ensures
    r@ == (match force_name { Some(n) => n.text(), None => details.wrapper_function_name.text() }),
@@end
}
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice closure get_arg_name
%fmt
%prerewrite? `if is_a_method` => `if * is_a_method`
%sig
pub fn get_arg_name(is_a_method: &bool, counter: usize) -> (r: String)
%ensures
    r@ == arg_name(*is_a_method, counter as int),
@@end
impl CppCodeGenerator {
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice `let args : Result` .. `let args = args ?` => `Ok(args)`
%fmt
%panics
%hoisted? get_arg_name &is_a_method
%sig
pub fn vx_params(&self, details: &CppFunction, is_a_method: bool, conversion_direction: ConversionDirection) -> (r: Result<String, ConvertErrorFromCpp>)
%closure 0
 -> (cr: Result<String, ConvertErrorFromCpp>) ensures cr is Ok ==> cr->Ok_0@ == fmt2("{} {}"@, param_type(*vx_p0_0.1, conversion_direction, self.original_name_map), arg_name(is_a_method, vx_p0_0.0 as int))
%begin
    broadcast use cpp_text, text_seqs;
%after `let args : Result`
    proof { if args is Ok { assert(texts(args->Ok_0@) =~= param_texts(*details, is_a_method, conversion_direction, self.original_name_map)); } }
%ensures
    r is Ok ==> r->Ok_0@ == joined(", "@, param_texts(*details, is_a_method, conversion_direction, self.original_name_map)),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice `let arg_list : Result` .. `let arg_list = if details . pass_obs_field` => `Ok((receiver, arg_list))`
%fmt
%panics
%hoisted? get_arg_name &is_a_method
%sig
pub fn vx_args(&self, details: &CppFunction, is_a_method: bool, conversion_direction: ConversionDirection) -> (r: Result<(Option<String>, String), ConvertErrorFromCpp>)
%closure 0
 -> (cr: Result<Option<String>, ConvertErrorFromCpp>) ensures cr is Ok ==> opt_text(cr->Ok_0) == passed(*vx_p0_0.1, arg_name(is_a_method, vx_p0_0.0 as int), conversion_direction, self.original_name_map, false)
%begin
    broadcast use cpp_text, text_seqs, lemma_texts_once;
%after `let arg_list : Result`
    proof { if arg_list is Ok { assert(opt_texts(arg_list->Ok_0@) =~= all_passed(details.argument_conversion@, is_a_method, conversion_direction, self.original_name_map)); lemma_somes_text(arg_list->Ok_0@); } }
%ensures
    r is Ok ==> opt_text(r->Ok_0.0) == the_receiver(*details, is_a_method, conversion_direction, self.original_name_map)
        && r->Ok_0.1@ == the_args(*details, is_a_method, conversion_direction, self.original_name_map),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice let (mut underlying_function_call, field_assignments, need_allocators)
%fmt
%panics
%prerewrite? `fn_id . to_string_for_cpp_generation () . to_string ()` => `vx_own(fn_id.to_string_for_cpp_generation())`
%prerewrite? `once (id . to_string_for_cpp_generation () . to_string ())` => `once (vx_own(id.to_string_for_cpp_generation()))`
%prerewrite? `once (id . to_string_for_cpp_generation () . to_string () ,)` => `once (vx_own(id.to_string_for_cpp_generation()))`
%sig
pub fn vx_call(&self, details: &CppFunction, receiver: Option<String>, arg_list: String, conversion_direction: ConversionDirection) -> (r: (String, String, bool))
%begin
    broadcast use text_seqs, lemma_texts_once, lemma_texts_two;
%ensures
    r.0@ == call_text(details.payload, opt_text(receiver), arg_list@, conversion_direction, self.original_name_map),
    details.payload is PlacementNew ==> receiver is Some,
    r.1@ == (if details.payload is ConstructSuperclass { arg_list@ } else { ""@ }),
    r.2 == (details.payload is AllocUninitialized || details.payload is FreeUninitialized),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice let placement_param
%hoisted? get_arg_name &is_a_method
%sig
pub fn vx_place(&self, details: &CppFunction, is_a_method: bool) -> (r: Option<String>)
%closure 0
 -> (cr: Option<String>) ensures opt_text(cr) == place_at(*vx_p0_0.1, is_a_method, vx_p0_0.0 as int)
%begin
    broadcast use cpp_text, lemma_places;
%ensures
    opt_text(r) == place(details.argument_conversion@, is_a_method),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice `let ret_type =` .. `let ret_type =` => `Ok(ret_type)`
%closure 0
 -> (cr: Option<Result<String, ConvertErrorFromCpp>>) ensures match cr { Some(t) => t is Ok ==> t->Ok_0@ == ret_text(Some(*x), conversion_direction, self.original_name_map, default_return@), None => ret_text(Some(*x), conversion_direction, self.original_name_map, default_return@) == default_return@ }
%closure 1
 -> (cr: Result<String, ConvertErrorFromCpp>) ensures cr is Ok && cr->Ok_0@ == default_return@
%sig
pub fn vx_ret_type(&self, details: &CppFunction, conversion_direction: ConversionDirection, default_return: &str) -> (r: Result<String, ConvertErrorFromCpp>)
%ensures
    r is Ok ==> r->Ok_0@ == ret_text(details.return_conversion, conversion_direction, self.original_name_map, default_return@),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%slice `if let Some(ret) = & details . return_conversion` .. `let definition_after_sig` => `Ok(definition_after_sig)`
%fmt
%panics
%prerewrite? `"" . into ()` => `"" . to_string ()`
%sig
pub fn vx_body(&self, details: &CppFunction, placement_param: Option<String>, mut underlying_function_call: String, field_assignments: String, conversion_direction: ConversionDirection) -> (r: Result<String, ConvertErrorFromCpp>)
%ensures
    r is Ok ==> r->Ok_0@ == body_text(*details, underlying_function_call@, opt_text(placement_param), field_assignments@, conversion_direction, self.original_name_map),
@@end
// The whole: those parts, put together.
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function_inner
%fmt
%panics
%prerewrite? `Default :: default ()` => `vx_empty_extra()`
%outline `is_a_method` => `Self::vx_is_a_method(avoid_this, details)`
%outline `name` => `Self::vx_name(force_name, details)`
%hoisted get_arg_name &is_a_method
%outlined `let args : Result` .. `let args = args ?` => `let args = self.vx_params(details, is_a_method, conversion_direction)?;`
%outlined `let ret_type =` .. `let ret_type =` => `let ret_type = self.vx_ret_type(details, conversion_direction, default_return)?;`
%outline `placement_param` => `self.vx_place(details, is_a_method)`
%outlined `let arg_list : Result` .. `let arg_list = if details . pass_obs_field` => `let (receiver, arg_list) = self.vx_args(details, is_a_method, conversion_direction)?;`
%outline `(mut underlying_function_call, field_assignments, need_allocators)` => `self.vx_call(details, receiver, arg_list, conversion_direction)`
%outlined `if let Some(ret) = & details . return_conversion` .. `let definition_after_sig` => `let definition_after_sig = self.vx_body(details, placement_param, underlying_function_call, field_assignments, conversion_direction)?;`
%ensures
    r is Ok ==> piece(r->Ok_0) == function_piece(*details, avoid_this, conversion_direction, requires_rust_declarations, match force_name { Some(n) => n.text(), None => details.wrapper_function_name.text() }, self.original_name_map),
@@end
// What Rust calls.
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_function
%ret r
%begin
    broadcast use lemma_pieces_push;
%ensures
    final(self).original_name_map == old(self).original_name_map,
    r is Ok ==> pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@).push(function_piece(*details, false, ConversionDirection::RustCallsCpp, false, details.wrapper_function_name.text(), old(self).original_name_map)),
@@end
// A class which C++ sees as a subclass, and which calls Rust.
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_subclass
%ret r
%fmt
%panics
%nloops 2
%prerewrite? `Default :: default ()` => `vx_empty_extra()`
%begin
    broadcast use lemma_pieces_push, lemma_cat_push, text_seqs;
    let ghost ms = methods@;
    let ghost cs = constructors@;
    let ghost m = self.original_name_map;
    let ghost start = pieces(self.additional_functions@).push(holder_piece(*subclass));
%loop 0
 invariant self.original_name_map == m,
    __it0.all() == ms,
    pieces(self.additional_functions@) == start + method_pieces(ms, *superclass, m, __it0.pos()),
    texts(method_decls@) == method_lines(ms, *superclass, m, __it0.pos()),
%loopend 0
    proof {
        let all = self.additional_functions@;
        if method.is_pure_virtual { lemma_pieces_push(all.drop_last(), all.last()); assert(all =~= all.drop_last().push(all.last())); }
        else {
            let b = all.drop_last();
            lemma_pieces_push(b, all.last()); assert(all =~= b.push(all.last()));
            lemma_pieces_push(b.drop_last(), b.last()); assert(b =~= b.drop_last().push(b.last()));
        }
        let p = __it0.pos() - 1;
        assert(*method.fun == *ms[p].fun);
        assert(method_pieces(ms, *superclass, m, p + 1) == if ms[p].is_pure_virtual { method_pieces(ms, *superclass, m, p).push(outside_class(override_piece(*ms[p].fun, m))) } else { method_pieces(ms, *superclass, m, p).push(outside_class(override_piece(*ms[p].fun, m))).push(outside_class(super_piece(*ms[p].fun, *superclass, m))) });
        let x = outside_class(override_piece(*ms[p].fun, m));
        let y = outside_class(super_piece(*ms[p].fun, *superclass, m));
        if method.is_pure_virtual {
            assert(piece(all.last()) == x);
            assert(pieces(all) == pieces(all.drop_last()).push(x));
            assert(pieces(all.drop_last()) == start + method_pieces(ms, *superclass, m, p));
            lemma_cat_push(start, method_pieces(ms, *superclass, m, p), x);
        } else {
            assert(piece(all.last()) == y);
            assert(piece(all.drop_last().last()) == x);
            assert(pieces(all.drop_last().drop_last()) == start + method_pieces(ms, *superclass, m, p));
            assert(pieces(all) == pieces(all.drop_last().drop_last()).push(x).push(y));
            lemma_cat_push(start, method_pieces(ms, *superclass, m, p), x);
            lemma_cat_push(start, method_pieces(ms, *superclass, m, p).push(x), y);
        }
        assert(pieces(self.additional_functions@) =~= start + method_pieces(ms, *superclass, m, __it0.pos()));
        assert(texts(method_decls@) =~= method_lines(ms, *superclass, m, __it0.pos()));
    }
%loopend 1
    proof {
        let p = __it1.pos() - 1;
        assert(*constructor == *cs[p]);
        assert(fn_impl.declaration is None);
        assert(self.additional_functions@.last() == fn_impl);
        assert(piece(fn_impl) == outside_class(ctor_piece(*cs[p], m)));
        let before = self.additional_functions@.drop_last();
        assert(self.additional_functions@ == before.push(fn_impl));
        lemma_pieces_push(before, fn_impl);
        assert(pieces(self.additional_functions@) == pieces(before).push(piece(fn_impl)));
        assert(pieces(before) == start + method_pieces(ms, *superclass, m, ms.len() as int) + seq![upcast_piece(*subclass, *superclass)] + ctor_pieces(cs, m, p));
        assert(ctor_pieces(cs, m, p + 1) =~= ctor_pieces(cs, m, p).push(outside_class(ctor_piece(*cs[p], m))));
        assert(ctor_lines(cs, m, p + 1) =~= ctor_lines(cs, m, p).push(ctor_piece(*cs[p], m).decl->Some_0));
        assert(pieces(self.additional_functions@) =~= start + method_pieces(ms, *superclass, m, ms.len() as int) + seq![upcast_piece(*subclass, *superclass)] + ctor_pieces(cs, m, __it1.pos()));
        assert(texts(constructor_decls@) =~= ctor_lines(cs, m, __it1.pos()));
    }
%loop 1
 invariant self.original_name_map == m,
    __it1.all() == cs,
    pieces(self.additional_functions@) == start + method_pieces(ms, *superclass, m, ms.len() as int) + seq![upcast_piece(*subclass, *superclass)] + ctor_pieces(cs, m, __it1.pos()),
    texts(constructor_decls@) == ctor_lines(cs, m, __it1.pos()),
    texts(method_decls@) == method_lines(ms, *superclass, m, ms.len() as int) + upcast_lines(*superclass),
%ensures
    r is Ok ==> pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@) + subclass_pieces(*superclass, *subclass, constructors@, methods@, old(self).original_name_map),
@@end
}

// ---- the Rust wrapper function ----------------------------------------------
@@type engine/src/conversion/api.rs UnsafetyNeeded
@@end
#[verifier::external_body]
pub struct Pat { x: u8 }
impl Pat { pub uninterp spec fn view(&self) -> Tok; }
impl VxTok for Pat { open spec fn tok(&self) -> Tok { self.view() } }
impl Clone for Pat { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Pat {
    #[verifier::external_body]
    pub fn to_token_stream(&self) -> (r: TokenStream) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct FnArg { x: u8 }
impl FnArg { pub uninterp spec fn view(&self) -> Tok; }
impl VxTok for FnArg { open spec fn tok(&self) -> Tok { self.view() } }
impl Clone for FnArg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct ReturnType { x: u8 }
impl ReturnType { pub uninterp spec fn view(&self) -> Tok; }
impl VxTok for ReturnType { open spec fn tok(&self) -> Tok { self.view() } }
pub struct Mut;
impl VxTok for Mut { open spec fn tok(&self) -> Tok { q0("mut"@) } }
@@type engine/src/conversion/analysis/fun/mod.rs ArgumentAnalysis
* => VxOpaque
keep conversion name self_type is_placement_return_destination
only conversion name self_type is_placement_return_destination
name => Pat
self_type => Option<VxOpaque>
@@end
@@type engine/src/conversion/codegen_rs/fun_codegen.rs FnGenerator
* => VxOpaque
only param_details ret_conversion ret_type cxxbridge_name unsafety always_unsafe_due_to_trait_definition non_pod_types
param_details => &'a Vec<ArgumentAnalysis>
ret_type => &'a ReturnType
cxxbridge_name => &'a Ident
ret_conversion => &'a Option<TypeConversionPolicy>
unsafety => &'a UnsafetyNeeded
always_unsafe_due_to_trait_definition => bool
non_pod_types => &'a HashSet<QualifiedName>
@@end
/// A sequence of statements, in order; those which need it in an unsafe block (unless everything is in one).
pub uninterp spec fn stmts(s: Seq<MaybeUnsafeStmt>, in_unsafe: bool) -> Tok;
#[verifier::external_body]
pub fn maybe_unsafes_to_tokens(items: Vec<MaybeUnsafeStmt>, context_is_already_unsafe: bool) -> (r: TokenStream) ensures r@ == stmts(items@, context_is_already_unsafe) { unimplemented!() }
/// Lifetimes are added to types; the number and order of parameters stay.
#[verifier::external_body]
pub fn add_explicit_lifetime_if_necessary(ps: &Vec<ArgumentAnalysis>, params: Vec<FnArg>, ret: ReturnType, non_pod: &HashSet<QualifiedName>, conv: &Option<TypeConversionPolicy>) -> (r: (Option<TokenStream>, Vec<FnArg>, ReturnType))
    ensures r.1@ == lifetimed(ps@, params@), r.1@.len() == params@.len(),
{ unimplemented!() }
pub uninterp spec fn lifetimed(ps: Seq<ArgumentAnalysis>, w: Seq<FnArg>) -> Seq<FnArg>;
#[verifier::external_body]
pub fn vx_any_ret(r: Option<ReturnType>) -> ReturnType { unimplemented!() }
impl RustConversionType {
@@fn engine/src/conversion/analysis/fun/function_wrapper.rs RustConversionType::requires_mutability
%fmt
%sig
pub fn requires_mutability(&self) -> (r: Option<Mut>)
%prerewrite? `parse_quote ! { mut }` => `Mut`
%ensures
    r is Some <==> self is FromPinMoveRefToPtr,
@@end
}
pub open spec fn own_place(p: ArgumentAnalysis) -> bool { p.conversion.rust_conversion is FromPlacementParamToNewReturn }
pub open spec fn var_of(p: ArgumentAnalysis, avoid_self: bool) -> Tok { if p.self_type is Some && !avoid_self { q0("self"@) } else { p.name@ } }
pub open spec fn spaces(s: Seq<ArgumentAnalysis>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { spaces(s, n - 1) + (if stacked(s[n - 1].conversion.rust_conversion) { 1int } else { 0 }) } }
/// Argument i of the call into the bridge.
pub open spec fn bridge_arg(s: Seq<ArgumentAnalysis>, i: int, avoid_self: bool) -> Tok {
    if own_place(s[i]) { s[i].name@ } else { rust_expr(s[i].conversion, q1("#0"@, var_of(s[i], avoid_self)), spaces(s, i)) }
}
pub open spec fn bridge_args(s: Seq<ArgumentAnalysis>, avoid_self: bool) -> Seq<Tok> { Seq::new(s.len(), |i: int| bridge_arg(s, i, avoid_self)) }
/// The statements which put by-value argument i where C++ can move it from.
pub open spec fn fills(a: MaybeUnsafeStmt, b: MaybeUnsafeStmt, c: MaybeUnsafeStmt, p: TypeConversionPolicy, var: Tok, n: int) -> bool {
    let s = space(n);
    let h = named(if p.rust_conversion is FromValueParamToPtr { "ValueParamHandler"@ } else { "RValueParamHandler"@ });
    &&& stmt_is(a, q2("let mut #0 = autocxx : : #1 : : default ( ) ;"@, s, h))
    &&& b is Binary
    &&& b->in_safe_context@ == q1("let mut #0 = unsafe { : : core : : pin : : Pin : : new_unchecked ( & mut #0 ) } ;"@, s)
    &&& b->in_unsafe_context@ == q1("let mut #0 = : : core : : pin : : Pin : : new_unchecked ( & mut #0 ) ;"@, s)
    &&& c is NeedsUnsafe
    &&& c->NeedsUnsafe_0@ == q2("#0 . as_mut ( ) . populate ( #1 ) ;"@, s, var)
}
pub open spec fn filled(locals: Seq<MaybeUnsafeStmt>, s: Seq<ArgumentAnalysis>, avoid_self: bool, n: int) -> bool {
    &&& locals.len() == 3 * spaces(s, n)
    &&& forall|i: int| 0 <= i < n && stacked((#[trigger] s[i]).conversion.rust_conversion) ==> 3 * spaces(s, i) + 2 < locals.len() && 0 <= spaces(s, i) &&
        fills(locals[3 * spaces(s, i)], locals[3 * spaces(s, i) + 1], locals[3 * spaces(s, i) + 2], s[i].conversion, q1("#0"@, var_of(s[i], avoid_self)), spaces(s, i))
}
pub proof fn lemma_spaces(s: Seq<ArgumentAnalysis>, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= spaces(s, n) <= n,
    decreases n,
{ if n > 0 { lemma_spaces(s, n - 1); } }
/// The parameter (if any) which holds the place the result is built in: the last one.
pub open spec fn dest(s: Seq<ArgumentAnalysis>, n: int, avoid_self: bool) -> Option<Tok>
    decreases n,
{
    if n <= 0 { None }
    else if own_place(s[n - 1]) { Some(s[n - 1].name@) }
    else if s[n - 1].is_placement_return_destination { Some(bridge_arg(s, n - 1, avoid_self)) }
    else { dest(s, n - 1, avoid_self) }
}
pub open spec fn shown(p: ArgumentAnalysis) -> bool { !own_place(p) && !p.is_placement_return_destination }
pub open spec fn count_shown(s: Seq<ArgumentAnalysis>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { count_shown(s, n - 1) + (if shown(s[n - 1]) { 1int } else { 0 }) } }
/// The parameters of the wrapper are the arguments, in order, each under its own name.
pub open spec fn params_ok(w: Seq<FnArg>, s: Seq<ArgumentAnalysis>, avoid_self: bool, n: int) -> bool {
    &&& w.len() == count_shown(s, n)
    &&& forall|i: int| 0 <= i < n && shown(#[trigger] s[i]) ==> 0 <= count_shown(s, i) < w.len()
        && exists|m: Option<Mut>| (m is Some <==> s[i].conversion.rust_conversion is FromPinMoveRefToPtr)
            && w[count_shown(s, i)]@ == #[trigger] q3("#0 #1 : #2"@, m.tok(), var_of(s[i], avoid_self), rust_type(s[i].conversion))
}
pub proof fn lemma_shown(s: Seq<ArgumentAnalysis>, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= count_shown(s, n) <= n,
    decreases n,
{ if n > 0 { lemma_shown(s, n - 1); } }
pub open spec fn reordered(v: Seq<FnArg>, w: Seq<FnArg>, o: Vec<usize>) -> bool {
    v.len() == o@.len() && forall|i: int| 0 <= i < v.len() ==> o@[i] < w.len() && #[trigger] v[i] == w[o@[i] as int]
}
pub open spec fn the_call(g: FnGenerator, avoid_self: bool) -> Tok {
    q2("cxxbridge : : #0 ( # ( #1 ) , * )"@, Tok::Id(*g.cxxbridge_name), Tok::List(bridge_args(g.param_details@, avoid_self)))
}
pub open spec fn wrapped_stmt(s: MaybeUnsafeStmt) -> Tok { match s { MaybeUnsafeStmt::Normal(t) => t@, MaybeUnsafeStmt::NeedsUnsafe(t) => t@, MaybeUnsafeStmt::Binary { in_safe_context, .. } => in_safe_context@ } }
/// The call, or its result converted.
pub open spec fn result_stmt(g: FnGenerator, avoid_self: bool, ctx: bool, st: MaybeUnsafeStmt) -> bool {
    if g.ret_conversion is Some && !(g.ret_conversion->Some_0.rust_conversion is None) {
        exists|call: MaybeUnsafeStmt| !(call is Binary) && wrapped_stmt(call) == the_call(g, avoid_self)
            && !(st is Binary) && wrapped_stmt(st) == rust_expr(g.ret_conversion->Some_0, q1("#0"@, #[trigger] stmts(seq![call], ctx)), spaces(g.param_details@, g.param_details@.len() as int))
    } else {
        !(st is Binary) && wrapped_stmt(st) == the_call(g, avoid_self)
    }
}
pub open spec fn in_unsafe(g: FnGenerator) -> bool { g.unsafety is Always || g.always_unsafe_due_to_trait_definition }
pub open spec fn wrapper_body(g: FnGenerator, avoid_self: bool, ctx: bool, locals: Seq<MaybeUnsafeStmt>, st: MaybeUnsafeStmt, body: Tok) -> bool {
    match dest(g.param_details@, g.param_details@.len() as int, avoid_self) {
        // a constructor or by-value result: all of it happens when the caller has found a place
        Some(d) => exists|b: MaybeUnsafeStmt, u: MaybeUnsafeStmt| b is Binary
            && b->in_unsafe_context@ == q1("let #0 = #0 . get_unchecked_mut ( ) . as_mut_ptr ( ) ;"@, d)
            && u is NeedsUnsafe
            && u->NeedsUnsafe_0@ == q2("autocxx : : moveit : : new : : by_raw ( move | #0 | { #1 } )"@, d, #[trigger] stmts(locals.push(b).push(st), true))
            && body == #[trigger] stmts(seq![u], ctx),
        None => body == stmts(locals.push(st), ctx),
    }
}
pub proof fn lemma_filled(l: Seq<MaybeUnsafeStmt>, m: Seq<MaybeUnsafeStmt>, s: Seq<ArgumentAnalysis>, avoid_self: bool, k: int)
    requires 0 <= k < s.len(), filled(l, s, avoid_self, k), l.is_prefix_of(m),
        if stacked(s[k].conversion.rust_conversion) {
            m.len() == l.len() + 3 && fills(m[l.len() as int], m[l.len() as int + 1], m[l.len() as int + 2], s[k].conversion, q1("#0"@, var_of(s[k], avoid_self)), spaces(s, k))
        } else { m == l },
    ensures filled(m, s, avoid_self, k + 1),
{
    lemma_spaces(s, k);
    assert forall|i: int| 0 <= i < k + 1 && stacked((#[trigger] s[i]).conversion.rust_conversion) implies 3 * spaces(s, i) + 2 < m.len() && 0 <= spaces(s, i) &&
        fills(m[3 * spaces(s, i)], m[3 * spaces(s, i) + 1], m[3 * spaces(s, i) + 2], s[i].conversion, q1("#0"@, var_of(s[i], avoid_self)), spaces(s, i)) by {
        if i < k { let x = 3 * spaces(s, i); assert(m[x] == l[x] && m[x + 1] == l[x + 1] && m[x + 2] == l[x + 2]); }
    }
}
pub proof fn lemma_params(w: Seq<FnArg>, v: Seq<FnArg>, s: Seq<ArgumentAnalysis>, avoid_self: bool, k: int)
    requires 0 <= k < s.len(), params_ok(w, s, avoid_self, k),
        if shown(s[k]) {
            v.len() == w.len() + 1 && w == v.drop_last() && exists|m: Option<Mut>| (m is Some <==> s[k].conversion.rust_conversion is FromPinMoveRefToPtr)
                && v.last()@ == #[trigger] q3("#0 #1 : #2"@, m.tok(), var_of(s[k], avoid_self), rust_type(s[k].conversion))
        } else { v == w },
    ensures params_ok(v, s, avoid_self, k + 1),
{
    lemma_shown(s, k);
    assert forall|i: int| 0 <= i < k + 1 && shown(#[trigger] s[i]) implies 0 <= count_shown(s, i) < v.len()
        && exists|m: Option<Mut>| (m is Some <==> s[i].conversion.rust_conversion is FromPinMoveRefToPtr)
            && v[count_shown(s, i)]@ == #[trigger] q3("#0 #1 : #2"@, m.tok(), var_of(s[i], avoid_self), rust_type(s[i].conversion)) by {
        if i < k { assert(v[count_shown(s, i)] == w[count_shown(s, i)]); }
    }
}
impl<'a> FnGenerator<'a> {
@@fn engine/src/conversion/codegen_rs/fun_codegen.rs FnGenerator::reorder_parameters
%sig
pub fn reorder_parameters(params: Vec<FnArg>, parameter_ordering: &Vec<usize>) -> (r: Vec<FnArg>)
%panics
%prerewrite? `:: < Vec < _ >> ()` => `::<Vec<FnArg>>()`
%closure 0
 -> (vr: FnArg) ensures *n < old_params@.len() && vr == old_params@[*n as int]
%ensures
    reordered(r@, params@, *parameter_ordering),
@@end
@@fn engine/src/conversion/codegen_rs/fun_codegen.rs FnGenerator::common_parts
%sig
pub fn common_parts(&self, avoid_self: bool, parameter_reordering: &Option<Vec<usize>>, ret_type: Option<ReturnType>) -> (r: (Option<TokenStream>, Vec<FnArg>, ReturnType, TokenStream))
%fmt
%panics
%prerewrite? `Punctuated < FnArg , Comma >` => `Vec<FnArg>`
%prerewrite? `Punctuated :: new ()` => `Vec::new()`
%prerewrite? `let mut arg_list = Vec :: new ()` => `let mut arg_list: Vec<TokenStream> = Vec::new()`
%prerewrite? `let mut local_variables = Vec :: new ()` => `let mut local_variables: Vec<MaybeUnsafeStmt> = Vec::new()`
%prerewrite? `let mut ptr_arg_name = None` => `let mut ptr_arg_name: Option<TokenStream> = None`
%drop `let mut ret_type : Cow < 'a , _ > =` .. `let mut ret_type : Cow < 'a , _ > =` => `let mut ret_type: ReturnType = vx_any_ret(ret_type);`
%prerewrite? `Cow :: Owned (parse_quote ! { -> impl autocxx :: moveit :: new :: New < Output = # ty > })` => `vx_any_ret(None)`
%prerewrite? `Cow :: Owned (parse_quote ! { -> # ty })` => `vx_any_ret(None)`
%prerewrite? `if let Some (parameter_reordering) = & parameter_reordering` => `if let Some(parameter_reordering) = parameter_reordering`
%prerewrite? `pd . name . clone () . into ()` => `pd.name.clone()`
%begin
    let ghost ps = self.param_details@;
    let ghost n = ps.len() as int;
%loop 0
 invariant ps == self.param_details@, n == ps.len(), n < usize::MAX, __it0.all().len() == n,
    forall|i: int| 0 <= i < n ==> *#[trigger] __it0.all()[i] == ps[i],
    variable_counter == spaces(ps, __it0.pos()), 0 <= spaces(ps, __it0.pos()) <= __it0.pos(),
    toks(arg_list@).len() == __it0.pos(),
    forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] toks(arg_list@)[i] == bridge_arg(ps, i, avoid_self),
    filled(local_variables@, ps, avoid_self, __it0.pos()),
    params_ok(wrapper_params@, ps, avoid_self, __it0.pos()),
    match ptr_arg_name { Some(t) => dest(ps, __it0.pos(), avoid_self) == Some(t@), None => dest(ps, __it0.pos(), avoid_self) is None },
%loopbegin 0
    broadcast use lemma_toks_push;
    let ghost k = __it0.pos() - 1;
    let ghost l0 = local_variables@;
    let ghost w0 = wrapper_params@;
    proof { lemma_spaces(ps, k); lemma_shown(ps, k); assert(*pd == ps[k]); }
%loopend 0
    proof {
        lemma_spaces(ps, k + 1); lemma_shown(ps, k + 1);
        lemma_filled(l0, local_variables@, ps, avoid_self, k);
        if shown(ps[k]) { assert(w0 =~= wrapper_params@.drop_last()); }
        lemma_params(w0, wrapper_params@, ps, avoid_self, k);
    }
%loopafter 0
    let ghost locals = local_variables@;
    let ghost w = wrapper_params@;
    proof { assert(toks(arg_list@) =~= bridge_args(ps, avoid_self)); }
%before `let (lifetime_tokens , wrapper_params , ret_type) = add_explicit_lifetime`
    let ghost v = wrapper_params@;
    proof { assert(match *parameter_reordering { None => v == w, Some(o) => reordered(v, w, o) }); }
%before `let (call_body , ret_type) = match self . ret_conversion`
    let ghost call = call_body;
    proof { assert(!(call is Binary) && wrapped_stmt(call) == the_call(*self, avoid_self)); }
%before `let call_stmts = if let Some (ptr_arg_name)`
    let ghost st = call_body;
    proof { assert(result_stmt(*self, avoid_self, in_unsafe(*self), st)); }
%end
    proof {
        assert(params_ok(w, ps, avoid_self, n) && __ret.1@ == lifetimed(ps, v));
        assert(filled(locals, ps, avoid_self, n));
        assert(wrapper_body(*self, avoid_self, in_unsafe(*self), locals, st, __ret.3@));
    }
%requires
    self.param_details@.len() < usize::MAX,
%ensures
    exists|locals: Seq<MaybeUnsafeStmt>, st: MaybeUnsafeStmt| filled(locals, self.param_details@, avoid_self, self.param_details@.len() as int)
        && #[trigger] wrapper_body(*self, avoid_self, in_unsafe(*self), locals, st, r.3@)
        && result_stmt(*self, avoid_self, in_unsafe(*self), st),
    exists|w: Seq<FnArg>, v: Seq<FnArg>| #[trigger] params_ok(w, self.param_details@, avoid_self, self.param_details@.len() as int) && r.1@ == #[trigger] lifetimed(self.param_details@, v)
        && match *parameter_reordering { None => v == w, Some(o) => reordered(v, w, o) },
@@end
}
} // verus!
fn main() {}
