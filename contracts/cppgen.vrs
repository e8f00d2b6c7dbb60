@@include core.rs
@@include qname.rs
@@include text.rs
verus! {
/// How every item becomes C++: which items get how much code, under which subclass each constructor and each
/// override ends up. What the code of one function or one subclass says is proved in unit `wrapper`.
pub enum Tok { List(Seq<Tok>), Other(VxOpaque) }
#[verifier::external_body]
pub struct Type { x: u8 }
#[verifier::external_body]
pub struct CppNameMap { x: u8 }
#[verifier::external_body]
pub struct ApiName { x: u8 }
impl Clone for ApiName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ApiName {
    pub uninterp spec fn qname(&self) -> QualifiedName;
    pub uninterp spec fn cpp_text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn qualified_cpp_name(&self) -> (r: String) ensures r@ == self.cpp_text() { unimplemented!() }
}
impl QualifiedName {
    pub uninterp spec fn cpp_text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_cpp_name(&self) -> (r: String) ensures r@ == self.cpp_text() { unimplemented!() }
}
pub struct ConvertErrorFromCpp { pub x: VxOpaque }
pub trait AnalysisPhase { type TypedefAnalysis; type StructAnalysis; type FunAnalysis; }
@@type engine/src/conversion/api.rs SubclassName
@@end
impl Clone for SubclassName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@@type engine/src/conversion/analysis/fun/function_wrapper.rs CppFunction
* => VxOpaque
only original_cpp_name
@@end
@@type engine/src/conversion/api.rs SubclassConstructorDetails
keep subclass cpp_impl
only subclass cpp_impl
@@end
@@type engine/src/conversion/api.rs Provenance
@@end
@@type engine/src/conversion/api.rs FuncToConvert
only provenance
@@end
@@type engine/src/conversion/api.rs RustSubclassFnDetails
only cpp_impl is_pure_virtual
@@end
@@type engine/src/conversion/api.rs TypeKind
@@end
@@type engine/src/conversion/analysis/pod/mod.rs PodAnalysis
* => VxOpaque
keep kind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs PodAndDepAnalysis
* => VxOpaque
keep pod
@@end
pub struct ConvertErrorWithContext { pub x: VxOpaque }
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalysis
* => VxOpaque
keep ignore_reason externally_callable cpp_wrapper
@@end
pub struct FnPhase;
impl AnalysisPhase for FnPhase {
    type TypedefAnalysis = VxOpaque;
    type StructAnalysis = PodAndDepAnalysis;
    type FunAnalysis = FnAnalysis;
}
@@type engine/src/conversion/api.rs Api
ConcreteType.rs_definition => Option<Box<Type>>
* => VxOpaque
keep ForwardDeclaration.name OpaqueTypedef.name ConcreteType.name StringConstructor.name Function.name Const.name Typedef.name Enum.name Struct.name CType.name IgnoredItem.name RustType.name RustFn.name RustSubclassFn.name Subclass.name SubclassTraitItem.name ExternCppType.name
keep ConcreteType.rs_definition ConcreteType.cpp_definition Function.fun Function.analysis Struct.analysis RustSubclassFn.subclass RustSubclassFn.details Subclass.superclass CType.typename
@@end
pub type F = Api<FnPhase>;
impl<P: AnalysisPhase> Api<P> {
    pub open spec fn info(&self) -> ApiName {
        match self {
            Api::ForwardDeclaration { name, .. } => *name,
            Api::OpaqueTypedef { name, .. } => *name,
            Api::ConcreteType { name, .. } => *name,
            Api::StringConstructor { name } => *name,
            Api::Function { name, .. } => *name,
            Api::Const { name, .. } => *name,
            Api::Typedef { name, .. } => *name,
            Api::Enum { name, .. } => *name,
            Api::Struct { name, .. } => *name,
            Api::CType { name, .. } => *name,
            Api::IgnoredItem { name, .. } => *name,
            Api::RustType { name, .. } => *name,
            Api::RustFn { name, .. } => *name,
            Api::RustSubclassFn { name, .. } => *name,
            Api::Subclass { name, .. } => name.0,
            Api::SubclassTraitItem { name, .. } => *name,
            Api::ExternCppType { name, .. } => *name,
        }
    }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &QualifiedName) ensures *r == self.info().qname() { unimplemented!() }
}
pub open spec fn needs(a: F) -> bool {
    match a {
        Api::Function { analysis, .. } => analysis.cpp_wrapper is Some && analysis.ignore_reason is Ok && analysis.externally_callable,
        Api::StringConstructor { .. } | Api::ConcreteType { .. } | Api::CType { .. } | Api::RustSubclassFn { .. } | Api::Subclass { .. } => true,
        Api::Struct { analysis, .. } => analysis.pod.kind is Pod,
        _ => false,
    }
}
impl Api<FnPhase> {
@@fn engine/src/conversion/analysis/fun/mod.rs Api::needs_cpp_codegen
%ensures
    r == needs(*self),
@@end
}
@@type engine/src/conversion/codegen_cpp/mod.rs Header
@@end
@@type engine/src/conversion/codegen_cpp/mod.rs ExtraCpp
@@end
#[verifier::external_body]
pub fn vx_empty_extra() -> (r: ExtraCpp)
    ensures r.type_definition is None, r.declaration is None, r.definition is None, r.headers@.len() == 0, r.cpp_headers@.len() == 0,
{ unimplemented!() }
@@type engine/src/conversion/codegen_cpp/mod.rs SubclassFunction
@@end
#[verifier::external_body]
pub struct IncludeCppConfig { x: u8 }
impl IncludeCppConfig {
    pub uninterp spec fn makestring(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn get_makestring_name(&self) -> (r: Ident) ensures r.text() == self.makestring() { unimplemented!() }
}
impl IncludeCppConfig {
    pub uninterp spec fn modname(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn get_mod_name(&self) -> (r: Ident) ensures r.text() == self.modname() { unimplemented!() }
}
impl Ident {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl Ident { pub uninterp spec fn text(&self) -> Seq<char>; }
impl VxStr for Ident { open spec fn vx_chars(&self) -> Seq<char> { self.text() } }
#[verifier::external_body]
pub struct AutocxxgenHeaderNamer { x: u8 }
impl AutocxxgenHeaderNamer {
    pub uninterp spec fn names(&self, m: Seq<char>) -> Seq<char>;
    #[verifier::external_body]
    pub fn name_header(&self, m: String) -> (r: String) ensures r@ == self.names(m@) { unimplemented!() }
}
#[verifier::external_body]
pub struct CxxgenHeaderNamer { x: u8 }
@@type engine/src/lib.rs CppCodegenOptions
autocxxgen_header_namer => AutocxxgenHeaderNamer
cxxgen_header_namer => CxxgenHeaderNamer
generics <>
@@end
@@type engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator
* => VxOpaque
keep inclusions
original_name_map => CppNameMap
config => &'static IncludeCppConfig
cpp_codegen_options => &'static CppCodegenOptions
cxxgen_header_name => &'static str
additional_functions => Vec<ExtraCpp>
generics <>
@@end
pub enum Cow<'a> { Owned(String), Borrowed(&'a String) }
impl<'a> Cow<'a> {
    pub open spec fn text(&self) -> Seq<char> { match self { Cow::Owned(s) => s@, Cow::Borrowed(s) => s@ } }
    #[verifier::external_body]
    pub fn vx_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
pub uninterp spec fn spelling(m: CppNameMap, t: Type) -> Seq<char>;
impl CppNameMap {
    #[verifier::external_body]
    pub fn type_to_cpp(&self, t: &Box<Type>) -> (r: Result<String, ConvertErrorFromCpp>) ensures r is Ok ==> r->Ok_0@ == spelling(*self, **t) { unimplemented!() }
}
// --- what every item becomes -----------------------------------------------------
pub struct Piece { pub ty: Option<Seq<char>>, pub decl: Option<Seq<char>>, pub def: Option<Seq<char>> }
pub open spec fn piece(e: ExtraCpp) -> Piece { Piece { ty: opt_text(e.type_definition), decl: opt_text(e.declaration), def: opt_text(e.definition) } }
pub open spec fn pieces(s: Seq<ExtraCpp>) -> Seq<Piece> { Seq::new(s.len(), |i: int| piece(s[i])) }
pub broadcast proof fn lemma_pieces_push(s: Seq<ExtraCpp>, x: ExtraCpp) ensures #[trigger] pieces(s.push(x)) == pieces(s).push(piece(x)) { assert(pieces(s.push(x)) =~= pieces(s).push(piece(x))); }
/// The code by which Rust calls the function, and the code of a subclass (unit `wrapper` says what they are).
pub uninterp spec fn function_piece(f: CppFunction, m: CppNameMap) -> Piece;
pub uninterp spec fn subclass_pieces(sup: QualifiedName, sub: SubclassName, cs: Seq<&CppFunction>, ms: Seq<SubclassFunction>, m: CppNameMap) -> Seq<Piece>;
pub open spec fn typedef_piece(n: QualifiedName, def: Seq<char>) -> Piece { Piece { ty: Some(fmt2("typedef {} {};"@, def, n.final_item())), decl: None, def: None } }
/// What makes the C++ compiler refuse a type declared trivial which is not.
pub open spec fn assertion_piece(n: Seq<char>) -> Piece {
    Piece { ty: None, decl: Some(fmt2("static_assert(::rust::IsRelocatable<{}>::value, \"type {} should be trivially move constructible and trivially destructible to be used with generate_pod! in autocxx\");"@, n, n)), def: None }
}
pub open spec fn makestring_piece(n: Seq<char>) -> Piece {
    Piece { ty: None, decl: Some(fmt1("inline std::unique_ptr<std::string> {}(::rust::Str str) {{ return std::make_unique<std::string>(std::string(str)); }}"@, n)), def: None }
}
pub open spec fn direct(a: F, m: CppNameMap, c: IncludeCppConfig) -> Option<Piece> {
    match a {
        Api::Function { analysis, .. } => if needs(a) { Some(function_piece(analysis.cpp_wrapper->Some_0, m)) } else { None },
        Api::StringConstructor { .. } => Some(makestring_piece(c.makestring())),
        Api::ConcreteType { name, rs_definition, cpp_definition } => Some(typedef_piece(name.qname(), match rs_definition { Some(t) => spelling(m, *t), None => cpp_definition@ })),
        Api::CType { name, typename } => Some(typedef_piece(typename, typename.cpp_text())),
        Api::Struct { name, analysis, .. } => if needs(a) { Some(assertion_piece(name.cpp_text())) } else { None },
        _ => None,
    }
}
pub open spec fn is_ctor(a: F, sub: SubclassName) -> bool { needs(a) && (a matches Api::Function { fun, .. } && fun.provenance matches Provenance::SynthesizedSubclassConstructor(d) && d.subclass == sub) }
pub open spec fn ctor(a: F) -> CppFunction { (a->Function_fun).provenance->SynthesizedSubclassConstructor_0.cpp_impl }
pub open spec fn is_override(a: F, sub: SubclassName) -> bool { a matches Api::RustSubclassFn { subclass, .. } && subclass == sub }
pub open spec fn over<'a>(a: &'a F) -> SubclassFunction<'a> { SubclassFunction { fun: &(a->RustSubclassFn_details).cpp_impl, is_pure_virtual: (a->RustSubclassFn_details).is_pure_virtual } }
pub open spec fn directs(s: Seq<&F>, m: CppNameMap, c: IncludeCppConfig, n: int) -> Seq<Piece> decreases n {
    if n <= 0 { Seq::empty() } else { match direct(*s[n - 1], m, c) { Some(p) => directs(s, m, c, n - 1).push(p), None => directs(s, m, c, n - 1) } }
}
/// Exactly this subclass's constructors, and its methods, in order.
pub open spec fn ctors<'a>(s: Seq<&'a F>, sub: SubclassName, n: int) -> Seq<&'a CppFunction> decreases n {
    if n <= 0 { Seq::empty() } else if is_ctor(*s[n - 1], sub) { ctors(s, sub, n - 1).push(&ctor(*s[n - 1])) } else { ctors(s, sub, n - 1) }
}
pub open spec fn overs<'a>(s: Seq<&'a F>, sub: SubclassName, n: int) -> Seq<SubclassFunction<'a>> decreases n {
    if n <= 0 { Seq::empty() } else if is_override(*s[n - 1], sub) { overs(s, sub, n - 1).push(over(s[n - 1])) } else { overs(s, sub, n - 1) }
}
pub open spec fn subs<'a>(s: Seq<&'a F>, n: int) -> Seq<&'a F> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1] is Subclass { subs(s, n - 1).push(s[n - 1]) } else { subs(s, n - 1) }
}
pub open spec fn classes(s: Seq<&F>, m: CppNameMap, n: int) -> Seq<Piece> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = *subs(s, s.len() as int)[n - 1];
        let sub = a->Subclass_name;
        classes(s, m, n - 1) + subclass_pieces(a->Subclass_superclass, sub, ctors(s, sub, s.len() as int), overs(s, sub, s.len() as int), m)
    }
}
pub open spec fn all_pieces(s: Seq<&F>, m: CppNameMap, c: IncludeCppConfig) -> Seq<Piece> {
    directs(s, m, c, s.len() as int) + classes(s, m, subs(s, s.len() as int).len() as int)
}
/// No two subclasses have one name (unit apivec).
pub open spec fn subclasses_unique(s: Seq<&F>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && s[i] is Subclass && s[j] is Subclass && (#[trigger] s[i])->Subclass_name == (#[trigger] s[j])->Subclass_name ==> i == j
}
pub proof fn lemma_subs(s: Seq<&F>, n: int)
    requires 0 <= n <= s.len(), subclasses_unique(s),
    ensures
        forall|i: int| 0 <= i < subs(s, n).len() ==> (#[trigger] subs(s, n)[i]) is Subclass && exists|k: int| 0 <= k < n && s[k] == subs(s, n)[i],
        forall|i: int, j: int| 0 <= i < j < subs(s, n).len() ==> (#[trigger] subs(s, n)[i])->Subclass_name != (#[trigger] subs(s, n)[j])->Subclass_name,
    decreases n,
{
    if n > 0 {
        lemma_subs(s, n - 1);
        if s[n - 1] is Subclass {
            let p = subs(s, n - 1);
            assert(subs(s, n) == p.push(s[n - 1]));
            assert(s[n - 1] == subs(s, n)[p.len() as int]);
            assert forall|i: int, j: int| 0 <= i < j < subs(s, n).len() implies (#[trigger] subs(s, n)[i])->Subclass_name != (#[trigger] subs(s, n)[j])->Subclass_name by {
                if j == p.len() { assert(subs(s, n)[i] == p[i]); let k = choose|k: int| 0 <= k < n - 1 && s[k] == p[i]; assert(s[k] == p[i]); }
                else { assert(subs(s, n)[i] == p[i]); assert(subs(s, n)[j] == p[j]); }
            }
            assert forall|i: int| 0 <= i < subs(s, n).len() implies (#[trigger] subs(s, n)[i]) is Subclass && exists|k: int| 0 <= k < n && s[k] == subs(s, n)[i] by {
                if i < p.len() { assert(subs(s, n)[i] == p[i]); let k = choose|k: int| 0 <= k < n - 1 && s[k] == p[i]; assert(s[k] == subs(s, n)[i]); }
                else { assert(s[n - 1] == subs(s, n)[i]); }
            }
        }
    }
}
pub open spec fn framed(a: CppCodeGenerator, b: CppCodeGenerator) -> bool {
    b.original_name_map == a.original_name_map && b.config == a.config && b.inclusions == a.inclusions && b.cpp_codegen_options == a.cpp_codegen_options && b.cxxgen_header_name == a.cxxgen_header_name
}
pub open spec fn held<'a, T>(m: Map<SubclassName, Vec<T>>, k: SubclassName) -> Seq<T> { if m.dom().contains(k) { m[k]@ } else { Seq::empty() } }
impl<T> VxDefault for Vec<T> { open spec fn default_spec(r: Self) -> bool { r@ == Seq::<T>::empty() } }
impl CppCodeGenerator {
    #[verifier::external_body]
    fn generate_cpp_function(&mut self, details: &CppFunction) -> (r: Result<(), ConvertErrorFromCpp>)
        ensures framed(*old(self), *final(self)),
            r is Ok ==> pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@).push(function_piece(*details, old(self).original_name_map)),
    { unimplemented!() }
    #[verifier::external_body]
    fn generate_subclass(&mut self, superclass: &QualifiedName, subclass: &SubclassName, constructors: Vec<&CppFunction>, methods: Vec<SubclassFunction>) -> (r: Result<(), ConvertErrorFromCpp>)
        ensures framed(*old(self), *final(self)),
            r is Ok ==> pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@) + subclass_pieces(*superclass, *subclass, constructors@, methods@, old(self).original_name_map),
    { unimplemented!() }
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_pod_assertion
%fmt
%prerewrite? `Default :: default ()` => `vx_empty_extra()`
%begin
    broadcast use lemma_pieces_push;
%ensures
    framed(*old(self), *final(self)),
    pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@).push(assertion_piece(name@)),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_string_constructor
%fmt
%prerewrite? `Default :: default ()` => `vx_empty_extra()`
%begin
    broadcast use lemma_pieces_push;
%ensures
    framed(*old(self), *final(self)),
    pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@).push(makestring_piece(old(self).config.makestring())),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_typedef
%fmt
%prerewrite? `Default :: default ()` => `vx_empty_extra()`
%begin
    broadcast use lemma_pieces_push;
%ensures
    framed(*old(self), *final(self)),
    pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@).push(typedef_piece(*tn, definition@)),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_ctype_typedef
%prerewrite? `& cpp_name` => `cpp_name.as_str()`
%ensures
    framed(*old(self), *final(self)),
    pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@).push(typedef_piece(*tn, tn.cpp_text())),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::add_needs
%sig
fn add_needs<'a>(&mut self, apis: It<&'a Api<FnPhase>>) -> (r: Result<(), ConvertErrorFromCpp>)
%prerewrite? `& effective_cpp_definition` => `effective_cpp_definition.vx_str()`
%nloops 2
%requires
    apis.pos() == 0, subclasses_unique(apis.all()),
    forall|i: int| 0 <= i < apis.all().len() ==> needs(*#[trigger] apis.all()[i]),
%ensures
    framed(*old(self), *final(self)),
    r is Ok ==> pieces(final(self).additional_functions@) == pieces(old(self).additional_functions@) + all_pieces(apis.all(), old(self).original_name_map, *old(self).config),
%begin
    let ghost s = apis.all();
    let ghost m = self.original_name_map;
    let ghost c = *self.config;
    let ghost start = pieces(self.additional_functions@);
    proof { assert(start + directs(s, m, c, 0) =~= start); }
%loopend 0
    proof {
        let n = __it0.pos();
        assert(*api == *s[n - 1]);
        let a = *s[n - 1];
        assert(needs(a));
        assert forall|k: SubclassName| #[trigger] held(constructors_by_subclass@, k) == ctors(s, k, n) by {
            assert(held(cs0, k) == ctors(s, k, n - 1));
            if is_ctor(a, k) { assert(constructors_by_subclass@ == cs0.insert(k, constructors_by_subclass@[k])); } else { }
        }
        assert forall|k: SubclassName| #[trigger] held(methods_by_subclass@, k) == overs(s, k, n) by {
            assert(held(ms0, k) == overs(s, k, n - 1));
        }
        assert(pieces(self.additional_functions@) =~= start + directs(s, m, c, n));
    }
%loopbegin 0
    let ghost cs0 = constructors_by_subclass@;
    let ghost ms0 = methods_by_subclass@;
%loop 0
 invariant framed(*old(self), *self), m == old(self).original_name_map, c == *old(self).config, start == pieces(old(self).additional_functions@),
    __it0.all() == s,
    forall|i: int| 0 <= i < s.len() ==> needs(*#[trigger] s[i]),
    deferred_apis@ == subs(s, __it0.pos()),
    forall|k: SubclassName| #[trigger] held(constructors_by_subclass@, k) == ctors(s, k, __it0.pos()),
    forall|k: SubclassName| #[trigger] held(methods_by_subclass@, k) == overs(s, k, __it0.pos()),
    pieces(self.additional_functions@) == start + directs(s, m, c, __it0.pos()),
%loopbegin 1
    let ghost q = __it1.pos() - 1;
    let ghost cs1 = constructors_by_subclass@;
    let ghost ms1 = methods_by_subclass@;
    proof {
        lemma_subs(s, s.len() as int);
        assert(api == subs(s, s.len() as int)[q]);
        assert(subs(s, s.len() as int)[q] is Subclass);
        assert(held(cs1, api->Subclass_name) == ctors(s, api->Subclass_name, s.len() as int));
        assert(held(ms1, api->Subclass_name) == overs(s, api->Subclass_name, s.len() as int));
    }
%loopend 1
    proof {
        let l = subs(s, s.len() as int);
        assert forall|i: int| __it1.pos() <= i < l.len() implies held(constructors_by_subclass@, (#[trigger] l[i])->Subclass_name) == ctors(s, l[i]->Subclass_name, s.len() as int) by {
            assert(l[q]->Subclass_name != l[i]->Subclass_name);
            assert(held(cs1, l[i]->Subclass_name) == ctors(s, l[i]->Subclass_name, s.len() as int));
        }
        assert forall|i: int| __it1.pos() <= i < l.len() implies held(methods_by_subclass@, (#[trigger] l[i])->Subclass_name) == overs(s, l[i]->Subclass_name, s.len() as int) by {
            assert(l[q]->Subclass_name != l[i]->Subclass_name);
            assert(held(ms1, l[i]->Subclass_name) == overs(s, l[i]->Subclass_name, s.len() as int));
        }
        assert(pieces(self.additional_functions@) =~= start + directs(s, m, c, s.len() as int) + classes(s, m, __it1.pos()));
    }
%end
    proof { if __ret is Ok { assert(pieces(self.additional_functions@) =~= start + all_pieces(s, m, c)); } }
%loop 1
 invariant framed(*old(self), *self), m == old(self).original_name_map, c == *old(self).config, start == pieces(old(self).additional_functions@),
    __it1.all() == subs(s, s.len() as int), subclasses_unique(s),
    forall|i: int| __it1.pos() <= i < __it1.all().len() ==> held(constructors_by_subclass@, (#[trigger] __it1.all()[i])->Subclass_name) == ctors(s, __it1.all()[i]->Subclass_name, s.len() as int),
    forall|i: int| __it1.pos() <= i < __it1.all().len() ==> held(methods_by_subclass@, (#[trigger] __it1.all()[i])->Subclass_name) == overs(s, __it1.all()[i]->Subclass_name, s.len() as int),
    pieces(self.additional_functions@) == start + directs(s, m, c, s.len() as int) + classes(s, m, __it1.pos()),
@@end
}
// --- the files --------------------------------------------------------------------
/// The bytes of a text.
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl Bytes { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_bytes(s: String) -> (r: Bytes) ensures r.text() == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
@@type engine/src/lib.rs CppFilePair
header => Bytes
implementation => Option<Bytes>
@@end
pub uninterp spec fn delete_prelude() -> Seq<char>;
#[verifier::external_body]
pub fn vx_delete_prelude() -> (r: String) ensures r@ == delete_prelude() { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn prefix(o: Option<String>) -> Seq<char> { match o { Some(s) => s@, None => ""@ } }
pub open spec fn included(h: Header, o: CppCodegenOptions, n: Seq<char>) -> Seq<char> {
    match h {
        Header::System(s) => fmt1("#include <{}>"@, s@),
        Header::CxxH => fmt1("#include \"{}cxx.h\""@, prefix(o.path_to_cxx_h)),
        Header::CxxgenH => fmt2("#include \"{}{}\""@, prefix(o.path_to_cxxgen_h), n),
        Header::NewDeletePrelude => delete_prelude(),
    }
}
pub open spec fn wanted(h: Header, o: CppCodegenOptions) -> bool { !(o.suppress_system_headers && (h is System || h is CxxH)) }
impl Header {
@@fn engine/src/conversion/codegen_cpp/mod.rs Header::include_stmt
%fmt
%prerewrite? `"" . to_string ()` => `vx_str_string("")`
%prerewrite? `new_and_delete_prelude :: NEW_AND_DELETE_PRELUDE . to_string ()` => `vx_delete_prelude()`
%ensures
    r@ == included(*self, *cpp_codegen_options, cxxgen_header_name@),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs Header::is_system
%ensures
    r == (*self is System || *self is CxxH),
@@end
}
/// What one of the parts (`f`) of every piece says, in order.
pub open spec fn part(s: Seq<Piece>, f: spec_fn(Piece) -> Option<Seq<char>>) -> Seq<Option<Seq<char>>> { Seq::new(s.len(), |i: int| f(s[i])) }
pub open spec fn block(o: Seq<Option<Seq<char>>>) -> Seq<char> { joined("\n"@, vx_somes(o)).push('\n') }
pub open spec fn opt_ref(o: Option<&String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn opt_refs(o: Seq<Option<&String>>) -> Seq<Option<Seq<char>>> { Seq::new(o.len(), |i: int| opt_ref(o[i])) }
pub proof fn lemma_refs(o: Seq<Option<&String>>)
    ensures texts(vx_somes(o)) == vx_somes(opt_refs(o)),
    decreases o.len(),
{
    if o.len() > 0 {
        lemma_refs(o.drop_last());
        assert(opt_refs(o).drop_last() =~= opt_refs(o.drop_last()));
        assert(opt_refs(o).last() == opt_ref(o.last()));
        match o.last() { Some(u) => { lemma_texts_push(vx_somes(o.drop_last()), u); }, None => {} }
    } else {
        assert(texts(vx_somes(o)) =~= vx_somes(opt_refs(o)));
    }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn said<'a, F: Fn(&'a ExtraCpp) -> Option<&'a String>>(all: Seq<&'a ExtraCpp>, f: F, o: Seq<Option<&'a String>>) -> bool { o.len() == all.len() && forall|i: int| 0 <= i < all.len() ==> f.ensures((all[i],), #[trigger] o[i]) }
pub open spec fn stmts(h: Seq<Header>, o: CppCodegenOptions, n: Seq<char>) -> Seq<Seq<char>> { Seq::new(h.len(), |i: int| included(h[i], o, n)) }
pub open spec fn within(v: Seq<Header>, o: CppCodegenOptions, h: Seq<Header>) -> bool { forall|x: Header| #[trigger] vx_has(v, x) && wanted(x, o) ==> vx_has(h, x) }
pub open spec fn all_in<F: Fn(&ExtraCpp) -> &Vec<Header>>(e: ExtraCpp, f: F, o: CppCodegenOptions, h: Seq<Header>) -> bool { exists|v: &Vec<Header>| #[trigger] f.ensures((&e,), v) && within(v@, o, h) }
pub open spec fn reached<F: Fn(&ExtraCpp) -> &Vec<Header>>(e: ExtraCpp, f: F, o: CppCodegenOptions, s: Set<&Header>) -> bool { exists|v: &Vec<Header>| #[trigger] f.ensures((&e,), v) && forall|x: Header| #[trigger] vx_has(v@, x) && wanted(x, o) ==> s.contains(&x) }
pub closed spec fn marked<T>(s: Seq<T>) -> bool { true }
pub fn vx_mark<T>(it: It<T>) -> (r: It<T>) ensures r == it, marked(it.all()) { it }
pub open spec fn asks<F: Fn(&ExtraCpp) -> &Vec<Header>>(e: ExtraCpp, f: F, x: Header) -> bool { exists|v: &Vec<Header>| #[trigger] f.ensures((&e,), v) && vx_has(v@, x) }
pub open spec fn asked<F: Fn(&ExtraCpp) -> &Vec<Header>>(a: Seq<ExtraCpp>, f: F, x: Header) -> bool { exists|i: int| 0 <= i < a.len() && asks(#[trigger] a[i], f, x) }
/// Exactly the headers which one of the pieces asks for, but those the user asked to leave out.
pub open spec fn headers_of<F: Fn(&ExtraCpp) -> &Vec<Header>>(a: Seq<ExtraCpp>, f: F, o: CppCodegenOptions, h: Seq<Header>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> all_in(#[trigger] a[i], f, o, h)
    &&& forall|x: Header| #[trigger] vx_has(h, x) ==> wanted(x, o) && asked(a, f, x)
}
pub open spec fn tys(s: Seq<Piece>) -> Seq<Option<Seq<char>>> { Seq::new(s.len(), |i: int| s[i].ty) }
pub open spec fn decls(s: Seq<Piece>) -> Seq<Option<Seq<char>>> { Seq::new(s.len(), |i: int| s[i].decl) }
pub open spec fn defs(s: Seq<Piece>) -> Seq<Option<Seq<char>>> { Seq::new(s.len(), |i: int| s[i].def) }
/// The include lines: one for each wanted header of a piece.
pub open spec fn include_lines(a: Seq<Seq<Header>>, o: CppCodegenOptions, n: Seq<char>, t: Seq<char>) -> bool {
    exists|h: Seq<Header>| t == joined("\n"@, #[trigger] stmts(h, o, n))
        && (forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a[i].len() && wanted(#[trigger] a[i][j], o) ==> vx_has(h, a[i][j]))
        && (forall|x: Header| #[trigger] vx_has(h, x) ==> wanted(x, o) && exists|i: int| 0 <= i < a.len() && #[trigger] vx_has(a[i], x))
}
pub open spec fn heads(s: Seq<ExtraCpp>) -> Seq<Seq<Header>> { Seq::new(s.len(), |i: int| s[i].headers@) }
pub open spec fn cpp_heads(s: Seq<ExtraCpp>) -> Seq<Seq<Header>> { Seq::new(s.len(), |i: int| s[i].cpp_headers@) }
/// A comment; what it says does not matter.
pub exec const GENERATED_FILE_HEADER: &'static str ensures GENERATED_FILE_HEADER@ == generated_header() { vx_generated_header() }
pub uninterp spec fn generated_header() -> Seq<char>;
#[verifier::external_body]
pub const fn vx_generated_header() -> (r: &'static str) ensures r@ == generated_header() { "" }
/// Every piece's parts are in the files, in order, once: types before declarations, definitions in a file of their
/// own which includes the header.
pub open spec fn files(g: CppCodeGenerator, r: Option<CppFilePair>) -> bool {
    let e = g.additional_functions@;
    let p = pieces(e);
    &&& r is None <==> e.len() == 0
    &&& r matches Some(f) ==> {
        let name = g.cpp_codegen_options.autocxxgen_header_namer.names(g.config.modname());
        &&& f.header_name@ == name
        &&& exists|hs: Seq<char>| include_lines(heads(e), *g.cpp_codegen_options, g.cxxgen_header_name@, hs) && f.header.text() == #[trigger] header_text(hs, g.inclusions@, block(tys(p)), block(decls(p)))
        &&& f.implementation is Some <==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).def is Some
        &&& f.implementation matches Some(b) ==> exists|hs: Seq<char>| include_lines(cpp_heads(e), *g.cpp_codegen_options, g.cxxgen_header_name@, hs) && b.text() == #[trigger] impl_text(name, hs, block(defs(p)))
    }
}
pub open spec fn header_text(hs: Seq<char>, inc: Seq<char>, t: Seq<char>, d: Seq<char>) -> Seq<char> {
    fmt5("{}\n#ifndef __AUTOCXXGEN_H__\n#define __AUTOCXXGEN_H__\n\n{}\n{}\n{}\n{}#endif // __AUTOCXXGEN_H__\n"@, generated_header(), hs, inc, t, d)
}
pub open spec fn impl_text(n: Seq<char>, hs: Seq<char>, d: Seq<char>) -> Seq<char> { fmt4("{}\n#include \"{}\"\n{}\n{}"@, generated_header(), n, hs, d) }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_said<'a, F: Fn(&'a ExtraCpp) -> Option<&'a String>>(all: Seq<&'a ExtraCpp>, f: F, o: Seq<Option<&'a String>>, r: Seq<&'a String>)
    requires #[trigger] vx_fm(all, f, o, r),
    ensures said(all, f, o), texts(r) == vx_somes(opt_refs(o)),
{
    lemma_refs(o);
}
pub broadcast proof fn lemma_tys<'a, F: Fn(&'a ExtraCpp) -> Option<&'a String>>(e: Seq<ExtraCpp>, f: F, o: Seq<Option<&'a String>>)
    requires #[trigger] said(refs(e), f, o), forall|x: &'a ExtraCpp, r: Option<&'a String>| #[trigger] f.ensures((x,), r) ==> opt_ref(r) == opt_text(x.type_definition),
    ensures opt_refs(o) == tys(pieces(e)),
{
    assert forall|i: int| 0 <= i < o.len() implies opt_refs(o)[i] == tys(pieces(e))[i] by { let _ = o[i]; assert(f.ensures((refs(e)[i],), o[i])); }
    assert(opt_refs(o) =~= tys(pieces(e)));
}
pub broadcast proof fn lemma_decls<'a, F: Fn(&'a ExtraCpp) -> Option<&'a String>>(e: Seq<ExtraCpp>, f: F, o: Seq<Option<&'a String>>)
    requires #[trigger] said(refs(e), f, o), forall|x: &'a ExtraCpp, r: Option<&'a String>| #[trigger] f.ensures((x,), r) ==> opt_ref(r) == opt_text(x.declaration),
    ensures opt_refs(o) == decls(pieces(e)),
{
    assert forall|i: int| 0 <= i < o.len() implies opt_refs(o)[i] == decls(pieces(e))[i] by { let _ = o[i]; assert(f.ensures((refs(e)[i],), o[i])); }
    assert(opt_refs(o) =~= decls(pieces(e)));
}
pub broadcast proof fn lemma_defs<'a, F: Fn(&'a ExtraCpp) -> Option<&'a String>>(e: Seq<ExtraCpp>, f: F, o: Seq<Option<&'a String>>)
    requires #[trigger] said(refs(e), f, o), forall|x: &'a ExtraCpp, r: Option<&'a String>| #[trigger] f.ensures((x,), r) ==> opt_ref(r) == opt_text(x.definition),
    ensures opt_refs(o) == defs(pieces(e)),
{
    assert forall|i: int| 0 <= i < o.len() implies opt_refs(o)[i] == defs(pieces(e))[i] by { let _ = o[i]; assert(f.ensures((refs(e)[i],), o[i])); }
    assert(opt_refs(o) =~= defs(pieces(e)));
}
pub broadcast proof fn lemma_heads<F: Fn(&ExtraCpp) -> &Vec<Header>>(e: Seq<ExtraCpp>, f: F, o: CppCodegenOptions, h: Seq<Header>, n: Seq<char>)
    requires #[trigger] headers_of(e, f, o, h), forall|x: &ExtraCpp, r: &Vec<Header>| #[trigger] f.ensures((x,), r) ==> *r == x.headers,
    ensures include_lines(heads(e), o, n, joined("\n"@, #[trigger] stmts(h, o, n))),
{
    let a = heads(e);
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a[i].len() && wanted(#[trigger] a[i][j], o) implies vx_has(h, a[i][j]) by {
        assert(all_in(e[i], f, o, h));
        let v = choose|v: &Vec<Header>| #[trigger] f.ensures((&e[i],), v) && within(v@, o, h);
        assert(vx_has(v@, a[i][j]));
    }
    assert forall|x: Header| #[trigger] vx_has(h, x) implies wanted(x, o) && exists|i: int| 0 <= i < a.len() && #[trigger] vx_has(a[i], x) by {
        assert(asked(e, f, x));
        let i = choose|i: int| 0 <= i < e.len() && asks(#[trigger] e[i], f, x);
        assert(vx_has(a[i], x));
    }
}
pub broadcast proof fn lemma_cpp_heads<F: Fn(&ExtraCpp) -> &Vec<Header>>(e: Seq<ExtraCpp>, f: F, o: CppCodegenOptions, h: Seq<Header>, n: Seq<char>)
    requires #[trigger] headers_of(e, f, o, h), forall|x: &ExtraCpp, r: &Vec<Header>| #[trigger] f.ensures((x,), r) ==> *r == x.cpp_headers,
    ensures include_lines(cpp_heads(e), o, n, joined("\n"@, #[trigger] stmts(h, o, n))),
{
    let a = cpp_heads(e);
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a[i].len() && wanted(#[trigger] a[i][j], o) implies vx_has(h, a[i][j]) by {
        assert(all_in(e[i], f, o, h));
        let v = choose|v: &Vec<Header>| #[trigger] f.ensures((&e[i],), v) && within(v@, o, h);
        assert(vx_has(v@, a[i][j]));
    }
    assert forall|x: Header| #[trigger] vx_has(h, x) implies wanted(x, o) && exists|i: int| 0 <= i < a.len() && #[trigger] vx_has(a[i], x) by {
        assert(asked(e, f, x));
        let i = choose|i: int| 0 <= i < e.len() && asks(#[trigger] e[i], f, x);
        assert(vx_has(a[i], x));
    }
}
#[verifier::external_body]
pub fn vx_refs<'a>(v: &'a Vec<Header>) -> (r: It<&'a Header>) ensures r.pos() == 0, r.all() == refs(v@) { unimplemented!() }
impl CppCodeGenerator {
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::concat_additional_items
%begin
    broadcast use lemma_said;
    assert forall|all: Seq<&ExtraCpp>| #[trigger] all.len() == self.additional_functions@.len() && (forall|i: int| 0 <= i < all.len() ==> *all[i] == self.additional_functions@[i]) implies all == refs(self.additional_functions@) by { assert(all =~= refs(self.additional_functions@)); }
%sig
fn concat_additional_items<F: Fn(&ExtraCpp) -> Option<&String>>(&self, field_access: F) -> (r: String)
%prerewrite? `. flat_map (field_access)` => `.filter_map(field_access)`
%prerewrite? `s . push ('\n')` => `vx_push_char(&mut s, '\n')`
%requires
    forall|i: int| 0 <= i < self.additional_functions@.len() ==> field_access.requires((&#[trigger] self.additional_functions@[i],)),
%ensures
    exists|o: Seq<Option<&String>>| said(refs(self.additional_functions@), field_access, o) && r@ == block(opt_refs(o)),
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::collect_headers
%sig
fn collect_headers<F: Fn(&ExtraCpp) -> &Vec<Header>>(&self, filter: F) -> (r: String)
%requires
    forall|e: &ExtraCpp| #[trigger] filter.requires((e,)),
%ensures
    exists|h: Seq<Header>| r@ == joined("\n"@, #[trigger] stmts(h, *self.cpp_codegen_options, self.cxxgen_header_name@)) && headers_of(self.additional_functions@, filter, *self.cpp_codegen_options, h),
%closure `filter (x)`
 -> (vr: It<&Header>) ensures exists|v: &Vec<Header>| #[trigger] filter.ensures(($0,), v) && vr.all() == refs(v@)
%closure `. is_system`
 -> (vr: bool) ensures vr == wanted(**$0, *self.cpp_codegen_options)
%closure `. include_stmt`
 -> (vr: String) ensures vr@ == included(**$0, *self.cpp_codegen_options, self.cxxgen_header_name@)
%prerewrite? `filter (x) . iter ()` => `vx_refs(filter(x))`
%before `cpp_headers . iter ()`
    let ghost a = self.additional_functions@;
    let ghost o = *self.cpp_codegen_options;
    let ghost n = self.cxxgen_header_name@;
    assert forall|x: &Header| #[trigger] cpp_headers@.contains(x) implies wanted(*x, o) && asked(a, filter, *x) by { }
    assert forall|i: int| 0 <= i < a.len() implies reached(#[trigger] a[i], filter, o, cpp_headers@) by {
        let v = choose|v: &Vec<Header>| #[trigger] filter.ensures((&a[i],), v) && forall|x: &Header| #[trigger] vx_has(refs(v@), x) && wanted(*x, o) ==> cpp_headers@.contains(x);
        assert forall|x: Header| #[trigger] vx_has(v@, x) && wanted(x, o) implies cpp_headers@.contains(&x) by {
            let j = choose|j: int| 0 <= j < v@.len() && v@[j] == x;
            assert(refs(v@)[j] == &x);
            assert(vx_has(refs(v@), &x));
        }
    }
    assert forall|all: Seq<&&Header>| #[trigger] marked(all) && (forall|i: int| 0 <= i < all.len() ==> cpp_headers@.contains(*#[trigger] all[i])) && (forall|x: &Header| #[trigger] cpp_headers@.contains(x) ==> vx_has(all, &x)) implies headers_of(a, filter, o, derefs(derefs(all))) by {
        let h = derefs(derefs(all));
        assert forall|i: int| 0 <= i < a.len() implies all_in(#[trigger] a[i], filter, o, h) by {
            assert(reached(a[i], filter, o, cpp_headers@));
            let v = choose|v: &Vec<Header>| #[trigger] filter.ensures((&a[i],), v) && forall|x: Header| #[trigger] vx_has(v@, x) && wanted(x, o) ==> cpp_headers@.contains(&x);
            assert forall|x: Header| #[trigger] vx_has(v@, x) && wanted(x, o) implies vx_has(h, x) by {
                assert(cpp_headers@.contains(&x));
                let k = choose|k: int| 0 <= k < all.len() && all[k] == &&x;
                assert(h[k] == x);
            }
            assert(within(v@, o, h));
        }
        assert forall|x: Header| #[trigger] vx_has(h, x) implies wanted(x, o) && asked(a, filter, x) by {
            let k = choose|k: int| 0 <= k < h.len() && h[k] == x;
            assert(cpp_headers@.contains(*all[k]));
        }
    }
    assert forall|all: Seq<&&Header>, t: Seq<String>| #[trigger] marked(all) && t.len() == all.len() && (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@ == included(**all[i], o, n)) implies #[trigger] texts(t) == stmts(derefs(derefs(all)), o, n) by { assert(texts(t) =~= stmts(derefs(derefs(all)), o, n)); }
%prerewrite? `cpp_headers . iter ()` => `vx_mark(cpp_headers.iter())`
@@end
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate
%fmt
%prerewrite? `declarations . into_bytes ()` => `vx_bytes(declarations)`
%prerewrite? `definitions . into_bytes ()` => `vx_bytes(definitions)`
%ensures
    files(*self, r),
%begin
    broadcast use lemma_tys, lemma_decls, lemma_defs, lemma_heads, lemma_cpp_heads;
    let ghost p = pieces(self.additional_functions@);
    assert forall|i: int| 0 <= i < p.len() implies ((#[trigger] p[i]).def is Some <==> self.additional_functions@[i].definition is Some) by { }
    assert forall|i: int| 0 <= i < p.len() implies (p[i].def is Some <==> (#[trigger] self.additional_functions@[i]).definition is Some) by { }
%before? `let header_name`
    assert(declarations@ == header_text(headers@, self.inclusions@, type_definitions@, block(decls(p))));
%before? `implementation ,`
    assert(implementation matches Some(b) ==> b.text() == impl_text(header_name@, cpp_headers@, block(defs(p))));
%closure `. headers`
 -> (vr: &Vec<Header>) ensures *vr == $0.headers
%closure `. cpp_headers`
 -> (vr: &Vec<Header>) ensures *vr == $0.cpp_headers
%closure `. type_definition . as_ref`
 -> (vr: Option<&String>) ensures opt_ref(vr) == opt_text($0.type_definition)
%closure `. declaration . as_ref`
 -> (vr: Option<&String>) ensures opt_ref(vr) == opt_text($0.declaration)
%closure `. definition . as_ref`
 -> (vr: Option<&String>) ensures opt_ref(vr) == opt_text($0.definition)
%closure `. definition . is_some`
 -> (vr: bool) ensures vr == ($0.definition is Some)
@@end
}
pub struct ApiVec<P: AnalysisPhase> { pub apis: Vec<Api<P>> }
impl<P: AnalysisPhase> ApiVec<P> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&Api<P>>) ensures r.pos() == 0, r.all() == refs(self.apis@) { unimplemented!() }
}
pub uninterp spec fn names_of(a: Seq<F>) -> CppNameMap;
impl CppNameMap {
    #[verifier::external_body]
    pub fn new_from_apis(a: &ApiVec<FnPhase>) -> (r: CppNameMap) ensures r == names_of(a.apis@) { unimplemented!() }
}
/// Only the items which need no C++ are left out.
pub proof fn lemma_left_out(from: Seq<&F>, to: Seq<&F>, p: Seq<int>, m: CppNameMap, c: IncludeCppConfig, sub: SubclassName, n: int, k: int)
    requires
        p.len() == to.len(), 0 <= n <= from.len(), 0 <= k <= to.len(),
        forall|j: int| 0 <= j < p.len() ==> 0 <= #[trigger] p[j] < from.len() && to[j] == from[p[j]] && needs(*to[j]),
        forall|j: int, l: int| 0 <= j < l < p.len() ==> #[trigger] p[j] < #[trigger] p[l],
        forall|i: int| 0 <= i < from.len() ==> !needs(*#[trigger] from[i]) || vx_has(p, i),
        forall|j: int| 0 <= j < k ==> #[trigger] p[j] < n, forall|j: int| k <= j < p.len() ==> #[trigger] p[j] >= n,
    ensures directs(to, m, c, k) == directs(from, m, c, n), ctors(to, sub, k) == ctors(from, sub, n), overs(to, sub, k) == overs(from, sub, n), subs(to, k) == subs(from, n),
    decreases n,
{
    if n == 0 { assert(k == 0) by { if k > 0 { assert(p[0] < 0); } } }
    else if needs(*from[n - 1]) {
        assert(vx_has(p, n - 1));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == n - 1;
        assert(j == k - 1) by { if j < k - 1 { assert(p[j] < p[k - 1]); assert(p[k - 1] < n); } }
        assert forall|j: int| 0 <= j < k - 1 implies #[trigger] p[j] < n - 1 by { assert(p[j] < p[k - 1]); }
        lemma_left_out(from, to, p, m, c, sub, n - 1, k - 1);
    } else {
        assert forall|j: int| 0 <= j < k implies #[trigger] p[j] < n - 1 by { assert(p[j] < n); assert(needs(*to[j])); assert(p[j] != n - 1); }
        lemma_left_out(from, to, p, m, c, sub, n - 1, k);
    }
}
pub broadcast proof fn lemma_filtered<'a, C: Fn(&&'a F) -> bool>(from: Seq<&'a F>, to: Seq<&'a F>, f: C)
    requires #[trigger] vx_filtered(from, to, f), subclasses_unique(from), forall|x: &&'a F, b: bool| #[trigger] f.ensures((x,), b) ==> b == needs(**x),
    ensures subclasses_unique(to), forall|m: CppNameMap, c: IncludeCppConfig| #[trigger] all_pieces(to, m, c) == all_pieces(from, m, c),
        forall|i: int| 0 <= i < to.len() ==> needs(*#[trigger] to[i]),
{
    reveal(vx_filtered);
    let p = vx_ret_m(from, to);
    assert forall|j: int| 0 <= j < p.len() implies 0 <= #[trigger] p[j] < from.len() && to[j] == from[p[j]] && needs(*to[j]) by { }
    assert forall|i: int| 0 <= i < to.len() implies needs(*#[trigger] to[i]) by { let _ = p[i]; }
    assert forall|i: int, j: int| 0 <= i < to.len() && 0 <= j < to.len() && to[i] is Subclass && to[j] is Subclass && (#[trigger] to[i])->Subclass_name == (#[trigger] to[j])->Subclass_name implies i == j by {
        let _ = p[i]; let _ = p[j];
        assert(from[p[i]]->Subclass_name == from[p[j]]->Subclass_name);
        if i < j { assert(p[i] < p[j]); } else if j < i { assert(p[j] < p[i]); }
    }
    assert forall|m: CppNameMap, c: IncludeCppConfig| #[trigger] all_pieces(to, m, c) == all_pieces(from, m, c) by {
        let (a, b) = (from.len() as int, to.len() as int);
        lemma_left_out(from, to, p, m, c, arbitrary(), a, b);
        assert forall|k: SubclassName| #[trigger] same_for(from, to, k) by { lemma_left_out(from, to, p, m, c, k, a, b); }
        lemma_classes(from, to, m, subs(from, a).len() as int);
    }
}
pub open spec fn same_for(from: Seq<&F>, to: Seq<&F>, k: SubclassName) -> bool { ctors(to, k, to.len() as int) == ctors(from, k, from.len() as int) && overs(to, k, to.len() as int) == overs(from, k, from.len() as int) }
pub proof fn lemma_classes(from: Seq<&F>, to: Seq<&F>, m: CppNameMap, n: int)
    requires subs(to, to.len() as int) == subs(from, from.len() as int), forall|k: SubclassName| #[trigger] same_for(from, to, k),
    ensures classes(to, m, n) == classes(from, m, n),
    decreases n,
{ if n > 0 { lemma_classes(from, to, m, n - 1); let a = *subs(to, to.len() as int)[n - 1]; assert(same_for(from, to, a->Subclass_name)); } }
pub open spec fn generator_for(g: CppCodeGenerator, inc: String, a: Seq<F>, c: &IncludeCppConfig, o: &CppCodegenOptions, n: &str) -> bool {
    &&& g.inclusions == inc && g.config == c && g.cpp_codegen_options == o && g.cxxgen_header_name@ == n@ && g.original_name_map == names_of(a)
    &&& pieces(g.additional_functions@) == all_pieces(refs(a), names_of(a), *c)
}
impl CppCodeGenerator {
@@fn engine/src/conversion/codegen_cpp/mod.rs CppCodeGenerator::generate_cpp_code
%sig
pub fn generate_cpp_code(inclusions: String, apis: &ApiVec<FnPhase>, config: &'static IncludeCppConfig, cpp_codegen_options: &'static CppCodegenOptions, cxxgen_header_name: &'static str) -> (r: Result<Option<CppFilePair>, ConvertErrorFromCpp>)
%requires
    subclasses_unique(refs(apis.apis@)),
%ensures
    r is Ok ==> exists|g: CppCodeGenerator| generator_for(g, inclusions, apis.apis@, config, cpp_codegen_options, cxxgen_header_name) && #[trigger] files(g, r->Ok_0),
%begin
    broadcast use lemma_filtered;
    let ghost want = all_pieces(refs(apis.apis@), names_of(apis.apis@), *config);
    assert(pieces(Seq::<ExtraCpp>::empty()) + want =~= want);
%before? `Ok (gen . generate ())`
    assert(generator_for(gen, inclusions, apis.apis@, config, cpp_codegen_options, cxxgen_header_name));
%end
    assert(__ret is Ok ==> files(gen, __ret->Ok_0));
%closure `. needs_cpp_codegen`
 -> (vr: bool) ensures vr == needs(**$0)
@@end
}
} // verus!
fn main() {}
