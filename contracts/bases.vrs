@@include core.rs
@@include qname.rs
@@set STRUCT_DETAILS Box<StructDetails>
@@set ERR_VARIANTS RValueReferenceField,
@@set API_KEEP Struct.details
@@include syn.rs
verus! {
@@type engine/src/conversion/api.rs StructDetails
keep item has_rvalue_reference_fields
@@end
pub struct TypedefAnalysis { pub deps: HashSet<QualifiedName> }
#[verifier::external_body]
pub struct IncludeCppConfig { x: u8 }
#[verifier::external_body]
pub struct ByValueChecker { x: u8 }
impl ByValueChecker {
    /// what the `pod` unit proves about this answer: `pod` and `sound_for`
    pub uninterp spec fn pod(&self, n: QualifiedName) -> bool;
    #[verifier::external_body]
    pub fn is_pod(&self, n: &QualifiedName) -> (r: bool) ensures r == self.pod(*n) { unimplemented!() }
}
}
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
verus! {
pub fn vx_id<T>(t: T) -> (r: T) ensures r == t { t }
// --- pod/mod.rs: what each struct becomes, and its base classes ------------------
@@type engine/src/conversion/api.rs TypeKind
@@end
@@type engine/src/conversion/analysis/pod/mod.rs FieldInfo
* => VxOpaque
keep ty bindgen_opaque_data
@@end
@@type engine/src/conversion/analysis/pod/mod.rs PodAnalysis
* => VxOpaque
keep kind bases castable_bases field_deps field_definition_deps field_info num_generics in_anonymous_namespace
@@end
pub struct PodPhase;
impl AnalysisPhase for PodPhase { type TypedefAnalysis = TypedefAnalysis; type StructAnalysis = PodAnalysis; type FunAnalysis = (); }
pub struct NullPhase;
impl AnalysisPhase for NullPhase { type TypedefAnalysis = (); type StructAnalysis = (); type FunAnalysis = (); }
#[verifier::external_body]
pub struct TypeConverter { x: u8 }
#[verifier::external_body]
pub struct ParseCallbackResults { x: u8 }
#[verifier::external_body]
pub struct CppNameStr { x: u8 }
impl QualifiedName {
    pub uninterp spec fn cpp_name_spec(&self) -> CppNameStr;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(cpp_name_spec)]
    pub fn to_cpp_name(&self) -> (r: CppNameStr) ensures r == self.cpp_name_spec() { unimplemented!() }
    #[verifier::external_body]
    pub fn ns_segment_iter(&self) -> (r: It<&String>) ensures r.pos() == 0 { unimplemented!() }
}
impl IncludeCppConfig {
    pub uninterp spec fn on_allowlist(&self, n: &CppNameStr) -> bool;
    #[verifier::external_body]
    #[verifier::when_used_as_spec(on_allowlist)]
    pub fn is_on_allowlist(&self, n: &CppNameStr) -> (r: bool) ensures r == self.on_allowlist(n) { unimplemented!() }
}
#[verifier::external_body]
pub fn check_for_fatal_attrs(r: &ParseCallbackResults, n: &QualifiedName) -> (res: Result<(), ConvertErrorWithContext>) { unimplemented!() }
#[verifier::external_body]
pub fn get_struct_field_types(tc: &mut TypeConverter, ns: &Namespace, s: &ItemStruct, field_deps: &mut HashSet<QualifiedName>,
    field_definition_deps: &mut HashSet<QualifiedName>, field_info: &mut Vec<FieldInfo>, extra_apis: &mut ApiVec<NullPhase>) -> (r: Vec<ConvertErrorFromCpp>)
{ unimplemented!() }
/// bindgen writes a base class as a field named `_base...`; it is `pub` exactly
/// for public inheritance.
pub open spec fn is_base_field(f: Field, n: QualifiedName) -> bool {
    (f.ident matches Some(id) && vx_starts_with_spec(id, "_base")) && (f.ty matches Type::Path(p) && path_name(p) == n)
}
pub open spec fn base_of(d: ItemStruct, n: QualifiedName) -> bool {
    exists|i: int| 0 <= i < d.fields@.len() && is_base_field(#[trigger] d.fields@[i], n)
}
pub open spec fn base_with(d: ItemStruct, n: QualifiedName, public: bool) -> bool {
    exists|i: int| 0 <= i < d.fields@.len() && is_base_field(#[trigger] d.fields@[i], n) && (d.fields@[i].vis is Public) == public
}
@@fn engine/src/conversion/analysis/pod/mod.rs fn get_bases
%ensures
    forall|n: QualifiedName| #[trigger] r@.dom().contains(n) ==> base_of(*item, n),
    forall|n: QualifiedName| #[trigger] base_of(*item, n) ==> r@.dom().contains(n),
    forall|n: QualifiedName| #[trigger] r@.dom().contains(n) ==> base_with(*item, n, r@[n]),
%closure 0
 -> (vr: Option<(QualifiedName, bool)>) ensures vr matches Some(x) ==> is_base_field(*f, x.0) && x.1 == (f.vis is Public), vr is None ==> forall|n: QualifiedName| !is_base_field(*f, n)
@@end
pub open spec fn res_analysis(it: It<Api<PodPhase>>) -> PodAnalysis { it.all()[0]->Struct_analysis }
@@fn engine/src/conversion/analysis/pod/mod.rs fn analyze_struct
%prerewrite? `Box :: new` => `vx_id`
%prerewrite? `let castable_bases =` => `let castable_bases : HashSet < QualifiedName > =`
%ensures
    r matches Ok(it) ==> it.pos() == 0 && it.all().len() == 1 && it.all()[0] is Struct && it.all()[0].info() == name && it.all()[0]->Struct_details == details,
    // plain data only with the checker's agreement, and never with an rvalue reference inside
    r matches Ok(it) ==> (res_analysis(it).kind is Pod ==> byvalue_checker.pod(name.name) && !details.has_rvalue_reference_fields),
    r matches Ok(it) ==> forall|b: QualifiedName| #[trigger] res_analysis(it).bases@.contains(b) ==> base_of(details.item, b),
    r matches Ok(it) ==> forall|b: QualifiedName| #[trigger] base_of(details.item, b) ==> res_analysis(it).bases@.contains(b),
    // casts are offered to public, requested base classes
    r matches Ok(it) ==> forall|b: QualifiedName| #[trigger] res_analysis(it).castable_bases@.contains(b) ==> base_with(details.item, b, true) && config.on_allowlist(&b.cpp_name_spec()),
    r matches Ok(it) ==> forall|b: QualifiedName| base_with(details.item, b, true) && !base_with(details.item, b, false) && config.on_allowlist(&b.cpp_name_spec()) ==> #[trigger] res_analysis(it).castable_bases@.contains(b),
%begin
    broadcast use vx_has_lemmas;
%after `let bases = get_bases`
    let ghost bs = bases@;
%after `let castable_bases`
    proof {
        assert forall|b: QualifiedName| #[trigger] castable_bases@.contains(b) implies bs.dom().contains(b) && bs[b] && config.on_allowlist(&b.cpp_name_spec()) by {}
        assert forall|b: QualifiedName| bs.dom().contains(b) && bs[b] && config.on_allowlist(&b.cpp_name_spec()) implies #[trigger] castable_bases@.contains(b) by {}
        assert forall|b: QualifiedName| base_with(details.item, b, true) && !base_with(details.item, b, false) && config.on_allowlist(&b.cpp_name_spec()) implies #[trigger] castable_bases@.contains(b) by { assert(base_of(details.item, b)); }
    }
@@end

// --- casts.rs -------------------------------------------------------------------
@@expect engine/src/conversion/analysis/casts.rs :: const SUPPORT_MUTABLE_CASTS : bool = false ;
pub const SUPPORT_MUTABLE_CASTS: bool = false;
@@type engine/src/conversion/api.rs CastMutability
@@end
impl Clone for CastMutability {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub type Bases = Map<QualifiedName, HashSet<QualifiedName>>;
pub open spec fn inherits(m: Bases, d: QualifiedName, b: QualifiedName) -> bool { m.dom().contains(d) && m[d]@.contains(b) }
pub open spec fn chain(m: Bases, p: Seq<QualifiedName>, d: QualifiedName, b: QualifiedName) -> bool {
    &&& p.len() >= 2 && p[0] == d && p.last() == b
    &&& forall|k: int| 0 <= k < p.len() - 1 ==> inherits(m, #[trigger] p[k], p[k + 1])
}
/// b is a proper (direct or indirect) base of d
pub open spec fn derives(m: Bases, d: QualifiedName, b: QualifiedName) -> bool { exists|p: Seq<QualifiedName>| chain(m, p, d, b) }
pub open spec fn via(m: Bases, s: Set<QualifiedName>, b: QualifiedName) -> bool {
    exists|x: QualifiedName| #[trigger] s.contains(x) && (x == b || derives(m, x, b))
}
pub proof fn lemma_derives_step(m: Bases, d: QualifiedName, b: QualifiedName)
    ensures derives(m, d, b) <==> (exists|x: QualifiedName| #[trigger] inherits(m, d, x) && (x == b || derives(m, x, b))),
        m.dom().contains(d) ==> (derives(m, d, b) <==> via(m, m[d]@, b)),
{
    if derives(m, d, b) {
        let p = choose|p: Seq<QualifiedName>| chain(m, p, d, b);
        assert(inherits(m, p[0int], p[0int + 1]));
        assert(m[d]@.contains(p[1]));
        if p.len() == 2 { assert(p[1] == b); }
        if p.len() > 2 {
            let q = p.drop_first();
            assert forall|k: int| 0 <= k < q.len() - 1 implies inherits(m, #[trigger] q[k], q[k + 1]) by { assert(inherits(m, p[k + 1], p[k + 1 + 1])); }
            assert(chain(m, q, p[1], b));
        }
    }
    if m.dom().contains(d) && exists|x: QualifiedName| #[trigger] m[d]@.contains(x) && (x == b || derives(m, x, b)) {
        let x = choose|x: QualifiedName| #[trigger] m[d]@.contains(x) && (x == b || derives(m, x, b));
        assert(inherits(m, d, x));
    }
    if exists|x: QualifiedName| #[trigger] inherits(m, d, x) && (x == b || derives(m, x, b)) {
        let x = choose|x: QualifiedName| #[trigger] inherits(m, d, x) && (x == b || derives(m, x, b));
        assert(m[d]@.contains(x));
        if x == b { assert(chain(m, seq![d, b], d, b)); }
        else {
            let q = choose|q: Seq<QualifiedName>| chain(m, q, x, b);
            let p = seq![d] + q;
            assert forall|k: int| 0 <= k < p.len() - 1 implies inherits(m, #[trigger] p[k], p[k + 1]) by { if k > 0 { assert(inherits(m, q[k - 1], q[k - 1 + 1])); } }
            assert(chain(m, p, d, b));
        }
    }
}
/// The function which casts `from` to `to` (the body of create_cast is not under
/// contract: it is a literal).
pub uninterp spec fn cast_fn(from: QualifiedName, to: QualifiedName, m: CastMutability) -> Api<PodPhase>;
#[verifier::external_body]
#[verifier::when_used_as_spec(cast_fn_ref)]
pub fn create_cast(from: &QualifiedName, to: &QualifiedName, m: CastMutability) -> (r: Api<PodPhase>) ensures r == cast_fn(*from, *to, m) { unimplemented!() }
pub open spec fn cast_fn_ref(from: &QualifiedName, to: &QualifiedName, m: CastMutability) -> Api<PodPhase> { cast_fn(*from, *to, m) }
@@fn engine/src/conversion/analysis/casts.rs fn cast_types
%ensures
    r.pos() == 0, r.all() == seq![CastMutability::ConstToConst],
@@end
@@fn engine/src/conversion/analysis/casts.rs fn derives_from
%attr #[verifier::exec_allows_no_decreases_clause]
%ensures
    r == derives(bases@, *derived, *base),
%begin
    proof { lemma_derives_step(bases@, *derived, *base); }
%closure 0
 -> (vr: bool) ensures vr == via(bases@, bs@, *base)
%closure 1
 -> (vr: bool) ensures vr == (*b == *base || derives(bases@, *b, *base))
@@end
/// A base class to which a cast is well formed: requested, public, and not also
/// a base of another base.
pub open spec fn unambiguous(a: PodAnalysis, m: Bases, b: QualifiedName) -> bool {
    a.castable_bases@.contains(b) && base_once(a, m, b)
}
pub open spec fn is_cast_of(n: QualifiedName, a: PodAnalysis, m: Bases, api: Api<PodPhase>) -> bool {
    exists|b: QualifiedName| #[trigger] unambiguous(a, m, b) && api == cast_fn(n, b, CastMutability::ConstToConst)
}
pub open spec fn single_cast(r: It<Api<PodPhase>>, n: QualifiedName, b: QualifiedName) -> bool {
    &&& r.pos() == 0
    &&& r.all().len() > 0
    &&& forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == cast_fn(n, b, CastMutability::ConstToConst)
}
pub broadcast proof fn lemma_single_cast(r: It<Api<PodPhase>>, n: QualifiedName, b: QualifiedName)
    requires #[trigger] single_cast(r, n, b),
    ensures vx_has(r.all(), cast_fn(n, b, CastMutability::ConstToConst)),
{ assert(r.all()[0] == cast_fn(n, b, CastMutability::ConstToConst)); }
pub open spec fn base_once(a: PodAnalysis, m: Bases, b: QualifiedName) -> bool {
    !exists|o: QualifiedName| #[trigger] a.bases@.contains(o) && derives(m, o, b)
}
@@fn engine/src/conversion/analysis/casts.rs fn create_casts
%ensures
    r.pos() == 0,
    forall|i: int| 0 <= i < r.all().len() ==> is_cast_of(*name, *analysis, bases@, #[trigger] r.all()[i]),
    forall|b: QualifiedName| #[trigger] unambiguous(*analysis, bases@, b) ==> vx_has(r.all(), cast_fn(*name, b, CastMutability::ConstToConst)),
%begin
    broadcast use vx_has_lemmas; broadcast use lemma_single_cast;
%closure 0
 -> (vr: bool) ensures vr == base_once(*analysis, bases@, **base)
%closure 1
 -> (vr: bool) ensures vr == derives(bases@, *b, **base)
%closure 2
 -> (vr: It<Api<PodPhase>>) ensures single_cast(vr, *name, *base)
%closure 3
 -> (vr: Api<PodPhase>) ensures vr == cast_fn(*name, *base, mutable)
%end
    proof { assert forall|i: int| 0 <= i < __ret.all().len() implies is_cast_of(*name, *analysis, bases@, #[trigger] __ret.all()[i]) by {
        assert(vx_has(__ret.all(), __ret.all()[i]));
        let b = choose|b: QualifiedName| #[trigger] base_once(*analysis, bases@, b) && analysis.castable_bases@.contains(b) && __ret.all()[i] == cast_fn(*name, b, CastMutability::ConstToConst);
        assert(unambiguous(*analysis, bases@, b));
    } }
@@end
} // verus!
fn main(){}
