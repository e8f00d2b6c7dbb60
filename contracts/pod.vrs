@@include core.rs
@@include qname.rs
@@set STRUCT_DETAILS Box<ApiStructDetails>
@@set ERR_VARIANTS UnsafePodType(String), RValueReferenceField,
@@set API_KEEP Struct.details
@@include syn.rs
verus! {
pub struct ApiStructDetails { pub item: ItemStruct, pub has_rvalue_reference_fields: bool }
pub enum TypedefKind { Use(Box<Type>), Type(ItemType) }
}
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
verus! {
pub struct TypedefAnalysis { pub kind: TypedefKind, pub deps: HashSet<QualifiedName> }
pub struct TypedefPhase;
impl AnalysisPhase for TypedefPhase { type TypedefAnalysis = TypedefAnalysis; type StructAnalysis = (); type FunAnalysis = (); }

// --- assumed callees: the table of known types, the directives ---------------
pub uninterp spec fn known_pod(n: QualifiedName) -> bool;
/// consider_substitution(n), as the C++ name of the replacement
pub uninterp spec fn known_subst(n: QualifiedName) -> Option<TypePath>;
pub struct TypeDatabase;
#[verifier::external_body]
pub fn known_types() -> (r: TypeDatabase) { unimplemented!() }
impl TypeDatabase {
    #[verifier::external_body]
    pub fn get_pod_safe_types(&self) -> (r: It<(QualifiedName, bool)>)
        ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).1 ==> known_pod(r.all()[i].0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn consider_substitution(&self, n: &QualifiedName) -> (r: Option<TypePath>) ensures r == known_subst(*n) { unimplemented!() }
}
#[verifier::external_body]
pub struct IncludeCppConfig { x: u8 }
impl IncludeCppConfig {
    pub uninterp spec fn blocklist(&self) -> Seq<String>;
    pub uninterp spec fn pod_reqs(&self) -> Seq<String>;
    #[verifier::external_body]
    pub fn get_blocklist(&self) -> (r: It<&String>)
        ensures r.pos() == 0, r.all().len() == self.blocklist().len(), forall|i: int| 0 <= i < r.all().len() ==> *#[trigger] r.all()[i] == self.blocklist()[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pod_requests(&self) -> (r: &Vec<String>) ensures r@ == self.pod_reqs() { unimplemented!() }
}
pub open spec fn blocked(c: IncludeCppConfig, n: QualifiedName) -> bool {
    exists|i: int| 0 <= i < c.blocklist().len() && cpp_str_name((#[trigger] c.blocklist()[i])@) == n
}

// --- the data -----------------------------------------------------------------
@@type engine/src/conversion/analysis/pod/byvalue_checker.rs PodState
keep UnsafeToBePod.0 IsAlias.0
@@end
@@type engine/src/conversion/analysis/pod/byvalue_checker.rs StructDetails
keep state dependent_structs
@@end
@@type engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker
keep results
@@end

pub open spec fn is_vtable_field(f: Field) -> bool { f.ident matches Some(id) && id.text() == "vtable_"@ }
pub open spec fn has_vtable_spec(d: ItemStruct) -> bool {
    exists|i: int| 0 <= i < d.fields@.len() && is_vtable_field(#[trigger] d.fields@[i])
}
/// a named type held by value in the struct: a field, a base class (bindgen
/// writes it as a field) or the element of an array field
pub open spec fn field_ty(d: ItemStruct, n: QualifiedName) -> bool {
    exists|i: int| 0 <= i < d.fields@.len() && is_field_of(#[trigger] d.fields@[i], n)
}
pub open spec fn is_field_of(f: Field, n: QualifiedName) -> bool {
    elem_ty(f.ty) matches Type::Path(p) && path_name(p) == n
}
/// the known type a typedef stands for
pub open spec fn alias_of(k: TypedefKind) -> Option<QualifiedName> {
    let t = match k { TypedefKind::Type(i) => *i.ty, TypedefKind::Use(t) => *t };
    match t {
        Type::Path(p) => match known_subst(path_name(p)) { Some(q) => Some(path_name(q)), None => None },
        _ => None,
    }
}
pub type Res = Map<QualifiedName, StructDetails>;
pub open spec fn pod(m: Res, n: QualifiedName) -> bool { m.dom().contains(n) && m[n].state is IsPod }

// --- what the finished checker promises ----------------------------------------
pub open spec fn sound_struct(m: Res, n: QualifiedName, d: ItemStruct) -> bool {
    pod(m, n) ==> !has_vtable_spec(d) && forall|f: QualifiedName| #[trigger] field_ty(d, f) ==> pod(m, f)
}
pub open spec fn sound_alias(m: Res, n: QualifiedName, k: TypedefKind) -> bool {
    pod(m, n) ==> (alias_of(k) matches Some(t) && pod(m, t))
}
pub open spec fn plain_pod(a: Api<TypedefPhase>) -> bool { a is Enum || (a matches Api::ExternCppType { pod, .. } && pod) }
pub open spec fn sound_for(m: Res, a: Api<TypedefPhase>) -> bool {
    match a {
        Api::Struct { details, .. } => sound_struct(m, a.qname(), details.item),
        Api::Typedef { analysis, .. } => sound_alias(m, a.qname(), analysis.kind),
        _ => pod(m, a.qname()) ==> plain_pod(a) || known_pod(a.qname()),
    }
}

// --- before any request is honoured ---------------------------------------------
pub open spec fn base_entry(m: Res, n: QualifiedName) -> bool {
    &&& !(m[n].state is IsAlias) && !(m[n].state is SafeToBePod)
    &&& m[n].dependent_structs@.len() == 0
    &&& m[n].state is IsPod ==> known_pod(n)
}
pub open spec fn nonstruct_entry(m: Res, a: Api<TypedefPhase>) -> bool {
    let n = a.qname();
    match a {
        Api::Typedef { analysis, .. } => m.dom().contains(n) && m[n].dependent_structs@.len() == 0
            && match alias_of(analysis.kind) { Some(t) => m[n].state == PodState::IsAlias(t), None => m[n].state is UnsafeToBePod },
        Api::Enum { .. } => m.dom().contains(n) && m[n].state is IsPod && m[n].dependent_structs@.len() == 0,
        Api::ExternCppType { pod, .. } => pod ==> m.dom().contains(n) && m[n].state is IsPod && m[n].dependent_structs@.len() == 0,
        _ => true,
    }
}
pub open spec fn sets_nonstruct(a: Api<TypedefPhase>) -> bool { a is Typedef || plain_pod(a) }
pub open spec fn struct_entry(m: Res, n: QualifiedName, d: ItemStruct) -> bool {
    &&& m.dom().contains(n)
    &&& m[n].state is UnsafeToBePod || m[n].state is SafeToBePod
    &&& has_vtable_spec(d) ==> m[n].state is UnsafeToBePod
    &&& forall|f: QualifiedName| #[trigger] field_ty(d, f) <==> vx_has(m[n].dependent_structs@, f)
}
pub open spec fn is_struct(a: Api<TypedefPhase>, n: QualifiedName, d: ItemStruct) -> bool {
    a matches Api::Struct { name, details, .. } && name.name == n && details.item == d
}
pub open spec fn struct_named(a: Seq<Api<TypedefPhase>>, n: QualifiedName) -> bool {
    exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && a[i].qname() == n
}
pub open spec fn item_of(a: Api<TypedefPhase>) -> ItemStruct { a->Struct_details.item }
/// the state of the table after the non-struct items a[0..k] and the structs
/// named in `ing`
#[verifier::opaque]
pub open spec fn table(m: Res, a: Seq<Api<TypedefPhase>>, c: IncludeCppConfig, k: int, ing: Set<QualifiedName>) -> bool {
    &&& forall|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) ==> nonstruct_entry(m, a[i])
    &&& forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && ing.contains(a[i].qname()) ==> struct_entry(m, a[i].qname(), item_of(a[i]))
    &&& forall|n: QualifiedName| #[trigger] m.dom().contains(n) ==>
        base_entry(m, n) || (exists|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n) || ing.contains(n)
    &&& forall|n: QualifiedName| #[trigger] ing.contains(n) ==> struct_named(a, n)
    &&& forall|n: QualifiedName| #[trigger] m.dom().contains(n) && blocked(c, n) && !has_name(a, n) ==> !(m[n].state is IsPod) && !(m[n].state is SafeToBePod) && !(m[n].state is IsAlias)
}
/// each pending struct is one of the items, and each struct is done or pending
pub open spec fn pends(p: Seq<(&QualifiedName, &ItemStruct)>, n: QualifiedName, d: ItemStruct) -> bool {
    exists|j: int| 0 <= j < p.len() && *(#[trigger] p[j]).0 == n && *p[j].1 == d
}
pub open spec fn from_apis(a: Seq<Api<TypedefPhase>>, e: (&QualifiedName, &ItemStruct)) -> bool {
    exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && a[i].qname() == *e.0 && item_of(a[i]) == *e.1
}
pub open spec fn all_from(a: Seq<Api<TypedefPhase>>, p: Seq<(&QualifiedName, &ItemStruct)>) -> bool {
    forall|j: int| 0 <= j < p.len() ==> from_apis(a, #[trigger] p[j])
}
pub open spec fn accounted(a: Seq<Api<TypedefPhase>>, p: Seq<(&QualifiedName, &ItemStruct)>, q: Seq<(&QualifiedName, &ItemStruct)>, ing: Set<QualifiedName>, k: int) -> bool {
    forall|i: int| 0 <= i < k && (#[trigger] a[i]) is Struct ==> ing.contains(a[i].qname()) || pends(p, a[i].qname(), item_of(a[i])) || pends(q, a[i].qname(), item_of(a[i]))
}
/// bindgen declares each struct in the module of its namespace, under its own name
pub open spec fn named_by_ident(a: Seq<Api<TypedefPhase>>) -> bool {
    forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct ==> qn_of(a[i].qname().ns(), item_of(a[i]).ident) == a[i].qname()
}
pub proof fn lemma_table_init(m: Res, a: Seq<Api<TypedefPhase>>, c: IncludeCppConfig)
    requires forall|n: QualifiedName| #[trigger] m.dom().contains(n) ==> base_entry(m, n),
        forall|n: QualifiedName| #[trigger] m.dom().contains(n) && blocked(c, n) ==> m[n].state is UnsafeToBePod,
    ensures table(m, a, c, 0, Set::empty()),
{ reveal(table); }
pub proof fn lemma_table_skip(m: Res, a: Seq<Api<TypedefPhase>>, c: IncludeCppConfig, k: int, ing: Set<QualifiedName>)
    requires table(m, a, c, k, ing), 0 <= k < a.len(), !sets_nonstruct(a[k]),
    ensures table(m, a, c, k + 1, ing),
{ reveal(table);
  assert forall|n: QualifiedName| #[trigger] m.dom().contains(n) implies
        base_entry(m, n) || (exists|i: int| 0 <= i < k + 1 && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n) || ing.contains(n) by {
        if exists|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n {
            let i = choose|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n;
            assert(0 <= i < k + 1);
        }
  } }
pub proof fn lemma_table_nonstruct(m: Res, m2: Res, a: Seq<Api<TypedefPhase>>, c: IncludeCppConfig, k: int, ing: Set<QualifiedName>)
    requires table(m, a, c, k, ing), 0 <= k < a.len(), sets_nonstruct(a[k]), nonstruct_entry(m2, a[k]), names_unique(a),
        m2.dom() =~= m.dom().insert(a[k].qname()),
        forall|n: QualifiedName| n != a[k].qname() ==> #[trigger] m2[n] == m[n],
    ensures table(m2, a, c, k + 1, ing),
{
    reveal(table);
    assert forall|n: QualifiedName| #[trigger] m2.dom().contains(n) implies
        base_entry(m2, n) || (exists|i: int| 0 <= i < k + 1 && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n) || ing.contains(n) by {
        if n == a[k].qname() { assert(sets_nonstruct(a[k])); }
        else {
            assert(m.dom().contains(n));
            if exists|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n {
                let i = choose|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n;
                assert(0 <= i < k + 1);
            }
        }
    }
    assert forall|n: QualifiedName| #[trigger] m2.dom().contains(n) && blocked(c, n) && !has_name(a, n) implies !(m2[n].state is IsPod) && !(m2[n].state is SafeToBePod) && !(m2[n].state is IsAlias) by {
        assert(n != a[k].qname());
        assert(m.dom().contains(n));
    }
    assert forall|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) implies nonstruct_entry(m2, a[i]) by { assert(a[i].qname() != a[k].qname()); }
    assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && ing.contains(a[i].qname()) implies struct_entry(m2, a[i].qname(), item_of(a[i])) by {
        assert(a[i].qname() != a[k].qname());
    }
}
pub proof fn lemma_table_struct(m: Res, m2: Res, a: Seq<Api<TypedefPhase>>, c: IncludeCppConfig, k: int, ing: Set<QualifiedName>, e: (&QualifiedName, &ItemStruct))
    requires table(m, a, c, k, ing), 0 <= k <= a.len(), from_apis(a, e), struct_entry(m2, *e.0, *e.1), names_unique(a),
        m2.dom() =~= m.dom().insert(*e.0),
        forall|n: QualifiedName| n != *e.0 ==> #[trigger] m2[n] == m[n],
    ensures table(m2, a, c, k, ing.insert(*e.0)),
{
    reveal(table);
    let s = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && a[i].qname() == *e.0 && item_of(a[i]) == *e.1;
    assert(struct_named(a, *e.0));
    assert forall|n: QualifiedName| #[trigger] m2.dom().contains(n) implies
        base_entry(m2, n) || (exists|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n) || ing.insert(*e.0).contains(n) by {
        if n != *e.0 { assert(m.dom().contains(n)); assert(m2[n] == m[n]);
            if exists|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n {
                let i = choose|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) && a[i].qname() == n;
            }
        }
    }
    assert forall|n: QualifiedName| #[trigger] m2.dom().contains(n) && blocked(c, n) && !has_name(a, n) implies !(m2[n].state is IsPod) && !(m2[n].state is SafeToBePod) && !(m2[n].state is IsAlias) by {
        assert(a[s].qname() == *e.0);
        assert(n != *e.0);
        assert(m.dom().contains(n));
    }
    assert forall|i: int| 0 <= i < k && sets_nonstruct(#[trigger] a[i]) implies nonstruct_entry(m2, a[i]) by { assert(a[i].qname() != a[s].qname()); }
    assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && ing.insert(*e.0).contains(a[i].qname()) implies struct_entry(m2, a[i].qname(), item_of(a[i])) by {
        if a[i].qname() == *e.0 { assert(i == s); }
    }
}
pub proof fn lemma_sound(m0: Res, m: Res, a: Seq<Api<TypedefPhase>>, c: IncludeCppConfig, ing: Set<QualifiedName>)
    requires table(m0, a, c, a.len() as int, ing), names_unique(a), promoted(m0, m), closed_under(m0, m, Seq::empty()),
        forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct ==> ing.contains(a[i].qname()),
    ensures forall|i: int| 0 <= i < a.len() ==> sound_for(m, #[trigger] a[i]),
        forall|n: QualifiedName| #[trigger] pod(m, n) ==> has_name(a, n) || known_pod(n),
        forall|n: QualifiedName| #[trigger] pod(m, n) && blocked(c, n) ==> has_name(a, n),
{
    reveal(table);
    assert forall|i: int| 0 <= i < a.len() implies sound_for(m, #[trigger] a[i]) by {
        let n = a[i].qname();
        if pod(m, n) {
            assert(m0.dom().contains(n));
            match a[i] {
                Api::Struct { details, .. } => {
                    assert(struct_entry(m0, n, item_of(a[i])));
                    assert forall|f: QualifiedName| #[trigger] field_ty(details.item, f) implies pod(m, f) by {
                        assert(wants(m0, n, f));
                        lemma_has_empty(f);
                    }
                }
                Api::Typedef { analysis, .. } => {
                    assert(sets_nonstruct(a[i]));
                    match alias_of(analysis.kind) { Some(t) => { assert(wants(m0, n, t)); lemma_has_empty(t); } None => {} }
                }
                _ => {
                    if !plain_pod(a[i]) {
                        assert(!sets_nonstruct(a[i]));
                        if exists|j: int| 0 <= j < a.len() && sets_nonstruct(#[trigger] a[j]) && a[j].qname() == n {
                            let j = choose|j: int| 0 <= j < a.len() && sets_nonstruct(#[trigger] a[j]) && a[j].qname() == n;
                            assert(i == j);
                        }
                        if ing.contains(n) { assert(struct_named(a, n)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]) is Struct && a[j].qname() == n; assert(i == j); }
                    }
                }
            }
        }
    }
    assert forall|n: QualifiedName| #[trigger] pod(m, n) implies has_name(a, n) || known_pod(n) by {
        assert(m0.dom().contains(n));
        if ing.contains(n) { assert(struct_named(a, n)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]) is Struct && a[j].qname() == n; }
    }
    assert forall|n: QualifiedName| #[trigger] pod(m, n) && blocked(c, n) implies has_name(a, n) by { assert(m0.dom().contains(n)); }
}
/// satisfy_requests only ever promotes, and only what may be promoted
pub open spec fn promoted(m0: Res, m: Res) -> bool {
    &&& m.dom() =~= m0.dom()
    &&& forall|n: QualifiedName| #[trigger] m.dom().contains(n) ==> m[n].dependent_structs == m0[n].dependent_structs
        && (m[n].state == m0[n].state || (m[n].state is IsPod && (m0[n].state is SafeToBePod || m0[n].state is IsAlias)))
}
pub open spec fn wants(m0: Res, n: QualifiedName, d: QualifiedName) -> bool {
    (m0[n].state is SafeToBePod && vx_has(m0[n].dependent_structs@, d)) || m0[n].state == PodState::IsAlias(d)
}
pub open spec fn closed_under(m0: Res, m: Res, todo: Seq<QualifiedName>) -> bool {
    forall|n: QualifiedName, d: QualifiedName| pod(m, n) && #[trigger] wants(m0, n, d) ==> pod(m, d) || vx_has(todo, d)
}
pub proof fn lemma_pend_push(a: Seq<Api<TypedefPhase>>, p: Seq<(&QualifiedName, &ItemStruct)>, p2: Seq<(&QualifiedName, &ItemStruct)>, k: int)
    requires all_from(a, p), accounted(a, p, Seq::empty(), Set::empty(), k), 0 <= k < a.len(),
        p2 == (if a[k] is Struct { p.push((&a[k].qname(), &item_of(a[k]))) } else { p }),
    ensures all_from(a, p2), accounted(a, p2, Seq::empty(), Set::empty(), k + 1),
{
    assert forall|i: int| 0 <= i < k + 1 && (#[trigger] a[i]) is Struct implies pends(p2, a[i].qname(), item_of(a[i])) by {
        if i < k {
            assert(pends(p, a[i].qname(), item_of(a[i])));
            let j = choose|j: int| 0 <= j < p.len() && *(#[trigger] p[j]).0 == a[i].qname() && *p[j].1 == item_of(a[i]);
            assert(p2[j] == p[j]);
        } else { let e = p2[p.len() as int]; }
    }
    assert forall|j: int| 0 <= j < p2.len() implies from_apis(a, #[trigger] p2[j]) by {
        if j < p.len() { assert(p2[j] == p[j]); }
    }
}
pub proof fn lemma_split(a: Seq<Api<TypedefPhase>>, p: Seq<(&QualifiedName, &ItemStruct)>, r: Seq<(&QualifiedName, &ItemStruct)>, b: Seq<(&QualifiedName, &ItemStruct)>, ing: Set<QualifiedName>)
    requires all_from(a, p), accounted(a, p, Seq::empty(), ing, a.len() as int),
        forall|j: int| 0 <= j < r.len() ==> vx_has(p, #[trigger] r[j]),
        forall|j: int| 0 <= j < b.len() ==> vx_has(p, #[trigger] b[j]),
        forall|j: int| 0 <= j < p.len() ==> vx_has(r, #[trigger] p[j]) || vx_has(b, p[j]),
    ensures all_from(a, r), all_from(a, b), accounted(a, r.skip(0), b, ing, a.len() as int),
{
    assert(r.skip(0) =~= r);
    assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && !ing.contains(a[i].qname()) implies
        pends(r, a[i].qname(), item_of(a[i])) || pends(b, a[i].qname(), item_of(a[i])) by {
        assert(pends(p, a[i].qname(), item_of(a[i])));
        let j = choose|j: int| 0 <= j < p.len() && *(#[trigger] p[j]).0 == a[i].qname() && *p[j].1 == item_of(a[i]);
        if vx_has(r, p[j]) { let q = choose|q: int| 0 <= q < r.len() && #[trigger] r[q] == p[j]; }
        else { assert(vx_has(b, p[j])); let q = choose|q: int| 0 <= q < b.len() && #[trigger] b[q] == p[j]; }
    }
}
pub proof fn lemma_skip1(a: Seq<Api<TypedefPhase>>, r: Seq<(&QualifiedName, &ItemStruct)>, b: Seq<(&QualifiedName, &ItemStruct)>, ing: Set<QualifiedName>, k: int)
    requires accounted(a, r.skip(k), b, ing, a.len() as int), 0 <= k < r.len(),
    ensures accounted(a, r.skip(k + 1), b, ing.insert(*r[k].0), a.len() as int),
{
    let s = r.skip(k); let t = r.skip(k + 1);
    assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct && !ing.insert(*r[k].0).contains(a[i].qname()) && !pends(b, a[i].qname(), item_of(a[i])) implies
        pends(t, a[i].qname(), item_of(a[i])) by {
        assert(pends(s, a[i].qname(), item_of(a[i])));
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == a[i].qname() && *s[j].1 == item_of(a[i]);
        assert(s[j] == r[k + j]);
        assert(j > 0);
        assert(t[j - 1] == s[j]);
    }
}
pub proof fn lemma_done(a: Seq<Api<TypedefPhase>>, r: Seq<(&QualifiedName, &ItemStruct)>, b: Seq<(&QualifiedName, &ItemStruct)>, ing: Set<QualifiedName>)
    requires accounted(a, r.skip(r.len() as int), b, ing, a.len() as int),
    ensures accounted(a, b, Seq::empty(), ing, a.len() as int),
{ }
pub proof fn lemma_none_pending(a: Seq<Api<TypedefPhase>>, p: Seq<(&QualifiedName, &ItemStruct)>, ing: Set<QualifiedName>)
    requires accounted(a, p, Seq::empty(), ing, a.len() as int), p.len() == 0,
    ensures forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Struct ==> ing.contains(a[i].qname()),
{ }
pub proof fn lemma_has_last(t: Seq<QualifiedName>)
    requires t.len() > 0,
    ensures forall|n: QualifiedName| #[trigger] vx_has(t, n) ==> n == t.last() || vx_has(t.remove(t.len() - 1), n),
{
    let u = t.remove(t.len() - 1);
    assert forall|n: QualifiedName| #[trigger] vx_has(t, n) implies n == t.last() || vx_has(u, n) by {
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == n;
        if i < t.len() - 1 { assert(u[i] == n); }
    }
}

impl StructDetails {
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs StructDetails::new
%ensures
    r.state == state, r.dependent_structs@ == Seq::<QualifiedName>::empty(),
@@end
}
impl ByValueChecker {
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::new
%ensures
    forall|n: QualifiedName| #[trigger] r.results@.dom().contains(n) ==> base_entry(r.results@, n),
%nloops 1
%loop 0
    invariant forall|n: QualifiedName| #[trigger] results@.dom().contains(n) ==> base_entry(results@, n),
        forall|i: int| 0 <= i < __all0.len() && (#[trigger] __all0[i]).1 ==> known_pod(__all0[i].0),
@@end
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::ingest_nonpod_type
%ensures
    final(self).results@.dom() == old(self).results@.dom().insert(tyname),
    final(self).results@[tyname].state is UnsafeToBePod,
    final(self).results@[tyname].dependent_structs@.len() == 0,
    forall|n: QualifiedName| n != tyname ==> #[trigger] final(self).results@[n] == old(self).results@[n],
@@end
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::is_pod
%ensures
    r == pod(self.results@, *ty_id),
@@end
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::has_vtable
%attr #[verifier::loop_isolation(false)]
%ensures
    r == has_vtable_spec(*def),
%nloops 1
%loop 0
    invariant forall|i: int| 0 <= i < __it0.pos() ==> !is_vtable_field(#[trigger] def.fields@[i]),
@@end
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::get_field_types
%attr #[verifier::loop_isolation(false)]
%ensures
    forall|n: QualifiedName| #[trigger] field_ty(*def, n) <==> vx_has(r@, n),
    forall|n: QualifiedName| #[trigger] vx_has(r@, n) ==> field_ty(*def, n),
%begin
    broadcast use vx_has_lemmas;
%nloops 2
%loopbegin 0
    broadcast use vx_has_lemmas;
    let ghost k0 = __it0.pos() - 1;
%loop 0
    invariant forall|i: int, n: QualifiedName| 0 <= i < __it0.pos() && #[trigger] is_field_of(def.fields@[i], n) ==> vx_has(results@, n),
        forall|n: QualifiedName| #[trigger] vx_has(results@, n) ==> field_ty(*def, n),
        __it0.all().len() == def.fields@.len(), forall|i: int| 0 <= i < def.fields@.len() ==> *#[trigger] __it0.all()[i] == def.fields@[i],
%loop 1
    invariant elem_ty(*fty) == elem_ty(def.fields@[k0].ty),
    decreases *fty,
%loopend 0
    proof { assert(*f == def.fields@[k0]); }
@@end
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::ingest_struct
%prerewrite `. into ()` => ``
%attr #[verifier::loop_isolation(false)]
%ensures
    final(self).results@.dom() == old(self).results@.dom().insert(qn_of(*ns, def.ident)),
    struct_entry(final(self).results@, qn_of(*ns, def.ident), *def),
    forall|n: QualifiedName| n != qn_of(*ns, def.ident) ==> #[trigger] final(self).results@[n] == old(self).results@[n],
%nloops 1
%loop 0
    invariant field_safety_problem is SafeToBePod || field_safety_problem is UnsafeToBePod,
@@end
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::satisfy_requests
%ensures
    promoted(old(self).results@, final(self).results@),
    r is Ok ==> closed_under(old(self).results@, final(self).results@, Seq::empty()),
    r is Ok ==> forall|i: int| 0 <= i < requests@.len() ==> pod(final(self).results@, #[trigger] requests@[i]),
%attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
%begin
    broadcast use vx_has_lemmas;
    let ghost m0 = self.results@;
    let ghost req0 = requests@;
%nloops 1
%loopbegin 0
    broadcast use vx_has_lemmas;
    let ghost t0 = requests@; let ghost m1 = self.results@;
    proof { lemma_has_last(t0); }
%loop 0
    invariant promoted(m0, self.results@), closed_under(m0, self.results@, requests@),
        forall|i: int| 0 <= i < req0.len() ==> pod(self.results@, #[trigger] req0[i]) || vx_has(requests@, req0[i]),
@@end
@@fn engine/src/conversion/analysis/pod/byvalue_checker.rs ByValueChecker::new_from_apis
%requires
    apis.wf(), named_by_ident(apis.apis@),
%ensures
    // Nothing is plain data unless everything in it is, and nothing polymorphic is.
    r matches Ok(c) ==> forall|i: int| 0 <= i < apis.apis@.len() ==> sound_for(c.results@, #[trigger] apis.apis@[i]),
    r matches Ok(c) ==> forall|n: QualifiedName| #[trigger] pod(c.results@, n) ==> has_name(apis.apis@, n) || known_pod(n),
    r matches Ok(c) ==> forall|n: QualifiedName| #[trigger] pod(c.results@, n) && blocked(*config, n) ==> has_name(apis.apis@, n),
    // Every plain-data request is honoured or refused.
    r matches Ok(c) ==> forall|i: int| 0 <= i < config.pod_reqs().len() ==> pod(c.results@, cpp_str_name((#[trigger] config.pod_reqs()[i])@)),
%attr #[verifier::loop_isolation(false)]
%begin
    broadcast use vx_has_lemmas;
    let ghost a = apis.apis@;
    let ghost mut ing: Set<QualifiedName> = Set::empty();
%prerewrite? `type_item . ty . as_ref ()` => `& * type_item . ty`
%prerewrite `crate :: minisyn :: Type (Type :: Path (ref typ))` => `Type::Path(ref typ)`
%prerewrite `names . contains (ty)` => `names.contains(&ty)`
%prerewrite `. map_err (ConvertErrorFromCpp :: UnsafePodType)` => `. map_err(|e: String| ConvertErrorFromCpp::UnsafePodType(e))`
%prerewrite? `let mut pending = Vec :: new () ;` => `let mut pending: Vec<(&QualifiedName, &ItemStruct)> = Vec::new();`
%closure 1
 -> (vr: bool)
%closure 2
 -> (vr: bool)
%nloops 5
%loop 0
    invariant forall|n: QualifiedName| #[trigger] byvalue_checker.results@.dom().contains(n) ==> base_entry(byvalue_checker.results@, n),
        forall|i: int| 0 <= i < __it0.pos() ==> byvalue_checker.results@.dom().contains(cpp_str_name((#[trigger] config.blocklist()[i])@)) && byvalue_checker.results@[cpp_str_name(config.blocklist()[i]@)].state is UnsafeToBePod,
%loopbefore 1
    proof { lemma_table_init(byvalue_checker.results@, a, *config); }
%loopbegin 1
    let ghost m1 = byvalue_checker.results@; let ghost k1 = __it1.pos() - 1;
    proof { assert(*api == a[k1]); }
%loopend 1
    proof {
        if sets_nonstruct(a[k1]) { lemma_table_nonstruct(m1, byvalue_checker.results@, a, *config, k1, ing); }
        else { lemma_table_skip(m1, a, *config, k1, ing); }
    }
%loop 1
    invariant table(byvalue_checker.results@, a, *config, __it1.pos(), Set::empty()),
%loopbegin 2
    let ghost k2 = __it2.pos() - 1; let ghost p2 = pending@;
    proof { assert(*api == a[k2]); }
%loopend 2
    proof { lemma_pend_push(a, p2, pending@, k2); }
%loop 2
    invariant all_from(a, pending@), accounted(a, pending@, Seq::empty(), Set::empty(), __it2.pos()),
%loop 3
    invariant all_from(a, pending@), accounted(a, pending@, Seq::empty(), ing, a.len() as int),
        table(byvalue_checker.results@, a, *config, a.len() as int, ing),
    decreases pending@.len(),
%loopbegin 3
    broadcast use vx_has_lemmas;
    let ghost p3 = pending@;
%loopbefore 4
    let ghost r3 = ready@;
    proof { lemma_split(a, p3, r3, blocked@, ing); }
%loop 4
    invariant all_from(a, r3), accounted(a, r3.skip(__it4.pos()), blocked@, ing, a.len() as int), __all4 == r3,
        table(byvalue_checker.results@, a, *config, a.len() as int, ing),
%loopbegin 4
    let ghost m4 = byvalue_checker.results@; let ghost k4 = __it4.pos() - 1;
%loopend 4
    proof {
        assert(from_apis(a, r3[k4]));
        lemma_table_struct(m4, byvalue_checker.results@, a, *config, a.len() as int, ing, r3[k4]);
        lemma_skip1(a, r3, blocked@, ing, k4);
        ing = ing.insert(*r3[k4].0);
    }
%loopafter 4
    proof { lemma_done(a, r3, blocked@, ing); }
%end
    proof { lemma_sound(m5, byvalue_checker.results@, a, *config, ing); }
%loopafter 3
    proof { lemma_none_pending(a, pending@, ing); }
    let ghost m5 = byvalue_checker.results@;
@@end
}
} // verus!
fn main(){}
