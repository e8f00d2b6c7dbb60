@@include core.rs
@@include qname.rs
@@set ERR_VARIANTS AssignmentOperator,
@@set STRUCT_DETAILS Box<ApiStructDetails>
@@set API_KEEP Struct.details Function.fun
@@include syn.rs
verus! {
pub struct ApiStructDetails { pub has_rvalue_reference_fields: bool, pub rest: VxOpaque }
// --- what bindgen reports about a C++ function --------------------------------------
pub enum CppVisibility { Public, Protected, Private }
impl Copy for CppVisibility {}
impl Clone for CppVisibility {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub enum Explicitness { Defaulted, Deleted }
pub enum SpecialMemberKind { DefaultConstructor, CopyConstructor, MoveConstructor, Destructor, AssignmentOperator }
pub struct PatType { pub pat: VxOpaque, pub ty: Box<Type> }
pub enum FnArg { Receiver(VxOpaque), Typed(PatType) }
/// autocxx's newtype around syn::FnArg
pub struct MFnArg(pub FnArg);
pub struct FuncToConvert {
    pub inputs: Vec<MFnArg>, pub cpp_vis: CppVisibility, pub special_member: Option<SpecialMemberKind>,
    pub is_deleted: Option<Explicitness>, pub rest: VxOpaque,
}
}
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
@@include depth_first.rs
verus! {
pub fn vx_id<T>(t: T) -> (r: T) ensures r == t { t }
pub trait VxUnwrap<T>: Sized { spec fn has(self, t: T) -> bool; fn vx_unwrap(self) -> (r: T) ensures self.has(r); }
impl<T> VxUnwrap<T> for Option<T> {
    open spec fn has(self, t: T) -> bool { self == Some(t) }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { unimplemented!() }
}
@@type engine/src/conversion/api.rs TypeKind
as ApiTypeKind
@@end
@@type engine/src/conversion/analysis/type_converter.rs TypeKind
@@end
@@type engine/src/conversion/analysis/pod/mod.rs FieldInfo
@@end
@@type engine/src/conversion/analysis/pod/mod.rs PodAnalysis
kind => ApiTypeKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ReceiverMutability
@@end
@@type engine/src/conversion/analysis/fun/mod.rs MethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs TraitMethodKind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnKind
* => VxOpaque
keep Method.impl_for TraitMethod.impl_for Method.method_kind TraitMethod.kind
@@end
@@type engine/src/conversion/analysis/fun/mod.rs ArgumentAnalysis
* => VxOpaque
keep self_type
@@end
@@type engine/src/conversion/analysis/fun/mod.rs FnAnalysis
* => VxOpaque
keep kind param_details ignore_reason
@@end
pub struct FnPrePhase1;
impl AnalysisPhase for FnPrePhase1 { type TypedefAnalysis = VxOpaque; type StructAnalysis = PodAnalysis; type FunAnalysis = FnAnalysis; }
pub type A1 = Api<FnPrePhase1>;
@@type engine/src/known_types.rs KnownTypeConstructorDetails
@@end
pub struct TypeDatabase;
#[verifier::external_body]
pub fn known_types() -> (r: TypeDatabase) { unimplemented!() }
pub uninterp spec fn known_ctors(q: QualifiedName) -> Option<KnownTypeConstructorDetails>;
impl TypeDatabase {
    #[verifier::external_body]
    pub fn get_constructor_details(&self, q: &QualifiedName) -> (r: Option<KnownTypeConstructorDetails>) ensures r == known_ctors(*q) { unimplemented!() }
}
/// bindgen's marker for `T&` (false) or `T&&` (true)
pub uninterp spec fn refers(t: Type, rvalue: bool) -> bool;
#[verifier::external_body]
pub fn type_is_reference(ty: &Type, search_for_rvalue: bool) -> (r: bool) ensures r == refers(*ty, search_for_rvalue) { unimplemented!() }

// --- one special member of one class ----------------------------------------------------
@@type engine/src/conversion/analysis/fun/implicit_constructors.rs SpecialMemberFound
@@end
impl Copy for SpecialMemberFound {}
impl Clone for SpecialMemberFound {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn public(s: SpecialMemberFound) -> bool { s is Implicit || s == SpecialMemberFound::Explicit(CppVisibility::Public) }
/// usable by a derived class
pub open spec fn inheritable(s: SpecialMemberFound) -> bool { public(s) || s == SpecialMemberFound::Explicit(CppVisibility::Protected) }
impl SpecialMemberFound {
    pub open spec fn callable_any_s(&self) -> bool { public(*self) }
    pub open spec fn callable_subclass_s(&self) -> bool { inheritable(*self) }
    pub open spec fn exists_s(&self) -> bool { !(*self is NotPresent) }
    pub open spec fn exists_implicit_s(&self) -> bool { *self is Implicit }
    pub open spec fn exists_explicit_s(&self) -> bool { *self is Explicit }
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs SpecialMemberFound::callable_any
%attr #[verifier::when_used_as_spec(callable_any_s)]
%ensures
    r == public(*self),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs SpecialMemberFound::callable_subclass
%attr #[verifier::when_used_as_spec(callable_subclass_s)]
%ensures
    r == inheritable(*self),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs SpecialMemberFound::exists
%attr #[verifier::when_used_as_spec(exists_s)]
%ensures
    r == !(*self is NotPresent),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs SpecialMemberFound::exists_implicit
%attr #[verifier::when_used_as_spec(exists_implicit_s)]
%ensures
    r == (*self is Implicit),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs SpecialMemberFound::exists_explicit
%attr #[verifier::when_used_as_spec(exists_explicit_s)]
%ensures
    r == (*self is Explicit),
@@end
}
@@type engine/src/conversion/analysis/fun/implicit_constructors.rs ItemsFound
@@end
impl Clone for ItemsFound {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the special members of a class
pub struct SM { pub def: SpecialMemberFound, pub dtor: SpecialMemberFound, pub cc: SpecialMemberFound, pub ncc: SpecialMemberFound, pub mv: SpecialMemberFound }
pub open spec fn sm_of(i: ItemsFound) -> SM {
    SM { def: i.default_constructor, dtor: i.destructor, cc: i.const_copy_constructor, ncc: i.non_const_copy_constructor, mv: i.move_constructor }
}
impl ItemsFound {
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs ItemsFound::implicit_default_constructor_needed
%ensures
    r == (self.default_constructor is Implicit),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs ItemsFound::implicit_copy_constructor_needed
%ensures
    r == ((self.const_copy_constructor is Implicit || self.non_const_copy_constructor is Implicit)
        && !(self.const_copy_constructor is Explicit) && !(self.non_const_copy_constructor is Explicit)),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs ItemsFound::implicit_move_constructor_needed
%ensures
    r == (self.move_constructor is Implicit),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs ItemsFound::implicit_destructor_needed
%ensures
    r == (self.destructor is Implicit),
@@end
}

// --- what each class declares -------------------------------------------------------------
@@type engine/src/conversion/analysis/fun/implicit_constructors.rs ExplicitKind
@@end
@@type engine/src/conversion/analysis/fun/implicit_constructors.rs ExplicitType
@@end
@@type engine/src/conversion/analysis/fun/implicit_constructors.rs ExplicitFound
@@end
impl Copy for ExplicitFound {}
impl Clone for ExplicitFound {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K;
    pub uninterp spec fn cur(&self) -> Map<K, V>;
    pub uninterp spec fn fin(&self) -> Map<K, V>;
    /// (taken by value: the code inserts at most once)
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: V) ensures self.fin() == self.cur().insert(self.key(), v) { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K;
    pub uninterp spec fn cur(&self) -> Map<K, V>;
    pub uninterp spec fn fin(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn insert(self, v: V) ensures self.fin() == self.cur().insert(self.key(), v) { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures
            r is Occupied == old(self)@.dom().contains(k),
            r matches Entry::Occupied(e) ==> e.key() == k && e.cur() == old(self)@ && final(self)@ == e.fin(),
            r matches Entry::Vacant(e) ==> e.key() == k && e.cur() == old(self)@ && final(self)@ == e.fin(),
    { unimplemented!() }
}
pub open spec fn is_rvalue_arg(a: MFnArg) -> bool { a.0 matches FnArg::Typed(t) && refers(*t.ty, true) }
pub open spec fn has_rvalue_arg(f: FuncToConvert) -> bool { exists|i: int| 0 <= i < f.inputs@.len() && is_rvalue_arg(#[trigger] f.inputs@[i]) }
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn any_input_is_rvalue_reference
%sig
pub fn any_input_is_rvalue_reference(inputs: &Vec<MFnArg>) -> (r: bool)
%prerewrite `syn :: FnArg ::` => `FnArg::`
%prerewrite? `ty . as_ref ()` => `& * * ty`
%ensures
    r == exists|i: int| 0 <= i < inputs@.len() && is_rvalue_arg(#[trigger] inputs@[i]),
%closure 0
 -> (vr: bool) ensures vr == is_rvalue_arg(*input)
@@end
pub open spec fn is_assignment(f: FuncToConvert) -> bool { f.special_member matches Some(k) && k is AssignmentOperator }
pub open spec fn recv_mut(a: FnAnalysis) -> ReceiverMutability { a.param_details@[0].self_type.unwrap().1 }
/// The special member (or other constructor) which this function declares, and its class.
pub open spec fn declares(x: A1) -> Option<ExplicitType> {
    match x {
        Api::Function { analysis, fun, .. } => match analysis.kind {
            FnKind::Method { impl_for, method_kind, .. } =>
                if is_assignment(*fun) {
                    // one which can't be understood makes the whole class unknown instead
                    if unclear_assignment(x) { None }
                    else if has_rvalue_arg(*fun) { Some(ExplicitType { ty: impl_for, kind: ExplicitKind::MoveAssignmentOperator }) }
                    else { Some(ExplicitType { ty: impl_for, kind: match recv_mut(analysis) {
                        ReceiverMutability::Const => ExplicitKind::ConstCopyAssignmentOperator,
                        ReceiverMutability::Mutable => ExplicitKind::NonConstCopyAssignmentOperator } }) }
                } else { match method_kind {
                    MethodKind::Constructor { is_default } => Some(ExplicitType { ty: impl_for, kind: if is_default { ExplicitKind::DefaultConstructor } else { ExplicitKind::OtherConstructor } }),
                    _ => None,
                } },
            FnKind::TraitMethod { impl_for, kind, .. } => match kind {
                TraitMethodKind::Destructor => Some(ExplicitType { ty: impl_for, kind: ExplicitKind::Destructor }),
                TraitMethodKind::CopyConstructor => Some(ExplicitType { ty: impl_for, kind: ExplicitKind::ConstCopyConstructor }),
                TraitMethodKind::MoveConstructor => Some(ExplicitType { ty: impl_for, kind: ExplicitKind::MoveConstructor }),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
/// An assignment operator which failed to convert, so that its kind isn't known.
pub open spec fn unclear_assignment(x: A1) -> bool {
    x matches Api::Function { analysis, fun, .. } && is_assignment(*fun) && analysis.kind is Method
        && (analysis.ignore_reason matches Err(e) && !(e.0 is AssignmentOperator))
}
pub open spec fn unclear_for(x: A1, n: QualifiedName) -> bool { unclear_assignment(x) && (x matches Api::Function { analysis, .. } && (analysis.kind matches FnKind::Method { impl_for, .. } && impl_for == n)) }
pub open spec fn unclear(a: Seq<A1>, n: QualifiedName) -> bool { exists|i: int| 0 <= i < a.len() && unclear_for(#[trigger] a[i], n) }
pub open spec fn one_found(f: FuncToConvert) -> ExplicitFound { if f.is_deleted == Some(Explicitness::Deleted) { ExplicitFound::Deleted } else { ExplicitFound::UserDefined(f.cpp_vis) } }
pub open spec fn fun_of(x: A1) -> FuncToConvert { *x->Function_fun }
/// not declared, declared once, or several times
pub open spec fn expl(a: Seq<A1>, t: ExplicitType) -> Option<ExplicitFound>
    decreases a.len(),
{
    if a.len() == 0 { None }
    else if declares(a.last()) == Some(t) { if expl(a.drop_last(), t) is None { Some(one_found(fun_of(a.last()))) } else { Some(ExplicitFound::Multiple) } }
    else { expl(a.drop_last(), t) }
}
pub open spec fn expl_map(a: Seq<A1>, m: Map<ExplicitType, ExplicitFound>) -> bool {
    forall|t: ExplicitType| (#[trigger] m.dom().contains(t) <==> expl(a, t) is Some) && (m.dom().contains(t) ==> expl(a, t) == Some(m[t]))
}
pub proof fn lemma_expl_step(a: Seq<A1>, k: int, m: Map<ExplicitType, ExplicitFound>, m2: Map<ExplicitType, ExplicitFound>)
    requires 0 <= k < a.len(), expl_map(a.take(k), m),
        declares(a[k]) is None ==> m2 == m,
        declares(a[k]) matches Some(t) ==> m2 == m.insert(t, if m.dom().contains(t) { ExplicitFound::Multiple } else { one_found(fun_of(a[k])) }),
    ensures expl_map(a.take(k + 1), m2),
{
    let b = a.take(k + 1);
    assert(b.drop_last() =~= a.take(k)); assert(b.last() == a[k]);
    assert forall|t: ExplicitType| (#[trigger] m2.dom().contains(t) <==> expl(b, t) is Some) && (m2.dom().contains(t) ==> expl(b, t) == Some(m2[t])) by {
        assert(m.dom().contains(t) <==> expl(a.take(k), t) is Some);
    }
}
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_explicit_items
%slice closure merge_fun
%sig
pub fn merge_fun(result: &mut HashMap<ExplicitType, ExplicitFound>, ty: QualifiedName, kind: ExplicitKind, fun: &FuncToConvert)
%prerewrite `. entry` => `.vx_entry`
%rewrite? `Entry :: Occupied (mut entry)` => `Entry::Occupied(entry)`
%ensures
    final(result)@ == old(result)@.insert(ExplicitType { ty, kind }, if old(result)@.dom().contains(ExplicitType { ty, kind }) { ExplicitFound::Multiple } else { one_found(*fun) }),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_explicit_items
%hoisted merge_fun result
%panics
%prerewrite? `let mut result = HashMap :: new ()` => `let mut result: HashMap<ExplicitType, ExplicitFound> = HashMap::new()`
%prerewrite? `let mut unknown_types = HashSet :: new ()` => `let mut unknown_types: HashSet<QualifiedName> = HashSet::new()`
%ensures
    expl_map(apis.apis@, r.0@),
    forall|n: QualifiedName| #[trigger] r.1@.contains(n) <==> unclear(apis.apis@, n),
%begin
    let ghost a = apis.apis@;
%nloops 1
%loop 0
    invariant
        expl_map(a.take(__it0.pos()), result@),
        forall|n: QualifiedName| #[trigger] unknown_types@.contains(n) <==> unclear(a.take(__it0.pos()), n),
        __it0.all().len() == a.len(), forall|i: int| 0 <= i < a.len() ==> *#[trigger] __it0.all()[i] == a[i],
%loopbegin 0
    let ghost k0 = __it0.pos() - 1; let ghost m0 = result@; let ghost u0 = unknown_types@;
    assert(*api == a[k0]);
%loopend 0
    proof {
        lemma_expl_step(a, k0, m0, result@);
        lemma_unclear_step(a, k0, u0, unknown_types@);
    }
%loopafter 0
    proof { assert(a.take(a.len() as int) =~= a); }
@@end
pub proof fn lemma_unclear_step(a: Seq<A1>, k: int, u: Set<QualifiedName>, v: Set<QualifiedName>)
    requires 0 <= k < a.len(), forall|n: QualifiedName| #[trigger] u.contains(n) <==> unclear(a.take(k), n),
        forall|n: QualifiedName| #[trigger] v.contains(n) <==> u.contains(n) || unclear_for(a[k], n),
    ensures forall|n: QualifiedName| #[trigger] v.contains(n) <==> unclear(a.take(k + 1), n),
{
    let s = a.take(k); let t = a.take(k + 1);
    assert forall|n: QualifiedName| #[trigger] v.contains(n) <==> unclear(t, n) by {
        if unclear(s, n) { let i = choose|i: int| 0 <= i < s.len() && unclear_for(#[trigger] s[i], n); assert(t[i] == s[i]); }
        if unclear_for(a[k], n) { assert(t[k] == a[k]); }
        if unclear(t, n) { let i = choose|i: int| 0 <= i < t.len() && unclear_for(#[trigger] t[i], n); if i < k { assert(s[i] == t[i]); } }
        assert(u.contains(n) <==> unclear(s, n));
    }
}

// --- the C++ rules -----------------------------------------------------------------------
// [class.default.ctor], [class.copy.ctor], [class.dtor]: which special members a
// class has, given what it declares and what its bases and members have. Unions,
// volatile and default member initializers are out (a member initializer can only
// make more constructors exist). A user-declared function counts as it was declared.
pub open spec fn key(n: QualifiedName, kind: ExplicitKind) -> ExplicitType { ExplicitType { ty: n, kind } }
/// a function declared by the user: its access, or nothing when it's deleted (or declared several times)
pub open spec fn declared(e: ExplicitFound) -> SpecialMemberFound { match e { ExplicitFound::UserDefined(v) => SpecialMemberFound::Explicit(v), _ => SpecialMemberFound::NotPresent } }
pub enum Rule { Default, Dtor, Copy, ConstCopy, Move }
/// what the rule asks of each base class
pub open spec fn base_ok(r: Rule, s: SM) -> bool {
    match r {
        Rule::Default => inheritable(s.dtor) && inheritable(s.def),
        Rule::Dtor => inheritable(s.dtor),
        Rule::Copy => inheritable(s.dtor) && (inheritable(s.cc) || inheritable(s.ncc)),
        Rule::ConstCopy => !(s.cc is NotPresent),
        Rule::Move => inheritable(s.dtor) && inheritable(s.mv),
    }
}
/// what the rule asks of each member
pub open spec fn member_ok(r: Rule, s: SM) -> bool {
    match r {
        Rule::Default => public(s.dtor) && public(s.def),
        Rule::Dtor => public(s.dtor),
        Rule::Copy => public(s.dtor) && (public(s.cc) || public(s.ncc)),
        Rule::ConstCopy => !(s.cc is NotPresent),
        Rule::Move => public(s.dtor) && public(s.mv),
    }
}
/// any constructor declared by the user suppresses the default one
pub open spec fn is_ctor(k: ExplicitKind) -> bool { k is ConstCopyConstructor || k is NonConstCopyConstructor || k is MoveConstructor || k is OtherConstructor }
/// declared by the user: suppresses the implicit move constructor
pub open spec fn no_move(a: Seq<A1>, n: QualifiedName) -> bool {
    expl(a, key(n, ExplicitKind::ConstCopyConstructor)) is Some || expl(a, key(n, ExplicitKind::NonConstCopyConstructor)) is Some
    || expl(a, key(n, ExplicitKind::ConstCopyAssignmentOperator)) is Some || expl(a, key(n, ExplicitKind::NonConstCopyAssignmentOperator)) is Some
    || expl(a, key(n, ExplicitKind::MoveAssignmentOperator)) is Some || expl(a, key(n, ExplicitKind::Destructor)) is Some
}
pub open spec fn other_ctor(a: Seq<A1>, n: QualifiedName) -> bool { exists|k: ExplicitKind| is_ctor(k) && (#[trigger] expl(a, key(n, k))) is Some }
pub open spec fn imp(b: bool) -> SpecialMemberFound { if b { SpecialMemberFound::Implicit } else { SpecialMemberFound::NotPresent } }
/// `t(r)`: every base and member satisfies the rule
pub open spec fn rule_def(a: Seq<A1>, n: QualifiedName, rref: bool, t: bool) -> SpecialMemberFound {
    match expl(a, key(n, ExplicitKind::DefaultConstructor)) {
        Some(e) => declared(e),
        None => imp(!other_ctor(a, n) && !rref && t),
    }
}
pub open spec fn rule_dtor(a: Seq<A1>, n: QualifiedName, t: bool) -> SpecialMemberFound {
    match expl(a, key(n, ExplicitKind::Destructor)) { Some(e) => declared(e), None => imp(t) }
}
pub open spec fn user_copy(a: Seq<A1>, n: QualifiedName) -> bool {
    expl(a, key(n, ExplicitKind::ConstCopyConstructor)) is Some || expl(a, key(n, ExplicitKind::NonConstCopyConstructor)) is Some
}
pub open spec fn implicit_copy(a: Seq<A1>, n: QualifiedName, rref: bool, t: bool) -> bool {
    expl(a, key(n, ExplicitKind::MoveConstructor)) is None && expl(a, key(n, ExplicitKind::MoveAssignmentOperator)) is None && !rref && t
}
pub open spec fn one(a: Seq<A1>, n: QualifiedName, k: ExplicitKind) -> SpecialMemberFound {
    match expl(a, key(n, k)) { Some(e) => declared(e), None => SpecialMemberFound::NotPresent }
}
pub open spec fn rule_cc(a: Seq<A1>, n: QualifiedName, rref: bool, t: bool, c: bool) -> SpecialMemberFound {
    if user_copy(a, n) { one(a, n, ExplicitKind::ConstCopyConstructor) } else { imp(implicit_copy(a, n, rref, t) && c) }
}
pub open spec fn rule_ncc(a: Seq<A1>, n: QualifiedName, rref: bool, t: bool, c: bool) -> SpecialMemberFound {
    if user_copy(a, n) { one(a, n, ExplicitKind::NonConstCopyConstructor) } else { imp(implicit_copy(a, n, rref, t) && !c) }
}
pub open spec fn rule_mv(a: Seq<A1>, n: QualifiedName, t: bool) -> SpecialMemberFound {
    match expl(a, key(n, ExplicitKind::MoveConstructor)) { Some(e) => declared(e), None => imp(!no_move(a, n) && t) }
}
/// For a class with a base or member which isn't understood, only what it
/// declares itself counts, except that it's taken to have a destructor.
pub open spec fn partly_known(a: Seq<A1>, n: QualifiedName) -> SM {
    SM {
        def: one(a, n, ExplicitKind::DefaultConstructor),
        dtor: match expl(a, key(n, ExplicitKind::Destructor)) {
            None => SpecialMemberFound::Implicit,
            Some(ExplicitFound::Multiple) => SpecialMemberFound::Explicit(CppVisibility::Public),
            Some(e) => declared(e),
        },
        cc: one(a, n, ExplicitKind::ConstCopyConstructor),
        ncc: one(a, n, ExplicitKind::NonConstCopyConstructor),
        mv: one(a, n, ExplicitKind::MoveConstructor),
    }
}
/// enums, pointers and references: no default constructor as far as we know
pub open spec fn scalar() -> SM {
    SM { def: SpecialMemberFound::NotPresent, dtor: SpecialMemberFound::Implicit, cc: SpecialMemberFound::Implicit, ncc: SpecialMemberFound::NotPresent, mv: SpecialMemberFound::Implicit }
}
pub open spec fn known_if(b: bool) -> SpecialMemberFound { if b { SpecialMemberFound::Explicit(CppVisibility::Public) } else { SpecialMemberFound::NotPresent } }
pub open spec fn known_sm(d: KnownTypeConstructorDetails) -> SM {
    SM { def: known_if(true), dtor: known_if(true), cc: known_if(d.has_const_copy_constructor), ncc: known_if(false), mv: known_if(d.has_move_constructor) }
}
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn known_type_items_found
%prerewrite? `| exists |` => `| exists: bool |`
%rewrite? `exists :` => `vx_e:`
%rewrite? `if exists` => `if vx_e`
%ensures
    sm_of(r) == known_sm(constructor_details),
%closure 0
 -> (vr: SpecialMemberFound) ensures vr == known_if(vx_e)
@@end

// --- classes, their bases and members -------------------------------------------------------
pub type Found = Map<QualifiedName, ItemsFound>;
/// the classes whose special members are worked out
pub open spec fn plain_class(x: A1) -> bool {
    x matches Api::Struct { analysis, .. } && (analysis.kind is Abstract || analysis.kind is Pod || analysis.kind is NonPod)
        && analysis.num_generics == 0 && !analysis.in_anonymous_namespace
}
pub open spec fn enum_named(x: A1, q: QualifiedName) -> bool { x is Enum && x.qname() == q }
pub open spec fn is_enum(a: Seq<A1>, q: QualifiedName) -> bool { exists|i: int| 0 <= i < a.len() && enum_named(#[trigger] a[i], q) }
pub open spec fn type_sm(a: Seq<A1>, m: Found, q: QualifiedName) -> Option<SM> {
    if is_enum(a, q) { Some(scalar()) }
    else if known_ctors(q) is Some { Some(known_sm(known_ctors(q).unwrap())) }
    else if m.dom().contains(q) { Some(sm_of(m[q])) }
    else { None }
}
/// (arrays have the special members of their elements)
pub open spec fn field_sm(a: Seq<A1>, m: Found, f: FieldInfo) -> Option<SM> {
    match f.type_kind {
        TypeKind::Regular | TypeKind::SubclassHolder(_) => match elem_ty(f.ty) { Type::Path(p) => type_sm(a, m, path_name(p)), _ => None },
        _ => Some(scalar()),
    }
}
pub open spec fn understood(a: Seq<A1>, m: Found, n: QualifiedName, p: PodAnalysis) -> bool {
    &&& forall|b: QualifiedName| p.bases@.contains(b) ==> (#[trigger] type_sm(a, m, b)) is Some
    &&& forall|i: int| 0 <= i < p.field_info@.len() ==> field_sm(a, m, #[trigger] p.field_info@[i]) is Some
    &&& !unclear(a, n)
}
pub open spec fn all_ok(a: Seq<A1>, m: Found, p: PodAnalysis, r: Rule) -> bool {
    &&& forall|b: QualifiedName| p.bases@.contains(b) ==> base_ok(r, (#[trigger] type_sm(a, m, b)).unwrap())
    &&& forall|i: int| 0 <= i < p.field_info@.len() ==> member_ok(r, field_sm(a, m, #[trigger] p.field_info@[i]).unwrap())
}
/// The special members of a class.
pub open spec fn members(a: Seq<A1>, m: Found, x: A1) -> SM { members_of(a, m, x.qname(), x->Struct_analysis, x->Struct_details.has_rvalue_reference_fields) }
pub open spec fn members_of(a: Seq<A1>, m: Found, n: QualifiedName, p: PodAnalysis, rref: bool) -> SM {
    if !understood(a, m, n, p) { partly_known(a, n) } else {
        SM {
            def: rule_def(a, n, rref, all_ok(a, m, p, Rule::Default)),
            dtor: rule_dtor(a, n, all_ok(a, m, p, Rule::Dtor)),
            cc: rule_cc(a, n, rref, all_ok(a, m, p, Rule::Copy), all_ok(a, m, p, Rule::ConstCopy)),
            ncc: rule_ncc(a, n, rref, all_ok(a, m, p, Rule::Copy), all_ok(a, m, p, Rule::ConstCopy)),
            mv: rule_mv(a, n, all_ok(a, m, p, Rule::Move)),
        }
    }
}

impl HasFieldsAndBases for A1 {
    open spec fn nm(&self) -> QualifiedName { self.qname() }
    open spec fn needs(&self, d: QualifiedName) -> bool {
        *self matches Api::Struct { analysis, .. } && (analysis.field_definition_deps@.contains(d) || analysis.bases@.contains(d))
    }
    fn name(&self) -> (r: &QualifiedName) { self.name() }
@@fn engine/src/conversion/analysis/fun/mod.rs <HasFieldsAndBases for Api<FnPrePhase1>>::field_and_base_deps
%sig
fn field_and_base_deps(&self) -> (r: It<&QualifiedName>)
%prerewrite? `Box :: new` => `vx_id`
%begin
    broadcast use vx_has_lemmas;
@@end
}
/// Each class lists the types of its members (see get_struct_field_types).
pub open spec fn member_class(a: Seq<A1>, f: FieldInfo, q: QualifiedName) -> bool {
    (f.type_kind is Regular || f.type_kind is SubclassHolder) && (elem_ty(f.ty) matches Type::Path(p) && path_name(p) == q)
}
pub open spec fn listed(a: Seq<A1>, x: A1) -> bool {
    forall|i: int, q: QualifiedName| 0 <= i < x->Struct_analysis.field_info@.len() && #[trigger] member_class(a, x->Struct_analysis.field_info@[i], q) && class_named(a, q) ==> x.needs(q)
}
pub open spec fn class_named(a: Seq<A1>, q: QualifiedName) -> bool { exists|i: int| 0 <= i < a.len() && plain_class(#[trigger] a[i]) && a[i].qname() == q }
pub open spec fn all_listed(a: Seq<A1>) -> bool { forall|i: int| 0 <= i < a.len() && plain_class(#[trigger] a[i]) ==> listed(a, a[i]) }
pub open spec fn all_b(v: Seq<ItemsFound>, r: Rule) -> bool { forall|j: int| 0 <= j < v.len() ==> base_ok(r, sm_of(#[trigger] v[j])) }
pub open spec fn all_m(v: Seq<ItemsFound>, r: Rule) -> bool { forall|j: int| 0 <= j < v.len() ==> member_ok(r, sm_of(#[trigger] v[j])) }
/// the answers for all bases in some order / for all members in order
pub open spec fn bases_answered(a: Seq<A1>, m: Found, p: PodAnalysis, v: Seq<ItemsFound>) -> bool {
    &&& forall|b: QualifiedName| p.bases@.contains(b) ==> (#[trigger] type_sm(a, m, b)) is Some && exists|j: int| 0 <= j < v.len() && Some(sm_of(#[trigger] v[j])) == type_sm(a, m, b)
    &&& forall|j: int| 0 <= j < v.len() ==> exists|b: QualifiedName| p.bases@.contains(b) && Some(sm_of(#[trigger] v[j])) == #[trigger] type_sm(a, m, b)
}
pub open spec fn fields_answered(a: Seq<A1>, m: Found, p: PodAnalysis, v: Seq<ItemsFound>) -> bool {
    &&& v.len() == p.field_info@.len()
    &&& forall|j: int| 0 <= j < v.len() ==> Some(sm_of(#[trigger] v[j])) == field_sm(a, m, p.field_info@[j])
}
pub proof fn lemma_all_ok(a: Seq<A1>, m: Found, p: PodAnalysis, b: Seq<ItemsFound>, f: Seq<ItemsFound>, r: Rule)
    requires bases_answered(a, m, p, b), fields_answered(a, m, p, f),
    ensures all_ok(a, m, p, r) == (all_b(b, r) && all_m(f, r)),
{
    if all_ok(a, m, p, r) {
        assert forall|j: int| 0 <= j < b.len() implies base_ok(r, sm_of(#[trigger] b[j])) by {
            let q = choose|q: QualifiedName| p.bases@.contains(q) && Some(sm_of(b[j])) == #[trigger] type_sm(a, m, q); }
        assert forall|j: int| 0 <= j < f.len() implies member_ok(r, sm_of(#[trigger] f[j])) by { assert(field_sm(a, m, p.field_info@[j]) is Some); }
    }
    if all_b(b, r) && all_m(f, r) {
        assert forall|q: QualifiedName| p.bases@.contains(q) implies base_ok(r, (#[trigger] type_sm(a, m, q)).unwrap()) by {
            let j = choose|j: int| 0 <= j < b.len() && Some(sm_of(#[trigger] b[j])) == type_sm(a, m, q); }
        assert forall|i: int| 0 <= i < p.field_info@.len() implies member_ok(r, field_sm(a, m, #[trigger] p.field_info@[i]).unwrap()) by { assert(Some(sm_of(f[i])) == field_sm(a, m, p.field_info@[i])); }
    }
}
pub open spec fn refs_of(a: Seq<A1>, all: Seq<&A1>) -> bool { all.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> *#[trigger] all[i] == a[i] }
/// `order` is all of `a`, each class after those it's made of
pub open spec fn ordered(a: Seq<A1>, order: Seq<&A1>) -> bool { exists|input: Seq<&A1>| refs_of(a, input) && #[trigger] deps_first(input, order) }
/// (each under its own name)
pub open spec fn named(m: Found) -> bool { forall|q: QualifiedName| #[trigger] m.dom().contains(q) ==> m[q].name is Some && m[q].name.unwrap().name == q }
/// what is known about the classes visited so far
pub open spec fn so_far(a: Seq<A1>, order: Seq<&A1>, k: int, m: Found) -> bool {
    &&& forall|q: QualifiedName| #[trigger] m.dom().contains(q) ==> class_before(order, k, q)
    &&& named(m)
    &&& forall|i: int| 0 <= i < k && plain_class(*#[trigger] order[i]) ==> m.dom().contains(order[i].qname()) && sm_of(m[order[i].qname()]) == members(a, m, *order[i])
}
pub open spec fn class_before(order: Seq<&A1>, k: int, q: QualifiedName) -> bool { exists|i: int| 0 <= i < k && plain_class(*#[trigger] order[i]) && order[i].qname() == q }
/// learning about another class changes nothing for those which came before it
pub proof fn lemma_same(a: Seq<A1>, order: Seq<&A1>, k: int, m: Found, it: ItemsFound, x: A1, i: int)
    requires ordered(a, order), 0 <= i <= k < order.len(), all_listed(a), x == *order[i], plain_class(x), plain_class(*order[k]),
        x.needs(order[k].qname()) ==> i > k,
    ensures members(a, m.insert(order[k].qname(), it), x) == members(a, m, x),
{
    let q = order[k].qname(); let m2 = m.insert(q, it); let p = x->Struct_analysis;
    let input = choose|input: Seq<&A1>| refs_of(a, input) && #[trigger] deps_first(input, order);
    assert(vx_has(input, order[i]) && vx_has(input, order[k]));
    let ii = choose|j: int| 0 <= j < input.len() && #[trigger] input[j] == order[i];
    let kk = choose|j: int| 0 <= j < input.len() && #[trigger] input[j] == order[k];
    assert(a[ii] == x && a[kk] == *order[k]);
    assert(listed(a, a[ii]));
    assert(class_named(a, q));
    assert forall|b: QualifiedName| p.bases@.contains(b) implies #[trigger] type_sm(a, m2, b) == type_sm(a, m, b) by { assert(x.needs(b)); }
    assert forall|j: int| 0 <= j < p.field_info@.len() implies field_sm(a, m2, #[trigger] p.field_info@[j]) == field_sm(a, m, p.field_info@[j]) by {
        let f = p.field_info@[j];
        if f.type_kind is Regular || f.type_kind is SubclassHolder {
            if let Type::Path(tp) = elem_ty(f.ty) { assert(member_class(a, f, path_name(tp))); }
        }
    }
    lemma_all_same(a, m, m2, p, Rule::Default); lemma_all_same(a, m, m2, p, Rule::Dtor); lemma_all_same(a, m, m2, p, Rule::Copy);
    lemma_all_same(a, m, m2, p, Rule::ConstCopy); lemma_all_same(a, m, m2, p, Rule::Move);
    assert(understood(a, m2, x.qname(), p) == understood(a, m, x.qname(), p)) by {
        assert forall|j: int| 0 <= j < p.field_info@.len() implies (field_sm(a, m2, #[trigger] p.field_info@[j]) is Some) == (field_sm(a, m, p.field_info@[j]) is Some) by {}
        assert forall|b: QualifiedName| p.bases@.contains(b) implies ((#[trigger] type_sm(a, m2, b)) is Some) == (type_sm(a, m, b) is Some) by {}
        if understood(a, m, x.qname(), p) { assert forall|b: QualifiedName| p.bases@.contains(b) implies (#[trigger] type_sm(a, m2, b)) is Some by { assert(type_sm(a, m, b) is Some); } }
        if understood(a, m2, x.qname(), p) { assert forall|b: QualifiedName| p.bases@.contains(b) implies (#[trigger] type_sm(a, m, b)) is Some by { assert(type_sm(a, m2, b) is Some); } }
    }
}
pub proof fn lemma_all_same(a: Seq<A1>, m: Found, m2: Found, p: PodAnalysis, r: Rule)
    requires
        forall|b: QualifiedName| p.bases@.contains(b) ==> #[trigger] type_sm(a, m2, b) == type_sm(a, m, b),
        forall|j: int| 0 <= j < p.field_info@.len() ==> field_sm(a, m2, #[trigger] p.field_info@[j]) == field_sm(a, m, p.field_info@[j]),
    ensures all_ok(a, m2, p, r) == all_ok(a, m, p, r),
{
    if all_ok(a, m, p, r) { assert forall|b: QualifiedName| p.bases@.contains(b) implies base_ok(r, (#[trigger] type_sm(a, m2, b)).unwrap()) by { assert(base_ok(r, type_sm(a, m, b).unwrap())); } }
    if all_ok(a, m2, p, r) { assert forall|b: QualifiedName| p.bases@.contains(b) implies base_ok(r, (#[trigger] type_sm(a, m, b)).unwrap()) by { assert(type_sm(a, m2, b) == type_sm(a, m, b)); } }
}
/// one more class
pub proof fn lemma_so_far(a: Seq<A1>, order: Seq<&A1>, k: int, m: Found, it: ItemsFound)
    requires ordered(a, order), 0 <= k < order.len(), all_listed(a), plain_class(*order[k]),
        so_far(a, order, k, m), sm_of(it) == members(a, m, *order[k]), it.name is Some, it.name.unwrap().name == order[k].qname(),
    ensures so_far(a, order, k + 1, m.insert(order[k].qname(), it)), !m.dom().contains(order[k].qname()),
{
    let q = order[k].qname(); let m2 = m.insert(q, it);
    let input = choose|input: Seq<&A1>| refs_of(a, input) && #[trigger] deps_first(input, order);
    if m.dom().contains(q) { let i = choose|i: int| 0 <= i < k && plain_class(*#[trigger] order[i]) && order[i].qname() == q; assert(order[i].nm() == order[k].nm()); }
    assert forall|i: int| 0 <= i < k + 1 && plain_class(*#[trigger] order[i]) implies m2.dom().contains(order[i].qname()) && sm_of(m2[order[i].qname()]) == members(a, m2, *order[i]) by {
        if i < k { assert(order[i].nm() != order[k].nm()); }
        lemma_not_needed(input, order, i, k);
        lemma_same(a, order, k, m, it, *order[i], i);
    }
    assert forall|n: QualifiedName| #[trigger] m2.dom().contains(n) implies class_before(order, k + 1, n) by {
        if n != q { let i = choose|i: int| 0 <= i < k && plain_class(*#[trigger] order[i]) && order[i].qname() == n; assert(plain_class(*order[i])); }
        else { assert(plain_class(*order[k])); }
    }
}
pub proof fn lemma_not_needed(input: Seq<&A1>, order: Seq<&A1>, i: int, k: int)
    requires deps_first(input, order), 0 <= i <= k < order.len(),
    ensures !order[i].needs(order[k].qname()),
{
    let d = order[k].qname();
    if order[i].needs(d) {
        assert(vx_has(input, order[k]));
        let kk = choose|j: int| 0 <= j < input.len() && #[trigger] input[j] == order[k];
        assert(input[kk].nm() == d);
        assert(vx_has_nm(order.take(i), d));
        let j = choose|j: int| 0 <= j < order.take(i).len() && (#[trigger] order.take(i)[j]).nm() == d;
        assert(order[j].nm() == order[k].nm());
    }
}
/// what map_while over the bases found
pub proof fn lemma_bases<F: Fn(&QualifiedName) -> Option<ItemsFound>>(a: Seq<A1>, m: Found, p: PodAnalysis, all: Seq<&QualifiedName>, f: F, v: Seq<ItemsFound>)
    requires
        forall|x: QualifiedName| #[trigger] p.bases@.contains(x) ==> vx_has(all, &x),
        forall|i: int| 0 <= i < all.len() ==> p.bases@.contains(*#[trigger] all[i]),
        v.len() <= all.len(),
        forall|i: int| 0 <= i < v.len() ==> f.ensures((all[i],), Some(#[trigger] v[i])),
        v.len() < all.len() ==> f.ensures((all[v.len() as int],), None),
        forall|q: QualifiedName, e: Option<ItemsFound>| #[trigger] f.ensures((&q,), e) ==> match e { Some(e) => type_sm(a, m, q) == Some(sm_of(e)), None => type_sm(a, m, q) is None },
    ensures
        v.len() == all.len() ==> bases_answered(a, m, p, v),
        v.len() != all.len() ==> exists|b: QualifiedName| p.bases@.contains(b) && (#[trigger] type_sm(a, m, b)) is None,
{
    if v.len() == all.len() {
        assert forall|b: QualifiedName| p.bases@.contains(b) implies (#[trigger] type_sm(a, m, b)) is Some && exists|j: int| 0 <= j < v.len() && Some(sm_of(#[trigger] v[j])) == type_sm(a, m, b) by {
            let j = choose|j: int| 0 <= j < all.len() && #[trigger] all[j] == &b;
            assert(f.ensures((all[j],), Some(v[j])));
        }
        assert forall|j: int| 0 <= j < v.len() implies exists|b: QualifiedName| p.bases@.contains(b) && Some(sm_of(#[trigger] v[j])) == #[trigger] type_sm(a, m, b) by {
            assert(f.ensures((all[j],), Some(v[j])));
            assert(p.bases@.contains(*all[j]));
        }
    } else {
        assert(p.bases@.contains(*all[v.len() as int]));
        assert(type_sm(a, m, *all[v.len() as int]) is None);
    }
}
pub proof fn lemma_fields(a: Seq<A1>, m: Found, p: PodAnalysis, o: Seq<Option<ItemsFound>>)
    requires answers(a, m, p, o),
    ensures fields_found(a, m, p, vx_somes(o)),
{
    lemma_somes_all(o);
    let v = vx_somes(o);
    if v.len() == o.len() {
        assert forall|j: int| 0 <= j < v.len() implies Some(sm_of(#[trigger] v[j])) == field_sm(a, m, p.field_info@[j]) by { assert(o[j] == Some(v[j])); }
    } else {
        let i = choose|i: int| 0 <= i < o.len() && !((#[trigger] o[i]) is Some);
        assert(field_sm(a, m, p.field_info@[i]) is None);
    }
}
pub proof fn lemma_finish(a: Seq<A1>, order: Seq<&A1>, m: Found)
    requires ordered(a, order), so_far(a, order, order.len() as int, m),
    ensures
        forall|i: int| 0 <= i < a.len() && plain_class(#[trigger] a[i]) ==> m.dom().contains(a[i].qname()) && sm_of(m[a[i].qname()]) == members(a, m, a[i]),
        forall|q: QualifiedName| #[trigger] m.dom().contains(q) ==> class_named(a, q),
        named(m),
{
    let input = choose|input: Seq<&A1>| refs_of(a, input) && #[trigger] deps_first(input, order);
    assert forall|i: int| 0 <= i < a.len() && plain_class(#[trigger] a[i]) implies m.dom().contains(a[i].qname()) && sm_of(m[a[i].qname()]) == members(a, m, a[i]) by {
        assert(*input[i] == a[i]);
        assert(vx_has(input, input[i]));
        assert(vx_has(order, input[i]));
        let j = choose|j: int| 0 <= j < order.len() && #[trigger] order[j] == input[i];
        assert(plain_class(*order[j]));
    }
    assert forall|q: QualifiedName| #[trigger] m.dom().contains(q) implies class_named(a, q) by {
        let i = choose|i: int| 0 <= i < order.len() && plain_class(*#[trigger] order[i]) && order[i].qname() == q;
        assert(vx_has(input, order[i]));
        let j = choose|j: int| 0 <= j < input.len() && #[trigger] input[j] == order[i];
        assert(a[j] == *input[j]);
    }
}
/// a subset of the fields as long as all of them is all of them
pub proof fn lemma_somes_all<U>(o: Seq<Option<U>>)
    ensures vx_somes(o).len() <= o.len(),
        (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) is Some) <==> vx_somes(o).len() == o.len(),
        vx_somes(o).len() == o.len() ==> forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == Some(vx_somes(o)[i]),
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_somes_all(p);
        if forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) is Some {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) is Some by { assert(o[i] is Some); }
            assert(o.last() is Some) by { assert(o[o.len() - 1] is Some); }
        }
        if vx_somes(o).len() == o.len() {
            assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == Some(vx_somes(o)[i]) by { if i < p.len() { assert(p[i] == o[i]); } }
            assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]) is Some by {}
        }
    }
}
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%slice let default_constructor
%sig
pub fn vx_default<'b, F: Fn(ExplicitKind) -> Option<&'b ExplicitFound>>(Ghost(a): Ghost<Seq<A1>>, explicits: &HashMap<ExplicitType, ExplicitFound>, name: &ApiName, find_explicit: F, bases_items_found: &Vec<ItemsFound>, fields_items_found: &Vec<ItemsFound>, has_rvalue_reference_fields: bool) -> (r: SpecialMemberFound)
%requires
    expl_map(a, explicits@),
    forall|k: ExplicitKind| find_explicit.requires((k,)),
    forall|k: ExplicitKind, e: Option<&ExplicitFound>| #[trigger] find_explicit.ensures((k,), e) ==> match e { Some(e) => expl(a, key(name.name, k)) == Some(*e), None => expl(a, key(name.name, k)) is None },
%begin
    hide(expl);
    broadcast use vx_has_lemmas;
    proof {
        let n = name.name;
        assert forall|t: ExplicitType| #[trigger] explicits@.dom().contains(t) && t.ty == n && is_ctor(t.kind) implies other_ctor(a, n) by { assert(t == key(n, t.kind)); assert(expl(a, key(n, t.kind)) is Some); }
        assert forall|k: ExplicitKind| (#[trigger] expl(a, key(n, k))) is Some implies explicits@.dom().contains(key(n, k)) by {}
    }
%ensures
    r == rule_def(a, name.name, has_rvalue_reference_fields, all_b(bases_items_found@, Rule::Default) && all_m(fields_items_found@, Rule::Default)),
%closure 0
 -> (vr: bool) ensures vr == (vx_p0_0.0.ty == name.name && is_ctor(vx_p0_0.0.kind))
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%slice let destructor
%sig
pub fn vx_destructor<'b, F: Fn(ExplicitKind) -> Option<&'b ExplicitFound>>(Ghost(a): Ghost<Seq<A1>>, explicits: &HashMap<ExplicitType, ExplicitFound>, name: &ApiName, find_explicit: F, bases_items_found: &Vec<ItemsFound>, fields_items_found: &Vec<ItemsFound>, has_rvalue_reference_fields: bool) -> (r: SpecialMemberFound)
%requires
    expl_map(a, explicits@),
    forall|k: ExplicitKind| find_explicit.requires((k,)),
    forall|k: ExplicitKind, e: Option<&ExplicitFound>| #[trigger] find_explicit.ensures((k,), e) ==> match e { Some(e) => expl(a, key(name.name, k)) == Some(*e), None => expl(a, key(name.name, k)) is None },
%begin
    hide(expl);
%ensures
    r == rule_dtor(a, name.name, all_b(bases_items_found@, Rule::Dtor) && all_m(fields_items_found@, Rule::Dtor)),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%slice let (const_copy_constructor, non_const_copy_constructor)
%sig
pub fn vx_copy<'b, F: Fn(ExplicitKind) -> Option<&'b ExplicitFound>>(Ghost(a): Ghost<Seq<A1>>, explicits: &HashMap<ExplicitType, ExplicitFound>, name: &ApiName, find_explicit: F, bases_items_found: &Vec<ItemsFound>, fields_items_found: &Vec<ItemsFound>, has_rvalue_reference_fields: bool) -> (r: (SpecialMemberFound, SpecialMemberFound))
%requires
    expl_map(a, explicits@),
    forall|k: ExplicitKind| find_explicit.requires((k,)),
    forall|k: ExplicitKind, e: Option<&ExplicitFound>| #[trigger] find_explicit.ensures((k,), e) ==> match e { Some(e) => expl(a, key(name.name, k)) == Some(*e), None => expl(a, key(name.name, k)) is None },
%begin
    hide(expl);
    broadcast use {vx_has_lemmas, lemma_has_index};
%ensures
    r.0 == rule_cc(a, name.name, has_rvalue_reference_fields, all_b(bases_items_found@, Rule::Copy) && all_m(fields_items_found@, Rule::Copy), all_b(bases_items_found@, Rule::ConstCopy) && all_m(fields_items_found@, Rule::ConstCopy)),
    r.1 == rule_ncc(a, name.name, has_rvalue_reference_fields, all_b(bases_items_found@, Rule::Copy) && all_m(fields_items_found@, Rule::Copy), all_b(bases_items_found@, Rule::ConstCopy) && all_m(fields_items_found@, Rule::ConstCopy)),
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%slice let move_constructor
%sig
pub fn vx_move<'b, F: Fn(ExplicitKind) -> Option<&'b ExplicitFound>>(Ghost(a): Ghost<Seq<A1>>, explicits: &HashMap<ExplicitType, ExplicitFound>, name: &ApiName, find_explicit: F, bases_items_found: &Vec<ItemsFound>, fields_items_found: &Vec<ItemsFound>, has_rvalue_reference_fields: bool) -> (r: SpecialMemberFound)
%requires
    expl_map(a, explicits@),
    forall|k: ExplicitKind| find_explicit.requires((k,)),
    forall|k: ExplicitKind, e: Option<&ExplicitFound>| #[trigger] find_explicit.ensures((k,), e) ==> match e { Some(e) => expl(a, key(name.name, k)) == Some(*e), None => expl(a, key(name.name, k)) is None },
%begin
    hide(expl);
%ensures
    r == rule_mv(a, name.name, all_b(bases_items_found@, Rule::Move) && all_m(fields_items_found@, Rule::Move)),
@@end

pub open spec fn pod_of(x: A1) -> PodAnalysis { x->Struct_analysis }
/// `v`: what is known about the bases (in some order), up to the first unknown one
pub open spec fn bases_found(a: Seq<A1>, m: Found, p: PodAnalysis, v: Seq<ItemsFound>) -> bool {
    &&& v.len() == p.bases.vx_len() ==> bases_answered(a, m, p, v)
    &&& v.len() != p.bases.vx_len() ==> exists|b: QualifiedName| p.bases@.contains(b) && (#[trigger] type_sm(a, m, b)) is None
}
pub open spec fn fields_found(a: Seq<A1>, m: Found, p: PodAnalysis, v: Seq<ItemsFound>) -> bool {
    &&& v.len() == p.field_info@.len() ==> fields_answered(a, m, p, v)
    &&& v.len() != p.field_info@.len() ==> exists|i: int| 0 <= i < p.field_info@.len() && field_sm(a, m, #[trigger] p.field_info@[i]) is None
}
pub open spec fn answer(s: Option<SM>, e: Option<ItemsFound>) -> bool { match e { Some(e) => s == Some(sm_of(e)), None => s is None } }
pub open spec fn answers(a: Seq<A1>, m: Found, p: PodAnalysis, o: Seq<Option<ItemsFound>>) -> bool {
    o.len() == p.field_info@.len() && forall|i: int| 0 <= i < o.len() ==> answer(field_sm(a, m, p.field_info@[i]), #[trigger] o[i])
}
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%slice let bases_items_found
%sig
pub fn vx_bases<F: Fn(&QualifiedName) -> Option<ItemsFound> + Copy>(Ghost(a): Ghost<Seq<A1>>, Ghost(m): Ghost<Found>, Ghost(p): Ghost<PodAnalysis>, bases: &HashSet<QualifiedName>, get_items_found: F) -> (r: Vec<ItemsFound>)
%requires
    *bases == p.bases,
    forall|q: &QualifiedName| #[trigger] get_items_found.requires((q,)),
    forall|q: QualifiedName, e: Option<ItemsFound>| #[trigger] get_items_found.ensures((&q,), e) ==> answer(type_sm(a, m, q), e),
%ensures
    bases_found(a, m, p, r@),
%begin
    hide(type_sm);
%end Vec<ItemsFound>
    proof {
        assert forall|all: Seq<&QualifiedName>| #[trigger] vx_mw(all, get_items_found, __ret@) && all.len() == p.bases.vx_len()
            && (forall|x: QualifiedName| #[trigger] p.bases@.contains(x) ==> vx_has(all, &x)) && (forall|i: int| 0 <= i < all.len() ==> p.bases@.contains(*#[trigger] all[i]))
            implies bases_found(a, m, p, __ret@) by { lemma_bases(a, m, p, all, get_items_found, __ret@); }
    }
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%slice let fields_items_found
%sig
pub fn vx_fields<F: Fn(&QualifiedName) -> Option<ItemsFound> + Copy>(Ghost(a): Ghost<Seq<A1>>, Ghost(m): Ghost<Found>, Ghost(p): Ghost<PodAnalysis>, apis: &ApiVec<FnPrePhase1>, all_items_found: &HashMap<QualifiedName, ItemsFound>, name: &ApiName, field_info: &Vec<FieldInfo>, get_items_found: F) -> (r: Vec<ItemsFound>)
%prerewrite? `elem . as_ref ()` => `& * * elem`
%requires
    field_info@ == p.field_info@, a == apis.apis@, m == all_items_found@,
    forall|q: &QualifiedName| #[trigger] get_items_found.requires((q,)),
    forall|q: QualifiedName, e: Option<ItemsFound>| #[trigger] get_items_found.ensures((&q,), e) ==> answer(type_sm(a, m, q), e),
%ensures
    fields_found(a, m, p, r@),
%begin
    hide(type_sm);
%nloops 1
%closure 0
 -> (vr: Option<ItemsFound>) requires true ensures answer(field_sm(apis.apis@, all_items_found@, *field_info), vr)
%loop 0
    invariant elem_ty(*ty) == elem_ty(field_info.ty),
        forall|q: &QualifiedName| #[trigger] get_items_found.requires((q,)),
        forall|q: QualifiedName, e: Option<ItemsFound>| #[trigger] get_items_found.ensures((&q,), e) ==> answer(type_sm(a, m, q), e),
    ensures !(*ty is Array),
    decreases *ty,
%end Vec<ItemsFound>
    proof {
        assert(exists|o: Seq<Option<ItemsFound>>| #[trigger] vx_somes(o) == __ret@ && answers(a, m, p, o));
        let o = choose|o: Seq<Option<ItemsFound>>| #[trigger] vx_somes(o) == __ret@ && answers(a, m, p, o);
        lemma_fields(a, m, p, o);
    }
@@end
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%slice let items_found
%sig
pub fn vx_items<'b, F: Fn(ExplicitKind) -> Option<&'b ExplicitFound> + Copy>(Ghost(a): Ghost<Seq<A1>>, Ghost(m): Ghost<Found>, Ghost(p): Ghost<PodAnalysis>, apis: &ApiVec<FnPrePhase1>, name: &ApiName, bases: &HashSet<QualifiedName>, field_info: &Vec<FieldInfo>, explicits: &HashMap<ExplicitType, ExplicitFound>, unknown_types: &HashSet<QualifiedName>, find_explicit: F, bases_items_found: Vec<ItemsFound>, fields_items_found: Vec<ItemsFound>, has_rvalue_reference_fields: bool) -> (r: ItemsFound)
%outline `default_constructor` => `vx_default(Ghost(a), &explicits, name, find_explicit, &bases_items_found, &fields_items_found, has_rvalue_reference_fields)`
%outline `destructor` => `vx_destructor(Ghost(a), &explicits, name, find_explicit, &bases_items_found, &fields_items_found, has_rvalue_reference_fields)`
%outline `(const_copy_constructor, non_const_copy_constructor)` => `vx_copy(Ghost(a), &explicits, name, find_explicit, &bases_items_found, &fields_items_found, has_rvalue_reference_fields)`
%outline `move_constructor` => `vx_move(Ghost(a), &explicits, name, find_explicit, &bases_items_found, &fields_items_found, has_rvalue_reference_fields)`
%requires
    *bases == p.bases, field_info@ == p.field_info@, a == apis.apis@,
    bases_found(a, m, p, bases_items_found@), fields_found(a, m, p, fields_items_found@),
    forall|n: QualifiedName| #[trigger] unknown_types@.contains(n) <==> unclear(a, n),
    expl_map(a, explicits@),
    forall|k: ExplicitKind| find_explicit.requires((k,)),
    forall|k: ExplicitKind, e: Option<&ExplicitFound>| #[trigger] find_explicit.ensures((k,), e) ==> match e { Some(e) => expl(a, key(name.name, k)) == Some(*e), None => expl(a, key(name.name, k)) is None },
%ensures
    sm_of(r) == members_of(a, m, name.name, p, has_rvalue_reference_fields),
    r.name is Some, r.name.unwrap().name == name.name,
%closure 0
 -> (vr: SpecialMemberFound) ensures vr == one(apis.apis@, name.name, kind)
%begin
    hide(expl); hide(type_sm); hide(field_sm); hide(expl_map); hide(unclear);
    proof {
        let (b, f) = (bases_items_found@, fields_items_found@);
        if b.len() == p.bases.vx_len() && f.len() == p.field_info@.len() {
            lemma_all_ok(a, m, p, b, f, Rule::Default); lemma_all_ok(a, m, p, b, f, Rule::Dtor); lemma_all_ok(a, m, p, b, f, Rule::Copy);
            lemma_all_ok(a, m, p, b, f, Rule::ConstCopy); lemma_all_ok(a, m, p, b, f, Rule::Move);
            assert forall|i: int| 0 <= i < p.field_info@.len() implies field_sm(a, m, #[trigger] p.field_info@[i]) is Some by { assert(Some(sm_of(f[i])) == field_sm(a, m, p.field_info@[i])); }
        }
        assert(understood(a, m, name.name, p) == (b.len() == p.bases.vx_len() && f.len() == p.field_info@.len() && !unclear(a, name.name)));
    }
@@end
/// The special members of every class are what the rules say, given those of
/// its bases and members.
@@fn engine/src/conversion/analysis/fun/implicit_constructors.rs fn find_constructors_present
%outline `bases_items_found` => `vx_bases(Ghost(a), Ghost(m0), Ghost(pod_of(*order[k0])), bases, get_items_found)`
%outline `fields_items_found` => `vx_fields(Ghost(a), Ghost(m0), Ghost(pod_of(*order[k0])), apis, &all_items_found, name, field_info, get_items_found)`
%outline `items_found` => `vx_items(Ghost(a), Ghost(m0), Ghost(pod_of(*order[k0])), apis, name, bases, field_info, &explicits, &unknown_types, find_explicit, bases_items_found, fields_items_found, has_rvalue_reference_fields)`
%attr #[verifier::loop_isolation(false)]
%prerewrite? `crate :: conversion :: api :: TypeKind` => `ApiTypeKind`
%prerewrite? `let bases_items_found : Vec < _ >` => `let bases_items_found: Vec<ItemsFound>`
%prerewrite? `let fields_items_found : Vec < _ >` => `let fields_items_found: Vec<ItemsFound>`
%requires
    apis.wf(), all_listed(apis.apis@),
%ensures
    forall|i: int| 0 <= i < apis.apis@.len() && plain_class(#[trigger] apis.apis@[i]) ==>
        r@.dom().contains(apis.apis@[i].qname()) && sm_of(r@[apis.apis@[i].qname()]) == members(apis.apis@, r@, apis.apis@[i]),
    forall|q: QualifiedName| #[trigger] r@.dom().contains(q) ==> class_named(apis.apis@, q),
    named(r@),
%begin
    hide(expl); hide(members_of); hide(all_listed);
    broadcast use vx_has_lemmas;
    let ghost a = apis.apis@;
%nloops 1
%closure 0
 -> (vr: Option<QualifiedName>) ensures vr == (if *api is Enum { Some(api.qname()) } else { None::<QualifiedName> })
%closure 1
 -> (vr: Option<&ExplicitFound>) ensures match vr { Some(e) => expl(apis.apis@, key(name.name, kind)) == Some(*e), None => expl(apis.apis@, key(name.name, kind)) is None }
%closure 2
 -> (vr: Option<ItemsFound>) ensures answer(type_sm(apis.apis@, all_items_found@, *qn), vr)
%loopbefore 0
    let ghost order = __it0.all();
%loop 0
    invariant expl_map(a, explicits@), so_far(a, order, __it0.pos(), all_items_found@), ordered(a, order), all_listed(a), order == __it0.all(),
%loopbegin 0
    broadcast use vx_has_lemmas;
    let ghost k0 = __it0.pos() - 1; let ghost m0 = all_items_found@;
    assert(*api == *order[k0]);
%loopafter 0
    proof { lemma_finish(a, order, all_items_found@); }
%before `all_items_found . insert`
    proof { lemma_so_far(a, order, k0, m0, items_found); }
@@end

// --- what is generated for them -------------------------------------------------------------
@@type engine/src/conversion/analysis/fun/mod.rs PublicConstructors
@@end
impl PublicConstructors {
@@fn engine/src/conversion/analysis/fun/mod.rs PublicConstructors::from_items_found
%ensures
    r.move_constructor == public(items_found.move_constructor),
    r.destructor == public(items_found.destructor),
@@end
}
pub uninterp spec fn cpp_spelling(q: QualifiedName) -> Seq<char>;
impl QualifiedName {
    #[verifier::external_body]
    pub fn to_cpp_name(&self) -> (r: String) ensures r@ == cpp_spelling(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_type_path(&self) -> (r: TypePath) ensures path_name(r) == *self { unimplemented!() }
}
pub struct IncludeCppConfig { pub exclude_impls: bool, pub rest: VxOpaque }
pub uninterp spec fn on_blocklist(c: IncludeCppConfig, n: Seq<char>) -> bool;
impl IncludeCppConfig {
    #[verifier::external_body]
    pub fn is_on_constructor_blocklist(&self, n: &str) -> (r: bool) ensures r == on_blocklist(*self, n@) { unimplemented!() }
}
impl Clone for TypePath {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the parameters of a synthesized member
pub enum Params { This(TypePath), ThisAndRvalue(TypePath), ThisAndConstRef(TypePath) }
pub struct Synth { pub class: QualifiedName, pub kind: SpecialMemberKind, pub other: Option<bool> }
pub struct FnAnalyzer<'a> { pub config: &'a IncludeCppConfig, pub made: Ghost<Set<Synth>> }
pub open spec fn synth_of(n: QualifiedName, k: SpecialMemberKind, p: Params) -> Synth {
    Synth { class: n, kind: k, other: match p { Params::This(_) => None, Params::ThisAndRvalue(_) => Some(true), Params::ThisAndConstRef(_) => Some(false) } }
}
pub open spec fn path_of(p: Params) -> TypePath { match p { Params::This(x) => x, Params::ThisAndRvalue(x) => x, Params::ThisAndConstRef(x) => x } }
impl<'a> FnAnalyzer<'a> {
    /// Trusted: makes this member of this class.
    #[verifier::external_body]
    pub fn synthesize_special_member(&mut self, items_found: &ItemsFound, label: &str, apis: &mut ApiVec<FnPrePhase1>, special_member: SpecialMemberKind, inputs: Params)
        requires items_found.name is Some, items_found.name.unwrap().name == path_name(path_of(inputs)),
        ensures final(self).config == old(self).config, final(self).made@ == old(self).made@.insert(synth_of(items_found.name.unwrap().name, special_member, inputs)),
    { unimplemented!() }
}
/// the members which Rust needs the C++ compiler's help with
pub open spec fn wanted(s: SM, q: QualifiedName, y: Synth) -> bool {
    y.class == q && match y.kind {
        SpecialMemberKind::DefaultConstructor => s.def is Implicit && y.other is None,
        SpecialMemberKind::MoveConstructor => s.mv is Implicit && y.other == Some(true),
        SpecialMemberKind::CopyConstructor => (s.cc is Implicit || s.ncc is Implicit) && !(s.cc is Explicit) && !(s.ncc is Explicit) && y.other == Some(false),
        SpecialMemberKind::Destructor => s.dtor is Implicit && y.other is None,
        SpecialMemberKind::AssignmentOperator => false,
    }
}
pub open spec fn allowed(c: IncludeCppConfig, q: QualifiedName) -> bool { !c.exclude_impls && !on_blocklist(c, cpp_spelling(q)) }
pub open spec fn wanted_in(c: IncludeCppConfig, m: Found, y: Synth) -> bool { m.dom().contains(y.class) && allowed(c, y.class) && wanted(sm_of(m[y.class]), y.class, y) }
pub open spec fn wanted_so_far(c: IncludeCppConfig, all: Seq<(&QualifiedName, &ItemsFound)>, k: int, y: Synth) -> bool {
    exists|i: int| 0 <= i < k && *(#[trigger] all[i]).0 == y.class && allowed(c, y.class) && wanted(sm_of(*all[i].1), y.class, y)
}
/// Implicit members are made exactly for the classes which have them.
impl<'a> FnAnalyzer<'a> {
@@fn engine/src/conversion/analysis/fun/mod.rs FnAnalyzer::add_constructors_present
%slice `for (self_ty` .. `for (self_ty`
%sig
pub fn vx_synthesize(&mut self, all_items_found: &HashMap<QualifiedName, ItemsFound>, apis: &mut ApiVec<FnPrePhase1>)
%prerewrite? `& mut apis` => `apis`
%prerewrite? `parse_quote ! { this : * mut # path }` => `Params::This(path.clone())`
%prerewrite? `parse_quote ! { this : * mut # path , other : __bindgen_marker_RValueReference < * mut # path > }` => `Params::ThisAndRvalue(path.clone())`
%prerewrite? `parse_quote ! { this : * mut # path , other : __bindgen_marker_Reference < * const # path > }` => `Params::ThisAndConstRef(path.clone())`
%requires
    named(all_items_found@),
    old(self).made@ == Set::<Synth>::empty(),
%ensures
    forall|y: Synth| #[trigger] final(self).made@.contains(y) <==> wanted_in(*old(self).config, all_items_found@, y),
%attr #[verifier::loop_isolation(false)]
%begin
    let ghost c = *self.config;
%nloops 1
%loopbefore 0
    let ghost ord = __it0.all();
%loop 0
    invariant __it0.all() == ord, named(all_items_found@), *self.config == c,
        forall|y: Synth| #[trigger] self.made@.contains(y) <==> wanted_so_far(c, __it0.all(), __it0.pos(), y),
%loopbegin 0
    proof {
        let all = __it0.all(); let k = __it0.pos() - 1;
        assert forall|y: Synth| #[trigger] wanted_so_far(c, all, k + 1, y) <==> (wanted_so_far(c, all, k, y) || (y.class == *self_ty && allowed(c, *self_ty) && wanted(sm_of(*items_found), *self_ty, y))) by {
            if wanted_so_far(c, all, k, y) { let i = choose|i: int| 0 <= i < k && *(#[trigger] all[i]).0 == y.class && allowed(c, y.class) && wanted(sm_of(*all[i].1), y.class, y); assert(*all[i].0 == y.class); }
            if y.class == *self_ty { assert(*all[k].0 == y.class); }
        }
    }
%loopafter 0
    proof {
        let all = __it0.all();
        assert forall|y: Synth| wanted_so_far(c, all, all.len() as int, y) <==> #[trigger] wanted_in(c, all_items_found@, y) by {
            if wanted_in(c, all_items_found@, y) {
                let q = y.class;
                assert(vx_has(all, (&q, &all_items_found@[q])));
                let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i] == (&q, &all_items_found@[q]);
                assert(*all[i].0 == y.class);
            }
        }
    }
@@end
}
} // verus!
fn main(){}
