verus! {
// Rust strings are identified with their contents (HashMap compares contents).
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_string_of(s: Seq<char>) ensures (#[trigger] string_of(s))@ == s;
pub broadcast axiom fn axiom_string_id(s: String) ensures string_of(#[trigger] s@) == s;
pub type Offsets = HashMap<String, usize>;
impl VxDefault for usize { open spec fn default_spec(r: usize) -> bool { r == 0 } }
impl VxDefault for HashMap<String, usize> { open spec fn default_spec(r: Self) -> bool { r@ == Map::<String, usize>::empty() } }
/// Name counters do not overflow.
#[verifier::external_body]
pub fn vx_inc(x: &mut usize) ensures *final(x) == *old(x) + 1 { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_string<S: VxStr + ?Sized>(s: &S) -> (r: String) ensures r@ == s.vx_chars() { unimplemented!() }
#[verifier::external_body]
pub fn vx_or_default(o: Option<&usize>) -> (r: usize) ensures r == (if let Some(x) = o { *x } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub struct Namespace { x: u8 }
/// The qualified prefix: any text at all will do for uniqueness.
#[verifier::external_body]
pub fn vx_join(ns: &Namespace, ty: &Option<String>, n: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_contains(s: &String, t: &str) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ends_with(s: &String, t: char) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_replace(s: &String, t: &str, u: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_to_string(s: Option<&str>) -> (r: Option<String>) { unimplemented!() }
}
verus! {
@@expect engine/src/conversion/analysis/fun/overload_tracker.rs :: type Offsets = HashMap < String , usize >
@@type engine/src/conversion/analysis/fun/overload_tracker.rs OverloadTracker
@@end
@@type engine/src/conversion/analysis/fun/bridge_name_tracker.rs BridgeNameTracker
@@end
}
verus! {
/// Every Rust name given out so far, for the free functions (None) or for one class of this namespace.
pub open spec fn taken(t: OverloadTracker, ty: Option<Seq<char>>) -> Set<String> {
    match ty {
        None => t.offset_by_name@.dom(),
        Some(s) => if t.offset_by_type_and_name@.dom().contains(string_of(s)) { t.offset_by_type_and_name@[string_of(s)]@.dom() } else { Set::empty() },
    }
}
pub open spec fn ty_key(t: Option<&str>) -> Option<Seq<char>> { match t { None => None, Some(s) => Some(s@) } }
/// Every name in the tracker has been given out at least once.
pub open spec fn inv(t: BridgeNameTracker) -> bool { forall|n: String| #[trigger] t.next_cxx_bridge_name_for_prefix@.dom().contains(n) ==> t.next_cxx_bridge_name_for_prefix@[n] >= 1 }
pub open spec fn given(t: BridgeNameTracker) -> Set<String> { t.next_cxx_bridge_name_for_prefix@.dom() }
}
verus! {
impl OverloadTracker {
@@fn engine/src/conversion/analysis/fun/overload_tracker.rs OverloadTracker::get_name
%ret r
%attr #[verifier::exec_allows_no_decreases_clause]
%attr #[verifier::loop_isolation(false)]
%prerewrite? `type_name . to_string ()` => `vx_to_string(type_name)`
%prerewrite? `registry . get (& cpp_method_name) . copied () . unwrap_or_default ()` => `vx_or_default(registry.get(&cpp_method_name))`
%prerewrite? `offset += 1` => `vx_inc(&mut offset)`
%ensures
    !taken(*old(self), ty_key(type_name)).contains(r),
    taken(*final(self), ty_key(type_name)).contains(r),
    forall|ty: Option<Seq<char>>, n: String| taken(*old(self), ty).contains(n) ==> #[trigger] taken(*final(self), ty).contains(n),
    forall|ty: Option<Seq<char>>, n: String| #[trigger] taken(*final(self), ty).contains(n) && ty != ty_key(type_name) ==> taken(*old(self), ty).contains(n),
%begin
    broadcast use {axiom_string_of, axiom_string_id};
%loopbefore 0
    let ghost reg0 = *registry;
%loop 0
    invariant *registry == reg0,
@@end
@@fn engine/src/conversion/analysis/fun/overload_tracker.rs OverloadTracker::get_function_real_name
%ret r
%ensures
    !taken(*old(self), None).contains(r),
    taken(*final(self), None).contains(r),
    forall|ty: Option<Seq<char>>, n: String| taken(*old(self), ty).contains(n) ==> #[trigger] taken(*final(self), ty).contains(n),
@@end
@@fn engine/src/conversion/analysis/fun/overload_tracker.rs OverloadTracker::get_method_real_name
%ret r
%ensures
    !taken(*old(self), Some(type_name@)).contains(r),
    taken(*final(self), Some(type_name@)).contains(r),
    forall|ty: Option<Seq<char>>, n: String| taken(*old(self), ty).contains(n) ==> #[trigger] taken(*final(self), ty).contains(n),
@@end
}
impl BridgeNameTracker {
@@fn engine/src/conversion/analysis/fun/bridge_name_tracker.rs BridgeNameTracker::get_unique_cxx_bridge_name
%ret r
%attr #[verifier::exec_allows_no_decreases_clause]
%attr #[verifier::loop_isolation(false)]
%prerewrite? `type_name . map (| s | s . to_string ())` => `vx_opt_to_string(type_name)`
%prerewrite? `found_name . to_string ()` => `vx_to_string(found_name)`
%prerewrite? `ns . iter () . chain (type_name . iter () . map (| s | s . as_str ())) . chain (std :: iter :: once (found_name)) . join ("_")` => `vx_join(ns, &type_name, found_name)`
%prerewrite? `self . next_cxx_bridge_name_for_prefix . get (& prefix) . copied () . unwrap_or_default ()` => `vx_or_default(self.next_cxx_bridge_name_for_prefix.get(&prefix))`
%prerewrite? `prefix . contains ("__")` => `vx_contains(&prefix, "__")`
%prerewrite? `prefix . replace ("__" , "_")` => `vx_replace(&prefix, "__", "_")`
%prerewrite? `prefix . ends_with ('_')` => `vx_ends_with(&prefix, '_')`
%prerewrite? `* count += 1` => `vx_inc(count)`
%prerewrite? `count += 1` => `vx_inc(&mut count)`
%requires
    inv(*old(self)),
%ensures
    inv(*final(self)),
    !given(*old(self)).contains(r),
    given(*final(self)).contains(r),
    forall|n: String| given(*old(self)).contains(n) ==> #[trigger] given(*final(self)).contains(n),
%begin
    broadcast use {axiom_string_of, axiom_string_id};
%loopbefore 1
    let ghost map0 = self.next_cxx_bridge_name_for_prefix;
%loop 1
    invariant self.next_cxx_bridge_name_for_prefix == map0,
@@end
}
}
