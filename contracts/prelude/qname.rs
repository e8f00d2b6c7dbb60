verus! {
// QualifiedName is treated as an identity: only equality and cloning are used.
#[verifier::external_body]
pub struct QualifiedName { x: u8 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for QualifiedName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &QualifiedName) -> bool { *self == *other }
}
impl PartialEq for QualifiedName {
    #[verifier::external_body]
    fn eq(&self, o: &QualifiedName) -> (r: bool) { unimplemented!() }
}
impl Clone for QualifiedName {
    #[verifier::external_body]
    fn clone(&self) -> (r: QualifiedName) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Ident { x: u8 }
impl Clone for Ident {
    #[verifier::external_body]
    fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
}
impl QualifiedName {
    pub uninterp spec fn final_ident(&self) -> Ident;
    #[verifier::external_body]
    pub fn get_final_ident(&self) -> (r: Ident) ensures r == self.final_ident() { unimplemented!() }
    pub uninterp spec fn final_item(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn get_final_item(&self) -> (r: &str) ensures r@ == self.final_item() { unimplemented!() }
}
} // verus!
