@@include core.rs
@@include qname.rs
@@include api.rs
@@include apivec.rs
@@include apivec_fns.rs
fn main() {}
