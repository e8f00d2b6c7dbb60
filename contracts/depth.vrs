@@include core.rs
@@include qname.rs
@@include depth_first.rs
fn main(){}
