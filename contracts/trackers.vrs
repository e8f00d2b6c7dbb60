@@include core.rs
@@include trackers_fns.rs
fn main() {}
