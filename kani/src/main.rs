//! Runs one harness natively on the values which a seed gives: `vkani <harness> <seed>`.
#[cfg(not(kani))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    unsafe { vkani::kani::STATE = a[2].parse().unwrap() };
    use vkani::*;
    let (f, panics): (fn(), bool) = match a[1].as_str() {
        "byvalue::rvalue_from_move_ref" => (byvalue::rvalue_from_move_ref, false),
        "byvalue::rvalue_from_pin_box" => (byvalue::rvalue_from_pin_box, false),
        "byvalue::rvalue_from_unique_ptr" => (byvalue::rvalue_from_unique_ptr, false),
        "byvalue::rvalue_null_unique_ptr" => (byvalue::rvalue_null_unique_ptr, true),
        "byvalue::value_from_copy" => (byvalue::value_from_copy, false),
        "byvalue::value_from_mov" => (byvalue::value_from_mov, false),
        "byvalue::value_from_new" => (byvalue::value_from_new, false),
        "byvalue::value_from_pin_box" => (byvalue::value_from_pin_box, false),
        "byvalue::value_from_ref" => (byvalue::value_from_ref, false),
        "byvalue::value_from_ref_pin_box" => (byvalue::value_from_ref_pin_box, false),
        "byvalue::value_from_ref_unique_ptr" => (byvalue::value_from_ref_unique_ptr, false),
        "byvalue::value_from_unique_ptr" => (byvalue::value_from_unique_ptr, false),
        "byvalue::value_null_ref_unique_ptr" => (byvalue::value_null_ref_unique_ptr, true),
        "byvalue::value_null_unique_ptr" => (byvalue::value_null_unique_ptr, true),
        "byvalue::value_unfilled" => (byvalue::value_unfilled, false),
        "refs::cpp_pin" => (refs::cpp_pin, false),
        "refs::cpp_pin_new" => (refs::cpp_pin_new, false),
        "refs::cpp_unique_ptr_pin" => (refs::cpp_unique_ptr_pin, false),
        "sub::cpp_owned" => (sub::cpp_owned, false),
        "sub::defaults" => (sub::defaults, false),
        "sub::holder" => (sub::holder, false),
        "sub::rust_owned" => (sub::rust_owned, false),
        "sub::self_owned" => (sub::self_owned, false),
        _ => std::process::exit(0),
    };
    if std::panic::catch_unwind(f).is_err() != panics {
        println!("{} with seed {} {}", a[1], a[2], if panics { "did not panic, as it must" } else { "broke its contract" });
        std::process::exit(1);
    }
}
#[cfg(kani)]
fn main() {}
