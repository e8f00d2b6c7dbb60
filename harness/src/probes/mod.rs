use crate::gen::*;
use crate::rng::Rng;
use crate::run::{self, Out, Res};
use crate::surface;
use std::collections::BTreeSet;
use std::path::Path;
mod p_gc; mod p_sub; mod p_special; mod p_pod; mod p_fun; mod p_exec; mod p_cast; mod p_ign;

#[derive(Default)]
pub struct Case { pub nontrivial: bool, pub hash: u64, pub sample: String, pub skipped: Option<String>, pub failures: Vec<(String, String)> }
impl Case {
    pub fn fail(&mut self, key: &str, msg: String) { self.failures.push((key.into(), msg)); }
    pub fn of(p: &Program) -> Case {
        use std::hash::{Hash, Hasher};
        let s = format!("{}\n---\n{}", p.header(), p.rust());
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        Case { hash: h.finish() >> 1, sample: s, ..Default::default() }
    }
}
pub fn max_cases(_profile: &str) -> u64 { u64::MAX }
pub fn rule(profile: &str) -> &'static str {
    match profile {
        "gc" => p_gc::RULE,
        "ignored" => p_ign::RULE,
        "pod" => p_pod::RULE,
        "exec" => p_exec::RULE,
        "subclass" => p_sub::RULE,
        "casts" => p_cast::RULE,
        "fun" | "unsafety" | "access" | "overload" | "signature" => p_fun::RULE,
        "special" | "abstract" => p_special::RULE,
        _ => "",
    }
}
pub fn run(profile: &str, seed: u64, dir: &Path) -> Case {
    let mut r = Rng::new(seed);
    match profile {
        "gc" => p_gc::run(&mut r, dir),
        "ignored" => p_ign::run(&mut r, dir),
        "pod" => p_pod::run(&mut r, dir),
        "exec" => p_exec::run(&mut r, dir),
        "subclass" => p_sub::run(&mut r, dir),
        "casts" => p_cast::run(&mut r, dir),
        "fun" | "unsafety" | "access" | "overload" | "signature" => p_fun::run(&mut r, dir, profile),
        "special" => p_special::run(&mut r, dir, false),
        "abstract" => p_special::run(&mut r, dir, true),
        _ => panic!("unknown profile {profile}"),
    }
}
/// Run the engine on p; engine errors and panics are failures with these keys.
pub fn go(p: &Program, dir: &Path, c: &mut Case, cpp: bool) -> Option<Box<Out>> {
    p.write(dir);
    match run::engine(dir, cpp) {
        Res::Ok(o) => Some(o),
        Res::Err(e) => { c.fail("engine-error", format!("the engine rejected a valid input: {e}")); None }
        Res::Panic(e) => { c.fail("engine-panic", format!("the engine panicked: {e}")); None }
    }
}
