//! vx: mechanical extractor. Reads a contract template (a Verus source file
//! with `@@fn` / `@@type` holes), pulls the named items out of the real source
//! tree, applies a fixed list of syntax-directed rewrites, weaves the contract
//! text around them and writes one Verus file. Anything it cannot find or does
//! not understand is an error (exit 3), never a guess.
//!
//! usage: vx <repo> <template> <prelude-dir> <out.rs> <report.json>
mod rewrite;
mod template;
use std::collections::BTreeMap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vx <repo> <template> <prelude-dir> <out.rs> <report.json>");
        std::process::exit(2);
    }
    match template::process(&a[1], &a[2], &a[3]) {
        Ok((text, report)) => {
            std::fs::write(&a[4], text).unwrap();
            std::fs::write(&a[5], serde_json::to_string_pretty(&report).unwrap()).unwrap();
        }
        Err(e) => {
            let mut m = BTreeMap::new();
            m.insert("error", e.clone());
            let _ = std::fs::write(&a[5], serde_json::to_string_pretty(&m).unwrap());
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}
