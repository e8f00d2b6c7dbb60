use crate::surface::{self, Surface};
use std::path::Path;
pub struct Out { pub rs: String, pub surf: Surface, pub cpp: Vec<(String, String)> }
pub enum Res { Ok(Box<Out>), Err(String), Panic(String) }
/// Runs the real engine on dir/input.rs with dir on the include path.
pub fn engine(dir: &Path, want_cpp: bool) -> Res {
    let d = dir.to_path_buf();
    let r = std::panic::catch_unwind(move || -> Result<(String, Vec<(String, String)>), String> {
        let mut p = autocxx_engine::parse_file(d.join("input.rs"), false).map_err(|e| format!("{e}"))?;
        p.resolve_all(vec![d.clone()], &[], None, &autocxx_engine::CodegenOptions::default()).map_err(|e| format!("{e}"))?;
        let mut rs = String::new();
        for o in p.get_autocxxes() { rs.push_str(&autocxx_engine::generate_rs_single(o.get_rs_output()).code); }
        let mut cpp = vec![];
        if want_cpp {
            for b in p.get_cpp_buildables() {
                let g = b.generate_h_and_cxx(&autocxx_engine::CppCodegenOptions::default()).map_err(|e| format!("{e}"))?;
                for f in g.0 {
                    cpp.push((f.header_name.clone(), String::from_utf8_lossy(&f.header).to_string()));
                    if let Some(i) = f.implementation { cpp.push((format!("{}.cc", f.header_name), String::from_utf8_lossy(&i).to_string())); }
                }
            }
        }
        Ok((rs, cpp))
    });
    match r {
        Err(e) => Res::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
        Ok(Err(e)) => Res::Err(e),
        Ok(Ok((rs, cpp))) => match surface::read(&rs) {
            Ok(s) => Res::Ok(Box::new(Out { rs, surf: s, cpp })),
            Err(e) => Res::Panic(e),
        },
    }
}
/// A precompiled header of the std headers the generated code includes: only a speed-up.
pub fn pch(dir: &Path) -> Vec<String> {
    let d = dir.parent().unwrap_or(dir);
    let p = d.join("vxpre.pch");
    if !p.exists() {
        let h = d.join("vxpre.h");
        std::fs::write(&h, "#include <stdint.h>\n#include <algorithm>\n#include <array>\n#include <cassert>\n#include <cstddef>\n#include <cstdint>\n#include <exception>\n#include <functional>\n#include <initializer_list>\n#include <iosfwd>\n#include <iterator>\n#include <memory>\n#include <new>\n#include <stdexcept>\n#include <string>\n#include <string_view>\n#include <type_traits>\n#include <utility>\n#include <vector>\n").unwrap();
        let t = d.join("vxpre.tmp");
        match std::process::Command::new("clang++").args(["-std=c++17", "-w", "-x", "c++-header"]).arg(&h).arg("-o").arg(&t).status() { Ok(s) if s.success() => { let _ = std::fs::rename(&t, &p); } _ => return vec![] }
    }
    vec!["-include-pch".into(), p.to_string_lossy().into_owned()]
}
/// Does the generated C++ compile (syntax and semantics only)?
pub fn cxx_compiles(dir: &Path, cpp: &[(String, String)]) -> Result<(), String> { cxx_compile(dir, cpp, &["-fsyntax-only"]) }
pub fn cxx_compiles_obj(dir: &Path, cpp: &[(String, String)]) -> Result<(), String> { cxx_compile(dir, cpp, &["-c"]) }
fn cxx_compile(dir: &Path, cpp: &[(String, String)], mode: &[&str]) -> Result<(), String> {
    let g = dir.join("gen");
    let _ = std::fs::create_dir_all(&g);
    std::fs::write(g.join("cxx.h"), autocxx_engine::HEADER).unwrap();
    let mut ccs = vec![];
    for (n, t) in cpp {
        std::fs::write(g.join(n), t).unwrap();
        if n.ends_with(".cc") { ccs.push(g.join(n)); }
    }
    for c in ccs {
        let o = std::process::Command::new("clang++").args(["-std=c++17", "-w"]).args(mode).args(pch(dir)).arg("-I").arg(dir).arg("-I").arg(&g).arg(&c).current_dir(&g).output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            return Err(e.lines().take(12).collect::<Vec<_>>().join("\n"));
        }
    }
    Ok(())
}
