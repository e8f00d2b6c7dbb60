//! Rust subclasses of C++ classes, end to end: every virtual call from C++ must reach the Rust override (or the C++ default
//! where there is none) with its argument values and give back its result, and both halves of each object must be dropped once.
use super::*;
use std::fmt::Write;
pub const RULE: &str = "random C++ programs with 1-2 classes in namespaces, each with 1-5 pure, defaulted and overloaded virtual methods (const and not, over primitive, string, plain-data, by-value, reference and unique_ptr parameters and results) and 1-2 Rust subclasses each, which override all pure and some other methods, some of them calling back into the C++ default; owned by Rust, by C++ or by themselves; the bindings are compiled, linked and run; non-trivial: at least one override and one default";
const NSS: &[&str] = &["", "", "a", "a::b"];
const PRIMS: &[(&str, &str)] = &[("int32_t", "i32"), ("bool", "bool"), ("double", "f64"), ("uint8_t", "u8"), ("int64_t", "i64"), ("float", "f32"), ("uint32_t", "u32"), ("int", "autocxx::c_int"), ("unsigned long", "autocxx::c_ulong")];
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Prim(usize), Pod, PodRef, Str, StrRef, Np, NpCRef, NpRef, Up }
fn cpp(k: K, ns: &str) -> String { let np = format!("::{}", q(ns, "Np")); match k { K::Prim(i) => PRIMS[i].0.into(), K::Pod => "::Pd".into(), K::PodRef => "const ::Pd&".into(), K::Str => "std::string".into(), K::StrRef => "const std::string&".into(), K::Np => np, K::NpCRef => format!("const {np}&"), K::NpRef => format!("{np}&"), K::Up => format!("std::unique_ptr<{np}>") } }
fn rs(k: K, ns: &str) -> String { let np = format!("ffi::{}", q(ns, "Np")); match k { K::Prim(i) => PRIMS[i].1.into(), K::Pod => "ffi::Pd".into(), K::PodRef => "&ffi::Pd".into(), K::Str => "cxx::UniquePtr<cxx::CxxString>".into(), K::StrRef => "&cxx::CxxString".into(), K::Np | K::Up => format!("cxx::UniquePtr<{np}>"), K::NpCRef => format!("&{np}"), K::NpRef => format!("Pin<&mut {np}>") } }
fn cval(k: K, e: &str) -> String { match k { K::Prim(_) => format!("static_cast<int64_t>({e})"), K::Pod | K::PodRef | K::Np | K::NpCRef | K::NpRef => format!("{e}.v"), K::Up => format!("({e} ? {e}->v : -5)"), K::Str | K::StrRef => format!("static_cast<int64_t>({e}.size() * 10 + {e}[0])") } }
fn rval(k: K, e: &str) -> String { match k { K::Prim(i) => if PRIMS[i].1.starts_with("autocxx") { format!("{e}.0 as i64") } else { format!("{e} as i64") }, K::Pod | K::PodRef => format!("{e}.v as i64"), K::Np | K::Up => format!("(&*{e}).getv() as i64"), K::NpCRef => format!("{e}.getv() as i64"), K::NpRef => format!("{e}.as_ref().get_ref().getv() as i64"), K::Str | K::StrRef => format!("({e}.to_str().unwrap().len() as i64 * 10 + {e}.to_str().unwrap().as_bytes()[0] as i64)") } }
fn upd(h: i64, v: i64) -> i64 { (h * 31 + v + 7) % 1000003 }
fn clip(k: K, h: i64) -> i64 { match k { K::Prim(i) => match PRIMS[i].0 { "bool" => h % 2, "uint8_t" => h % 200, "float" => h % 1000, _ => h }, _ => h } }
fn strval(s: &str) -> i64 { s.len() as i64 * 10 + s.as_bytes()[0] as i64 }
struct M { name: String, rust: String, params: Vec<K>, ret: Option<K>, cnst: bool, pure_: bool, id: i64 }
struct S { name: String, ns: &'static str, ms: Vec<M>, ctor: usize, hidden: usize }
struct Sub { name: String, of: usize, over: Vec<Option<u8>>, own: usize }
fn rlit(k: K, v: i64, ns: &str) -> String {
    match k {
        K::Prim(i) => match PRIMS[i].1 { "bool" => format!("{}", v % 2 != 0), "f64" | "f32" => format!("{v}.0"), "autocxx::c_int" => format!("autocxx::c_int({v})"), "autocxx::c_ulong" => format!("autocxx::c_ulong({v})"), t => format!("{v}{t}") },
        K::Pod => format!("ffi::Pd {{ v: {v}, w: 3 }}"), K::PodRef => format!("&ffi::Pd {{ v: {v}, w: 3 }}"),
        K::Np | K::Up => format!("ffi::{}::new({v}).within_unique_ptr()", q(ns, "Np")),
        K::NpCRef => format!("&*ffi::{}::new({v}).within_unique_ptr()", q(ns, "Np")),
        K::NpRef => format!("ffi::{}::new({v}).within_unique_ptr().pin_mut()", q(ns, "Np")),
        K::Str => format!("ffi::make_string(\"{}\")", "x".repeat(v as usize % 7 + 1)), K::StrRef => format!("&*ffi::make_string(\"{}\")", "x".repeat(v as usize % 7 + 1)),
    }
}
fn given(k: K, v: i64) -> i64 { match k { K::Prim(i) if PRIMS[i].0 == "bool" => v % 2, K::Str | K::StrRef => strval(&"x".repeat(v as usize % 7 + 1)), _ => v } }
fn cret(k: K, ns: &str) -> String { let np = format!("::{}", q(ns, "Np")); match k { K::Prim(i) => { let e = match PRIMS[i].0 { "bool" => "h % 2 != 0", "uint8_t" => "h % 200", "float" => "h % 1000", _ => "h" }; format!("return static_cast<{}>({e});", PRIMS[i].0) } K::Pod => "::Pd r; r.v = h; r.w = 1; return r;".into(), K::Str => "return std::to_string(h);".into(), K::Np => format!("return {np}(h);"), K::Up => format!("return std::unique_ptr<{np}>(new {np}(h));"), _ => unreachable!() } }
fn rret(k: K, ns: &str) -> String { match k { K::Prim(i) => match PRIMS[i].1 { "bool" => "h % 2 != 0".into(), "u8" => "(h % 200) as u8".into(), "f32" => "(h % 1000) as f32".into(), "f64" => "h as f64".into(), "autocxx::c_int" => "autocxx::c_int(h as _)".into(), "autocxx::c_ulong" => "autocxx::c_ulong(h as _)".into(), t => format!("h as {t}") }, K::Pod => "ffi::Pd { v: h as i32, w: 1 }".into(), K::Str => "ffi::make_string(&h.to_string())".into(), K::Np | K::Up => format!("ffi::{}::new(h as i32).within_unique_ptr()", q(ns, "Np")), _ => unreachable!() } }
fn kind(r: &mut Rng, ret: bool) -> K {
    match r.below(100) { 0..=39 => K::Prim(r.below(PRIMS.len())), 40..=49 => K::Pod, 50..=57 => K::Str, 58..=67 => K::Np, 68..=73 => K::Up, x if ret => { let _ = x; K::Prim(r.below(2)) }, 74..=80 => K::PodRef, 81..=87 => K::StrRef, 88..=94 => K::NpCRef, _ => K::NpRef }
}
pub fn run(r: &mut Rng, dir: &Path) -> Case {
    let mut p = Program { safety: "unsafe_ffi", std: true, ..Default::default() };
    let npns: &'static str = r.pick(NSS);
    let mut ss = vec![];
    let mut id = 10;
    for i in 0..r.range(1, 2) {
        let mut ms: Vec<M> = vec![];
        for _ in 0..r.range(1, 5) {
            id += 1;
            let name = r.pick(&["ma", "mb", "mc", "md", "go", "call_me", "x"]).to_string();
            let before = ms.iter().filter(|m| m.name == name).count();
            let params: Vec<K> = (0..r.below(4)).map(|_| kind(r, false)).collect();
            if ms.iter().any(|m| m.name == name && m.params.iter().map(|k| cpp(*k, npns)).collect::<Vec<_>>() == params.iter().map(|k| cpp(*k, npns)).collect::<Vec<_>>()) { continue; }
            // calls among overloads must not be ambiguous for C++ itself
            if ms.iter().any(|m| m.name == name && m.params.len() == params.len()) { continue; }
            let ret = if r.chance(65) { Some(kind(r, true)) } else { None };
            ms.push(M { rust: if before == 0 { name.clone() } else { format!("{name}{before}") }, name, params, ret, cnst: r.chance(50), pure_: r.chance(40), id });
        }
        let ctor = r.below(3);
        // (a default-constructed subclass gets its peer constructor by itself only where it has no other constructor)
        let hidden = match r.below(5) { 3 if ctor == 0 => 0, x => x };
        ss.push(S { name: format!("S{i}"), ns: r.pick(NSS), ms, ctor, hidden });
    }
    let mut subs: Vec<Sub> = vec![];
    for (i, s) in ss.iter().enumerate() { for _ in 0..r.range(1, 2) {
        let over = s.ms.iter().map(|m| if m.pure_ { Some(0) } else { match r.below(3) { 0 => None, 1 => Some(0), _ => Some(1) } }).collect();
        subs.push(Sub { name: format!("Sub{}", subs.len()), of: i, over, own: r.below(3) });
    } }
    // C++
    let mut h = String::from("inline int64_t& vx_last_() { static int64_t x = 0; return x; }\ninline int64_t& vx_live_() { static int64_t x = 0; return x; }\ninline int64_t vx_last() { return vx_last_(); }\ninline int64_t vx_live() { return vx_live_(); }\ninline int64_t vx_upd(int64_t h, int64_t v) { return (h * 31 + v + 7) % 1000003; }\nstruct Pd { int32_t v; int8_t w; };\n");
    let open = |ns: &str| if ns.is_empty() { String::new() } else { ns.split("::").map(|x| format!("namespace {x} {{ ")).collect::<String>() };
    let close = |ns: &str| if ns.is_empty() { String::new() } else { " }".repeat(ns.split("::").count()) };
    writeln!(h, "{}struct Np {{ int64_t pad; int32_t v; explicit Np(int32_t x) : pad(0), v(x) {{ vx_live_()++; }} Np(const Np& o) : pad(0), v(o.v) {{ vx_live_()++; }} ~Np() {{ vx_live_()--; }} int32_t getv() const {{ return v; }} }};{}", open(npns), close(npns)).unwrap();
    for s in &ss {
        let ct = match s.ctor { 0 => format!("{}() : sv(5) {{ vx_live_()++; }}", s.name), 1 => format!("{}(int32_t a) : sv(a) {{ vx_live_()++; }}", s.name), _ => format!("{}(int32_t a, std::string b) : sv(a + b.size()) {{ vx_live_()++; }}", s.name) };
        // constructors which a user of the class cannot call, and (but for the protected one) neither can a subclass
        let ct = match s.hidden { 1 => format!("private: {}(int32_t, bool, int8_t) : sv(0) {{}} public: {ct}", s.name), 2 => format!("{ct} private: {}(int32_t, int32_t, bool) : sv(0) {{}} public: ", s.name), 3 => format!("{ct} protected: {}(int32_t, double, bool) : sv(0) {{}} public: ", s.name), 4 if s.ctor == 0 => format!("{}(int32_t, bool, bool) = delete; {ct}", s.name), 4 => format!("{ct} {}(int32_t, bool, bool) = delete;", s.name), _ => ct };
        write!(h, "{}struct {} {{ int64_t sv; {ct} {}(const {}&) = delete; virtual ~{}() {{ vx_live_()--; }}\n", open(s.ns), s.name, s.name, s.name, s.name).unwrap();
        for m in &s.ms {
            let ps: Vec<String> = m.params.iter().enumerate().map(|(i, k)| format!("{} p{i}", cpp(*k, npns))).collect();
            write!(h, "  virtual {} {}({}){}", m.ret.map(|k| cpp(k, npns)).unwrap_or("void".into()), m.name, ps.join(", "), if m.cnst { " const" } else { "" }).unwrap();
            if m.pure_ { h += " = 0;\n"; } else {
                write!(h, " {{ int64_t h = vx_upd({}, sv);", m.id).unwrap();
                for (i, k) in m.params.iter().enumerate() { write!(h, " h = vx_upd(h, {});", cval(*k, &format!("p{i}"))).unwrap(); }
                write!(h, " vx_last_() = h; {} }}\n", m.ret.map(|k| cret(k, npns)).unwrap_or_default()).unwrap();
            }
        }
        writeln!(h, "}};{}", close(s.ns)).unwrap();
        let t = format!("::{}", q(s.ns, &s.name));
        writeln!(h, "inline {t}*& vx_o_{}() {{ static {t}* o = nullptr; return o; }} inline void reg_{}({t}& x) {{ vx_o_{}() = &x; }}", s.name, s.name, s.name).unwrap();
        for m in &s.ms {
            let ps: Vec<String> = m.params.iter().enumerate().map(|(i, k)| format!("{} p{i}", cpp(*k, npns))).collect();
            let fw: Vec<String> = m.params.iter().enumerate().map(|(i, k)| if *k == K::Up { format!("std::move(p{i})") } else { format!("p{i}") }).collect();
            let obj = if m.cnst { format!("const_cast<const {t}*>(vx_o_{}())", s.name) } else { format!("vx_o_{}()", s.name) };
            writeln!(h, "inline {} call_{}_{}({}) {{ return {obj}->{}({}); }}", m.ret.map(|k| cpp(k, npns)).unwrap_or("void".into()), s.name, m.id, ps.join(", "), m.name, fw.join(", ")).unwrap();
            p.dirs.push(format!("generate!(\"call_{}_{}\")", s.name, m.id));
        }
        p.dirs.push(format!("generate!(\"reg_{}\")", s.name));
    }
    for s in &subs { let n = q(ss[s.of].ns, &ss[s.of].name); p.dirs.push(format!("subclass!(\"{n}\", {})", s.name)); }
    for d in ["vx_last", "vx_live"] { p.dirs.push(format!("generate!(\"{d}\")")); }
    p.dirs.push("generate_pod!(\"Pd\")".into()); p.dirs.push(format!("generate!(\"{}\")", q(npns, "Np")));
    r.shuffle(&mut p.dirs);
    p.extra = h;
    let mut c = Case::of(&p);
    c.nontrivial = subs.iter().any(|s| s.over.iter().any(|o| o.is_some())) && subs.iter().any(|s| s.over.iter().any(|o| *o != Some(0)));
    let Some(o) = go(&p, dir, &mut c, true) else { return c };
    // Rust
    let mut d = String::from("#![allow(warnings)]\nuse autocxx::prelude::*;\nuse autocxx::subclass::prelude::*;\nuse autocxx::subclass::{CppPeerConstructor, CppSubclassRustPeerHolder};\nuse std::pin::Pin;\ninclude!(\"ffi.rs\");\nstatic mut LAST: i64 = 0; static mut LIVE: i64 = 0;\nfn upd(h: i64, v: i64) -> i64 { (h * 31 + v + 7) % 1000003 }\nfn ckf(a: i64, b: i64, w: &str) { if a != b { println!(\"MISMATCH {}: {} expected {}\", w, a, b); std::process::exit(3); } }\npub struct Tag(i64);\nimpl Tag { fn of(x: i64) -> Tag { unsafe { LIVE += 1; } Tag(x) } }\nimpl Default for Tag { fn default() -> Tag { Tag::of(40) } }\nimpl Drop for Tag { fn drop(&mut self) { unsafe { LIVE -= 1; } } }\n");
    for s in &subs {
        let sp = &ss[s.of];
        let ctor = match sp.ctor { 0 => None, 1 => Some("6"), _ => Some("6, \"abc\"") };
        let attr = if s.own == 2 { "#[subclass(self_owned)]" } else { "#[subclass]" };
        writeln!(d, "{attr}\n#[derive(Default)]\npub struct {} {{ tag: Tag }}", s.name).unwrap();
        if let Some(a) = ctor { writeln!(d, "impl CppPeerConstructor<ffi::{0}Cpp> for {0} {{ fn make_peer(&mut self, peer_holder: CppSubclassRustPeerHolder<Self>) -> cxx::UniquePtr<ffi::{0}Cpp> {{ ffi::{0}Cpp::new(peer_holder, {a}).within_unique_ptr() }} }}", s.name).unwrap(); }
        writeln!(d, "impl ffi::{}_methods for {} {{", q(sp.ns, &sp.name), s.name).unwrap();
        for (m, ov) in sp.ms.iter().zip(&s.over) {
            let Some(ov) = ov else { continue };
            let ps: Vec<String> = m.params.iter().enumerate().map(|(i, k)| format!("mut p{i}: {}", rs(*k, npns))).collect();
            write!(d, "  fn {}(&{}self{}{}) {} {{ let mut h = upd({} + 1000, self.tag.0);", m.rust, if m.cnst { "" } else { "mut " }, if ps.is_empty() { "" } else { ", " }, ps.join(", "), m.ret.map(|k| format!("-> {}", rs(k, npns))).unwrap_or_default(), m.id).unwrap();
            for (i, k) in m.params.iter().enumerate() { write!(d, " h = upd(h, {});", rval(*k, &format!("p{i}"))).unwrap(); }
            d += " unsafe { LAST = h; }";
            if !m.cnst { d += " self.tag.0 += 1;"; }
            let args: Vec<String> = m.params.iter().enumerate().map(|(i, k)| if *k == K::Pod { format!("p{i}.clone()") } else { format!("p{i}") }).map(|x| x.trim_end_matches(".clone()").to_string()).collect();
            if *ov == 1 { write!(d, " return self.{}.{}_super({});", if m.cnst { "peer()" } else { "peer_mut()" }, m.rust, args.join(", ")).unwrap(); }
            else if let Some(k) = m.ret { write!(d, " return {};", rret(k, npns)).unwrap(); }
            d += " }\n";
        }
        d += "}\n";
    }
    d += "fn main() { unsafe {\n";
    for s in &subs {
        let sp = &ss[s.of];
        let tag = r.range(41, 90) as i64;
        let sv: i64 = match sp.ctor { 0 => 5, 1 => 6, _ => 9 };
        writeln!(d, "{{ let me = {} {{ tag: Tag::of({tag}), cpp_peer: Default::default() }};", s.name).unwrap();
        match s.own {
            0 => writeln!(d, "let obs = {}::new_rust_owned(me); ffi::reg_{}(obs.as_ref().borrow_mut().pin_mut());", s.name, sp.name).unwrap(),
            1 => writeln!(d, "let mut obs = {0}::as_{1}_unique_ptr({0}::new_cpp_owned(me)); ffi::reg_{1}(obs.pin_mut());", s.name, sp.name).unwrap(),
            _ => writeln!(d, "let obs = {}::new_self_owned(me); ffi::reg_{}(obs.as_ref().borrow_mut().pin_mut());", s.name, sp.name).unwrap(),
        }
        writeln!(d, "ckf(LIVE, 1, \"{} alive\"); ckf(ffi::vx_live(), 1, \"{} peers alive\");", s.name, s.name).unwrap();
        let mut tagv = tag;
        for (m, ov) in sp.ms.iter().zip(&s.over) {
            let vals: Vec<i64> = m.params.iter().map(|_| r.range(1, 60) as i64).collect();
            let args: Vec<String> = m.params.iter().zip(&vals).map(|(k, v)| rlit(*k, *v, npns)).collect();
            let w = format!("{}::{} on {}", sp.name, m.name, s.name);
            let (mut hr, mut hc) = (upd(m.id + 1000, tagv), upd(m.id, sv));
            for (k, v) in m.params.iter().zip(&vals) { hr = upd(hr, given(*k, *v)); hc = upd(hc, given(*k, *v)); }
            let hx = if *ov == Some(0) { hr } else { hc };
            writeln!(d, "{{ LAST = -1; let _ret = ffi::call_{}_{}({}){};", sp.name, m.id, args.join(", "), if m.ret == Some(K::Np) { ".within_unique_ptr()" } else { "" }).unwrap();
            writeln!(d, "ckf(LAST, {}, \"{w}: seen by the override\");", if ov.is_some() { hr } else { -1 }).unwrap();
            if *ov != Some(0) { writeln!(d, "ckf(ffi::vx_last(), {hc}, \"{w}: seen by the C++ default\");").unwrap(); }
            if let Some(k) = m.ret {
                let e = clip(k, hx);
                let get = match k { K::Str => "_ret.to_str().unwrap().parse::<i64>().unwrap()".into(), _ => rval(k, "_ret") };
                writeln!(d, "ckf({get}, {e}, \"{w}: result\");").unwrap();
            }
            d += "}\n";
            if ov.is_some() && !m.cnst { tagv += 1; }
        }
        match s.own { 2 => d += "obs.as_ref().borrow().delete_self(); drop(obs); }\n", _ => d += "drop(obs); }\n" }
        writeln!(d, "ckf(LIVE, 0, \"{}: Rust halves not dropped once\"); ckf(ffi::vx_live(), 0, \"{}: C++ halves not dropped once\");", s.name, s.name).unwrap();
    }
    d += "println!(\"OK\"); } }\n";
    match p_exec::exec(dir, &o, &d) { Ok(()) => {} Err((k, e)) => c.fail(&k, e) }
    c
}
