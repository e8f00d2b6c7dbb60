//! End to end: the bindings are compiled, linked with the C++ and run; every call must reach the right C++ function
//! with the right argument values, return the right value, and leave no object alive or destroyed twice.
use super::*;
use super::p_fun::{self, FunProg};
use std::fmt::Write;
pub const RULE: &str = "random C++ programs with 2-4 classes (plain data and not, with inheritance) and 4-14 functions, methods, overloads and virtual overrides whose bodies hash their identity and arguments; the bindings are compiled with rustc and clang, linked and run, every function is called, results, side effects and the number of live objects are compared with the expected ones; non-trivial: at least four calls";
const FP: &[&str] = &["int", "bool", "double", "unsigned int", "long", "uint32_t", "int8_t", "uint64_t", "float", "int16_t"];
const NSS: &[&str] = &["", "a", "a::b", "c"];
fn upd(h: i64, v: i64) -> i64 { (h * 31 + v + 7) % 1000003 }
fn clip(p: &str, h: i64) -> i64 { match p { "bool" => h % 2, "int8_t" => h % 100, "int16_t" => h % 30000, "float" | "double" => h % 1000, _ => h } }
fn rlit(p: &str, v: i64) -> String { match p { "int" => format!("autocxx::c_int({v})"), "unsigned int" => format!("autocxx::c_uint({v})"), "long" => format!("autocxx::c_long({v})"), "bool" => format!("{}", v != 0), "double" => format!("{v}f64"), "float" => format!("{v}f32"), "uint32_t" => format!("{v}u32"), "int8_t" => format!("{v}i8"), "uint64_t" => format!("{v}u64"), _ => format!("{v}i16") } }
struct G { f: FunProg, pod: BTreeSet<usize> }
fn rnd(r: &mut Rng, p: &Program, ret: bool) -> PT {
    let v = |base, mode| PT { base, mode };
    let k = r.below(100);
    if k < 28 { return v(Base::Prim(r.pick(FP)), if !ret && r.chance(20) { *r.pick(&[Mode::Ptr, Mode::CPtr]) } else { Mode::Val }); }
    if k < 36 && !p.enums.is_empty() { return v(Base::Enum(r.below(p.enums.len())), Mode::Val); }
    if k < 46 { return v(Base::Std("std::string"), if ret { Mode::Val } else { *r.pick(&[Mode::Val, Mode::CRef]) }); }
    if k < 54 { let i = r.below(p.types.len()); return v(Base::Std(Box::leak(format!("std::unique_ptr<::{}>", p.ty_q(i)).into_boxed_str())), Mode::Val); }
    let m = if ret { *r.pick(&[Mode::Val, Mode::Val, Mode::Ptr, Mode::CPtr]) } else { *r.pick(&[Mode::Val, Mode::Val, Mode::Ptr, Mode::CPtr, Mode::Ref, Mode::CRef, Mode::RRef]) };
    v(Base::Ty(r.below(p.types.len())), m)
}
fn up_of(p: &Program, b: &Base) -> Option<usize> { if let Base::Std(s) = b { let x = s.strip_prefix("std::unique_ptr<::")?.trim_end_matches('>'); (0..p.types.len()).find(|i| p.ty_q(*i) == x) } else { None } }
pub fn run(r: &mut Rng, dir: &Path) -> Case {
    let mut p = Program { safety: "unsafe_ffi", std: true, ..Default::default() };
    p.extra = "inline int64_t& vx_last_() { static int64_t x = 0; return x; }\ninline int64_t& vx_live_() { static int64_t x = 0; return x; }\ninline int64_t vx_last() { return vx_last_(); }\ninline int64_t vx_live() { return vx_live_(); }\ninline int64_t vx_upd(int64_t h, int64_t v) { return (h * 31 + v + 7) % 1000003; }\n".into();
    let n = r.range(2, 4);
    let mut pod = BTreeSet::new();
    for i in 0..r.below(3) { p.enums.push(En { name: format!("E{i}"), ns: r.pick(NSS), class: r.chance(50) }); }
    let mut root_of: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        let mut t = new_ty(i, r.pick(NSS));
        let nm = t.name.clone();
        if r.chance(35) {
            pod.insert(i);
            t.fields.push(field("v".into(), PT { base: Base::Prim("int32_t"), mode: Mode::Val }));
            if r.chance(50) { t.fields.push(field("w".into(), PT { base: Base::Prim("int8_t"), mode: Mode::Val })); }
            p.inclass.insert(i, "  int32_t getv() const { return v; }".into());
        } else {
            // bases: earlier classes; own field v hides theirs. Every class counts its own instances.
            let cands: Vec<usize> = (0..i).filter(|j| !pod.contains(j)).collect();
            let mut bs = vec![];
            for j in cands { if bs.len() < 2 && r.chance(50) && bs.iter().all(|b: &usize| !root_of[*b].contains(&j) && !root_of[j].contains(b) && root_of[*b].iter().all(|x| !root_of[j].contains(x))) { bs.push(j); } }
            let mut init = String::new();
            for (k, j) in bs.iter().enumerate() { write!(init, "::{}(x * 2 + {k} + 3), ", p.ty_q(*j)).unwrap(); }
            let cp = |w: &str| -> String { let mut s = String::new(); for j in &bs { write!(s, "::{}({w}), ", p.ty_q(*j)).unwrap(); } s };
            t.bases = bs.iter().map(|j| (*j, Acc::Public, false)).collect();
            t.fields.push(field("pad".into(), PT { base: Base::Prim("int64_t"), mode: Mode::Val }));
            t.fields.push(field("v".into(), PT { base: Base::Prim("int32_t"), mode: Mode::Val }));
            p.inclass.insert(i, format!("  explicit {nm}(int32_t x) : {init}pad(0), v(x) {{ vx_live_()++; }}\n  {nm}(const {nm}& o) : {}pad(0), v(o.v) {{ vx_live_()++; }}\n  {nm}({nm}&& o) : {}pad(0), v(o.v) {{ vx_live_()++; o.v = -1; }}\n  {}~{nm}() {{ vx_live_()--; v = -999; }}\n  int32_t getv() const {{ return v; }}", cp("o"), cp(&format!("static_cast<{nm}&&>(o)")), if r.chance(60) { "virtual " } else { "" }));
        }
        let mut rs: Vec<usize> = vec![i];
        for (b, _, _) in &t.bases { rs.extend(root_of[*b].clone()); }
        root_of.push(rs);
        p.types.push(t);
    }
    // functions: (Fun, owner)
    let mut all: Vec<(Fun, Option<usize>)> = vec![];
    let mut seen: BTreeSet<(String, String, Vec<String>, bool)> = BTreeSet::new();
    for k in 0..r.range(4, 14) {
        let owner = if r.chance(60) { Some(r.below(n)) } else { None };
        let ns: &'static str = owner.map(|o| p.types[o].ns).unwrap_or(r.pick(NSS));
        let mut m = new_fn(match owner { Some(_) => r.pick(&["m", "m", "m_", "g", "type"]).to_string(), None => r.pick(&["f", "f", "f_", "k", "impl"]).to_string() }, ns);
        // a method which is called almost like its class
        if let Some(o) = owner { if r.chance(8) { m.name = format!("{}9", p.types[o].name); } }
        m.is_const = owner.is_some() && r.chance(45);
        m.is_static = owner.is_some() && !m.is_const && r.chance(20);
        for _ in 0..r.below(4) { m.params.push(rnd(r, &p, false)); }
        if r.chance(70) { m.ret = Some(rnd(r, &p, true)); }
        if r.chance(25) {
            // return a reference to the only reference parameter
            m.params.retain(|t| !p_fun::is_ref(t) || matches!(t.base, Base::Std(_)));
            m.params.retain(|t| !p_fun::is_ref(t));
            let ty = if let (Some(o), false) = (owner, m.is_static) { o } else { let t = r.below(n); let md = *r.pick(&[Mode::Ref, Mode::CRef]); let at = r.below(m.params.len() + 1); m.params.insert(at, PT { base: Base::Ty(t), mode: md }); t };
            let mutable = if owner.is_some() && !m.is_static { !m.is_const } else { m.params.iter().any(|t| t.mode == Mode::Ref) };
            m.ret = Some(PT { base: Base::Ty(ty), mode: if mutable && r.chance(70) { Mode::Ref } else { Mode::CRef } });
        }
        if let Some(o) = owner { if !m.is_static && !pod.contains(&o) && r.chance(30) { m.virt = Virt::Virtual; m.name = format!("v{}", ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o"][k]); } if pod.contains(&o) { m.virt = Virt::No; } }
        let key: Vec<String> = m.params.iter().map(|t| p_fun::canon(&p, t)).collect();
        let cont = owner.map(|o| p.ty_q(o)).unwrap_or(format!("ns {ns}"));
        if m.is_static || owner.is_none() {
            if seen.contains(&(cont.clone(), m.name.clone(), key.clone(), true)) || seen.contains(&(cont.clone(), m.name.clone(), key.clone(), false)) { continue; }
            seen.insert((cont.clone(), m.name.clone(), key.clone(), true)); seen.insert((cont, m.name.clone(), key, false));
        } else if !seen.insert((cont, m.name.clone(), key, m.is_const)) { continue; }
        let _ = k;
        all.push((m, owner));
    }
    // overrides: a derived class may override a base's virtual method
    let mut over: Vec<(usize, usize)> = vec![]; // (derived type, index in all)
    for i in 0..n {
        let bs: Vec<usize> = p.types[i].bases.iter().map(|b| b.0).collect();
        for b in bs {
            for x in 0..all.len() {
                if all[x].1 == Some(b) && all[x].0.virt == Virt::Virtual && r.chance(50) && !all.iter().any(|y| y.1 == Some(i) && y.0.name == all[x].0.name) {
                    over.push((i, x));
                }
            }
        }
    }
    over.sort(); over.dedup_by(|a, b| a.0 == b.0 && all[a.1].0.name == all[b.1].0.name);
    let mut fid = 10i64;
    let mut ids = vec![];
    let mut tail = String::new();
    for (m, o) in &all {
        fid += 1; ids.push(fid);
        tail += &body(&p, &pod, m, *o, fid);
        match o { Some(o) => p.types[*o].methods.push(m.clone()), None => p.fns.push(m.clone()) }
    }
    let mut over_ids = vec![];
    for (d, x) in &over {
        fid += 1; over_ids.push(fid);
        let mut m = all[*x].0.clone(); m.virt = Virt::Override;
        tail += &body(&p, &pod, &m, Some(*d), fid);
        p.types[*d].methods.push(m);
    }
    p.tail = tail;
    for i in 0..n { if pod.contains(&i) { p.pod_ty(i) } else { p.root_ty(i) } }
    for e in 0..p.enums.len() { let s = q(p.enums[e].ns, &p.enums[e].name); p.dirs.push(format!("generate!(\"{s}\")")); }
    let mut names: std::collections::BTreeMap<String, usize> = Default::default();
    for f in &p.fns { *names.entry(q(f.ns, &f.name)).or_default() += 1; }
    for (n, k) in names { for j in 0..k { p.dirs.push(if j == 0 { format!("generate!(\"{n}\")") } else { format!("generate!(\"{n}{j}\")") }); } }
    p.dirs.push("generate!(\"vx_last\")".into()); p.dirs.push("generate!(\"vx_live\")".into());
    let g = G { f: FunProg { p, ptr_alias: Default::default() }, pod };
    let p = &g.f.p;
    let mut c = Case::of(p);
    c.nontrivial = all.len() >= 4;
    let Some(o) = go(p, dir, &mut c, true) else { return c };
    // Rust driver
    let mut d = String::from("#![allow(warnings)]\nuse autocxx::prelude::*;\nuse std::pin::Pin;\ninclude!(\"ffi.rs\");\nuse ffi::ToCppString;\nuse autocxx::prelude::{as_copy, as_mov, as_new};\nmacro_rules! ck { ($a:expr, $b:expr, $w:expr) => { let (a, b) = ($a as i64, $b as i64); if a != b { println!(\"MISMATCH {}: got {} expected {}\", $w, a, b); std::process::exit(3); } } }\nfn main() { unsafe {\n");
    let mut calls = 0;
    for (x, (m, o_)) in all.iter().enumerate() {
        if let Some(s) = call(r, &g, &o, m, *o_, ids[x], &mut c) { d += &s; calls += 1; }
    }
    for (y, (dt, x)) in over.iter().enumerate() {
        // through the base reference, the override must run
        let (m, b) = (&all[*x].0, all[*x].1.unwrap());
        d += &vcall(&g, &o, m, *dt, b, over_ids[y], &mut c);
    }
    for i in 0..n {
        for (k, (b, _, _)) in p.types[i].bases.iter().enumerate() {
            let (t, bt) = (p.ty_q(i), p.ty_q(*b));
            writeln!(d, "{{ let mut o = ffi::{t}::new(11).within_unique_ptr(); let b: &ffi::{bt} = (&*o).as_ref(); ck!(b.getv(), {}, \"cast {t} to {bt}\"); }}", 22 + k + 3).unwrap();
            if !o.surf.traits.contains(&(format!("AsRef<{bt}>"), t.clone())) { c.fail("cast-missing", format!("{t} cannot be seen as its base {bt}")); return c; }
        }
    }
    d += "ck!(ffi::vx_live(), 0, \"objects still alive (or destroyed twice)\");\n println!(\"OK\"); } }\n";
    if !c.failures.is_empty() { return c; }
    let _ = calls;
    match exec(dir, &o, &d) { Ok(()) => {} Err((k, e)) => c.fail(&k, e) }
    c
}
fn val(p: &Program, t: &PT, n: &str) -> String {
    let ptr = matches!(t.mode, Mode::Ptr | Mode::CPtr);
    let e = if ptr { format!("(*{n})") } else { n.to_string() };
    if up_of(p, &t.base).is_some() { return format!("({n} ? {n}->v : -5)"); }
    match &t.base { Base::Prim(_) => format!("static_cast<int64_t>({e})"), Base::Enum(_) => format!("static_cast<int64_t>({e})"), Base::Ty(_) => format!("{e}.v"), Base::Std(_) => format!("static_cast<int64_t>({e}.size() * 10 + ({e}.empty() ? 0 : {e}[0]))"), Base::Alias(_) => unreachable!() }
}
fn body(p: &Program, pod: &BTreeSet<usize>, m: &Fun, owner: Option<usize>, id: i64) -> String {
    let mut s = String::new();
    let ret = m.ret.as_ref().map(|r| p.pt_s(r)).unwrap_or("void".into());
    let ps: Vec<String> = m.params.iter().enumerate().map(|(i, t)| format!("{} p{i}", p.pt_s(t))).collect();
    let nm = match owner { Some(o) => format!("{}::{}", p.ty_q(o), m.name), None => m.name.clone() };
    if owner.is_none() && !m.ns.is_empty() { for x in m.ns.split("::") { write!(s, "namespace {x} {{ ").unwrap(); } }
    write!(s, "inline {ret} {nm}({}){} {{ int64_t h = {id};", ps.join(", "), if m.is_const { " const" } else { "" }).unwrap();
    if owner.is_some() && !m.is_static { s += " h = vx_upd(h, this->v);"; }
    for (i, t) in m.params.iter().enumerate() { write!(s, " h = vx_upd(h, {});", val(p, t, &format!("p{i}"))).unwrap(); }
    for (i, t) in m.params.iter().enumerate() {
        if matches!(t.mode, Mode::Ptr | Mode::Ref) {
            let e = if t.mode == Mode::Ptr { format!("(*p{i})") } else { format!("p{i}") };
            match &t.base { Base::Ty(_) => write!(s, " {e}.v += {};", i + 1).unwrap(), Base::Prim("bool") => write!(s, " {e} = !{e};").unwrap(), Base::Prim(_) => write!(s, " {e} += {};", i + 1).unwrap(), _ => {} }
        }
    }
    if owner.is_some() && !m.is_static && !m.is_const { s += " this->v += 100;"; }
    s += " vx_last_() = h;";
    if let Some(t) = &m.ret {
        let b = p.base_s(&t.base);
        if let Some(u) = up_of(p, &t.base) { if pod.contains(&u) { write!(s, " auto vxr = {b}(new ::{}()); vxr->v = h; return vxr;", p.ty_q(u)).unwrap() } else { write!(s, " return {b}(new ::{}(h));", p.ty_q(u)).unwrap() } }
        else {
            match (&t.base, t.mode) {
                (Base::Prim(x), _) => { let cl = match *x { "bool" => "h % 2 != 0", "int8_t" => "h % 100", "int16_t" => "h % 30000", "float" | "double" => "h % 1000", _ => "h" }; write!(s, " return static_cast<{x}>({cl});").unwrap() }
                (Base::Enum(e), _) => write!(s, " return h % 2 ? {b}::{}_V1 : {b}::{}_V0;", p.enums[*e].name, p.enums[*e].name).unwrap(),
                (Base::Std(_), _) => s += " return std::to_string(h);",
                (Base::Ty(u), Mode::Val) => if pod.contains(u) { write!(s, " {b} vxr = {b}(); vxr.v = h; return vxr;").unwrap() } else { write!(s, " return {b}(h);").unwrap() },
                (Base::Ty(u), Mode::Ptr | Mode::CPtr) => if pod.contains(u) { write!(s, " static {b} vxs = {b}(); vxs.v = h; return &vxs;").unwrap() } else { write!(s, " alignas({b}) static char buf[sizeof({b})]; int64_t vxl = vx_live_(); static {b}* vxs = new (buf) {b}(0); vx_live_() = vxl; vxs->v = h; return vxs;").unwrap() },
                (Base::Ty(_), _) => match m.params.iter().position(|x| p_fun::is_ref(x)) { Some(k) if owner.is_none() || m.is_static => write!(s, " return p{k};").unwrap(), _ => s += " return *this;" },
                _ => unreachable!(),
            }
        }
    }
    s += " }";
    if owner.is_none() && !m.ns.is_empty() { s += &" }".repeat(m.ns.split("::").count()); }
    s.push('\n');
    s
}
fn mk(g: &G, t: usize, v: i64, name: &str, boxed: bool) -> String {
    let n = g.f.p.ty_q(t);
    if g.pod.contains(&t) {
        let e = format!("ffi::{n} {{ v: {v}{} }}", if g.f.p.types[t].fields.len() > 1 { ", w: 9" } else { "" });
        if boxed { format!("let mut {name} = autocxx::moveit::new::of({e}).within_unique_ptr();") } else { format!("let mut {name} = {e};") }
    } else { format!("let mut {name} = ffi::{n}::new({v}).within_unique_ptr();") }
}
fn find(g: &G, o: &Out, m: &Fun, owner: Option<usize>) -> Option<(String, bool)> {
    let p = &g.f.p;
    let want = p_fun::exp_sig(&g.f, m, owner.is_some());
    let root = |n: &str| n.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
    let keyword = matches!(m.name.as_str(), "type" | "impl");
    let kw = |n: &str| root(n) == root(&m.name) || (keyword && root(n) == format!("{}_", m.name));
    let ok = |f: &surface::FnS| -> bool {
        if f.failed { return false; }
        let mut s = p_fun::sig_of(f);
        for x in s.1.iter_mut() { if x.starts_with('E') && x.len() == 2 { } let _ = &x; }
        s.1.len() == want.1.len() && s.0 == want.0 && s.1.iter().zip(want.1.iter().zip(&m.params)).all(|(a, (b, t))| match &t.base { Base::Enum(e) => *a == p.enums[*e].name, _ => a == b })
    };
    match owner {
        Some(ow) => o.surf.methods.iter().find(|((t, n), f)| *t == p.ty_q(ow) && kw(n) && ok(f)).map(|((_, n), f)| (n.clone(), f.is_unsafe)),
        None => o.surf.fns.iter().find(|(n, f)| { let (ns, l) = n.rsplit_once("::").unwrap_or(("", n)); ns == m.ns && kw(l) && ok(f) }).map(|(n, f)| (n.clone(), f.is_unsafe)),
    }
}
fn call(r: &mut Rng, g: &G, o: &Out, m: &Fun, owner: Option<usize>, id: i64, c: &mut Case) -> Option<String> {
    let p = &g.f.p;
    let Some((name, _)) = find(g, o, m, owner) else { c.fail("not-callable", format!("no Rust function with the expected signature for C++ {}::{} {:?}", owner.map(|o| p.ty_q(o)).unwrap_or(m.ns.into()), m.name, p_fun::exp_sig(&g.f, m, owner.is_some()))); return None };
    let w = format!("{}::{name}", owner.map(|o| p.ty_q(o)).unwrap_or_default());
    let mut h = id;
    let (mut pre, mut args, mut post) = (String::from("{ "), vec![], String::new());
    let mut this_v = 0;
    if let (Some(ow), false) = (owner, m.is_static) {
        this_v = r.range(1, 60) as i64;
        pre += &mk(g, ow, this_v, "this", true); h = upd(h, this_v);
        if !m.is_const { write!(post, " ck!((&*this).getv(), {}, \"{w}: this after the call\");", this_v + 100).unwrap(); }
    }
    let mut refv = 0i64;
    for (i, t) in m.params.iter().enumerate() {
        let a = format!("a{i}");
        let mut v = r.range(1, 90) as i64;
        if let Some(u) = up_of(p, &t.base) {
            if r.chance(10) { v = -5; write!(pre, " let {a} = cxx::UniquePtr::null();").unwrap(); } else { pre += &mk(g, u, v, &a, true); }
            args.push(a);
        } else { match &t.base {
            Base::Prim(x) => {
                if *x == "bool" { v %= 2; }
                match t.mode { Mode::Val => args.push(rlit(x, v)), md => {
                    write!(pre, " let mut {a} = {};", rlit(x, v)).unwrap();
                    args.push(if md == Mode::Ptr { format!("&mut {a} as *mut _") } else { format!("&{a} as *const _") });
                    if md == Mode::Ptr { let nv = if *x == "bool" { 1 - v } else { v + i as i64 + 1 }; write!(post, " if {a} != {} {{ println!(\"MISMATCH {w}: *p{i} after the call\"); std::process::exit(3); }}", rlit(x, nv)).unwrap(); }
                } }
            }
            Base::Enum(e) => { v %= 2; args.push(format!("ffi::{}::{}_V{v}", q(p.enums[*e].ns, &p.enums[*e].name), p.enums[*e].name)); }
            Base::Std(_) => {
                let s: String = (0..r.below(5)).map(|_| (b'a' + r.below(26) as u8) as char).collect();
                v = s.len() as i64 * 10 + s.bytes().next().unwrap_or(0) as i64;
                match t.mode { Mode::Val => args.push(match r.below(3) { 0 => format!("{s:?}"), 1 => format!("String::from({s:?})"), _ => format!("{s:?}.into_cpp()") }), _ => { write!(pre, " let {a} = ffi::make_string({s:?});").unwrap(); args.push(format!("&*{a}")); } }
            }
            Base::Ty(u) => {
                let pd = g.pod.contains(u);
                if t.mode == Mode::Val && pd { pre += &mk(g, *u, v, &a, false); args.push(a.clone()); } else {
                    pre += &mk(g, *u, v, &a, true);
                    match t.mode {
                        Mode::Val => {
                            let n = p.ty_q(*u);
                            args.push(match r.below(5) { 0 => a.clone(), 1 => { write!(post, " ck!((&*{a}).getv(), {v}, \"{w}: copied argument\");").unwrap(); format!("&*{a}") } 2 => { write!(post, " ck!((&*{a}).getv(), {v}, \"{w}: copied argument\");").unwrap(); format!("as_copy(&*{a})") } 3 => format!("as_new(ffi::{n}::new({v}))"), _ => format!("as_mov({a})") });
                        }
                        Mode::RRef => args.push(a.clone()),
                        Mode::Ptr => { args.push(format!("{a}.pin_mut().get_unchecked_mut() as *mut _")); write!(post, " ck!((&*{a}).getv(), {}, \"{w}: *p{i} after the call\");", v + i as i64 + 1).unwrap(); }
                        Mode::CPtr => args.push(format!("&*{a} as *const _")),
                        Mode::Ref => { args.push(format!("{a}.pin_mut()")); refv = v + i as i64 + 1; write!(post, " ck!((&*{a}).getv(), {refv}, \"{w}: p{i} after the call\");").unwrap(); }
                        _ => { args.push(format!("&*{a}")); refv = v; }
                    }
                }
            }
            Base::Alias(_) => unreachable!(),
        } }
        h = upd(h, v);
    }
    let target = match owner { Some(ow) if m.is_static => format!("ffi::{}::{name}", p.ty_q(ow)), Some(_) => if m.is_const { format!("(&*this).{name}") } else { format!("this.pin_mut().{name}") }, None => format!("ffi::{name}") };
    let mut s = format!("{pre} let ret = {target}({});", args.join(", "));
    if let Some(t) = &m.ret {
        if up_of(p, &t.base).is_some() { write!(s, " ck!((&*ret).getv(), {h}, \"{w}: result\");").unwrap(); } else { match (&t.base, t.mode) {
            (Base::Prim(x), _) => write!(s, " if ret != {} {{ println!(\"MISMATCH {w}: result {{:?}} expected {}\", ret); std::process::exit(3); }}", rlit(x, clip(x, h)), clip(x, h)).unwrap(),
            (Base::Enum(e), _) => write!(s, " if ret != ffi::{}::{}_V{} {{ println!(\"MISMATCH {w}: enum result\"); std::process::exit(3); }}", q(p.enums[*e].ns, &p.enums[*e].name), p.enums[*e].name, h % 2).unwrap(),
            (Base::Std(_), _) => write!(s, " if ret.to_str().unwrap() != \"{h}\" {{ println!(\"MISMATCH {w}: result {{}}\", ret.to_str().unwrap()); std::process::exit(3); }}").unwrap(),
            (Base::Ty(u), Mode::Val) => if g.pod.contains(u) { write!(s, " ck!(ret.v, {h}, \"{w}: result\");").unwrap() } else { match r.below(3) { 0 => write!(s, " let ret = ret.within_unique_ptr(); ck!((&*ret).getv(), {h}, \"{w}: result\");").unwrap(), 1 => write!(s, " let ret = ret.within_box(); ck!((&*ret).getv(), {h}, \"{w}: result\");").unwrap(), _ => write!(s, " moveit! {{ let ret = ret; }} ck!((&*ret).getv(), {h}, \"{w}: result\");").unwrap() } },
            (Base::Ty(_), Mode::Ptr | Mode::CPtr) => write!(s, " ck!((&*ret).getv(), {h}, \"{w}: result\");").unwrap(),
            (Base::Ty(_), _) => { let e = if owner.is_some() && !m.is_static { this_v + if m.is_const { 0 } else { 100 } } else { refv }; write!(s, " ck!((&*ret).getv(), {e}, \"{w}: returned reference\");").unwrap() }
            _ => unreachable!(),
        } }
    }
    write!(s, " ck!(ffi::vx_last(), {h}, \"{w}: function and arguments seen by C++\"); {post} }}\n").unwrap();
    Some(s)
}
fn vcall(g: &G, o: &Out, m: &Fun, d: usize, b: usize, id: i64, c: &mut Case) -> String {
    let p = &g.f.p;
    let Some((name, _)) = find(g, o, m, Some(b)) else { c.fail("not-callable", format!("virtual method {} of {}", m.name, p.ty_q(b))); return String::new() };
    // only the parameterless ones: the arguments are covered by the direct calls
    if !m.params.is_empty() { return String::new(); }
    let h = upd(id, 21);
    let (t, bt) = (p.ty_q(d), p.ty_q(b));
    let cast = if m.is_const { format!("let b: &ffi::{bt} = (&*o).as_ref();") } else { format!("let b: &ffi::{bt} = (&*o).as_ref(); let b = Pin::new_unchecked(&mut *(b as *const _ as *mut ffi::{bt}));") };
    let drop = if matches!(&m.ret, Some(t) if matches!(t.base, Base::Ty(u) if !g.pod.contains(&u)) && t.mode == Mode::Val) { ".within_unique_ptr()" } else { "" };
    format!("{{ let mut o = ffi::{t}::new(21).within_unique_ptr(); {cast} let _x = b.{name}(){drop}; ck!(ffi::vx_last(), {h}, \"virtual {bt}::{name} called on a {t}\"); }}\n")
}
/// Compile, link and run.
pub fn exec(dir: &Path, o: &Out, driver: &str) -> Result<(), (String, String)> {
    run::cxx_compiles_obj(dir, &o.cpp).map_err(|e| ("cxx-compile".to_string(), format!("the generated C++ does not compile: {e}")))?;
    std::fs::write(dir.join("ffi.rs"), &o.rs).unwrap();
    std::fs::write(dir.join("main.rs"), driver).unwrap();
    let exe = std::env::current_exe().unwrap();
    let deps = exe.parent().unwrap().join("deps");
    let lib = |n: &str| -> String {
        let mut v: Vec<_> = std::fs::read_dir(&deps).unwrap().flatten().filter(|e| { let f = e.file_name().to_string_lossy().to_string(); f.starts_with(&format!("lib{n}-")) && f.ends_with(".rlib") }).collect();
        v.sort_by_key(|e| e.metadata().unwrap().modified().unwrap());
        v.last().unwrap().path().to_string_lossy().to_string()
    };
    let mut c = std::process::Command::new("rustc");
    c.args(["--edition", "2021", "-C", "debuginfo=0", "-C", "codegen-units=4", "-A", "warnings"]).arg(dir.join("main.rs")).arg("-o").arg(dir.join("m"))
        .arg("-L").arg(format!("dependency={}", deps.display())).arg("--extern").arg(format!("autocxx={}", lib("autocxx"))).arg("--extern").arg(format!("cxx={}", lib("cxx")));
    for e in std::fs::read_dir(dir.join("gen")).unwrap().flatten() { if e.path().extension().map(|x| x == "o") == Some(true) { c.arg("-C").arg(format!("link-arg={}", e.path().display())); } }
    c.args(["-C", "link-arg=-lstdc++"]).env("RUSTUP_TOOLCHAIN", "stable").current_dir(dir);
    let out = c.output().map_err(|e| ("probe".to_string(), e.to_string()))?;
    if !out.status.success() { let e = String::from_utf8_lossy(&out.stderr).to_string(); return Err(("rust-compile".into(), format!("the bindings, or a call the C++ signatures allow, do not compile: {}", e.lines().take(14).collect::<Vec<_>>().join("\n")))); }
    let out = std::process::Command::new("timeout").arg("20").arg(dir.join("m")).output().map_err(|e| ("probe".to_string(), e.to_string()))?;
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    if out.status.success() && s.trim_end().ends_with("OK") { return Ok(()); }
    Err((if s.contains("MISMATCH") { "exec-mismatch" } else { "exec-crash" }.into(), format!("running calls through the bindings: {} {} {}", out.status, s.trim(), String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>())))
}
