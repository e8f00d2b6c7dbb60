//! Functions, methods and constructors: which are callable, under which name, with which signature and safety.
use super::*;
use std::collections::BTreeMap;
pub const RULE: &str = "random C++ programs of 2-4 classes with 0-6 possibly overloaded methods and 0-3 constructors each (any access, const, static, virtual, deleted; parameters and returns by value, pointer, reference, rvalue reference, string, smart pointer, typedefs of pointers) and 1-5 free functions in namespaces, under each safety policy; non-trivial: an overload set, a pointer parameter or an uncallable function is present";
const NSS: &[&str] = &["", "a", "a::b", "c"];
const FP: &[&str] = &["int", "bool", "double", "unsigned int", "long", "uint32_t", "int8_t", "uint64_t", "float", "int16_t"];
pub fn rust_prim(p: &str) -> &str {
    match p { "int" => "c_int", "bool" => "bool", "double" => "f64", "char" => "c_char", "unsigned int" => "c_uint", "long" => "c_long", "uint32_t" => "u32", "int8_t" => "i8", "uint64_t" => "u64", "float" => "f32", "int16_t" => "i16", x => x }
}
/// Strip paths, lifetimes and spaces.
pub fn norm(t: &str) -> String {
    let w: Vec<&str> = t.split_whitespace().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < w.len() {
        if w.get(i + 1) == Some(&"::") || w[i] == "::" || w[i].starts_with('\'') || w[i] == "+" { i += 1; continue; }
        out.push_str(w[i]);
        i += 1;
    }
    out.replace(",>", ">")
}
pub struct FunProg { pub p: Program, pub ptr_alias: BTreeSet<usize> }
fn tyname(p: &Program, b: &Base) -> String {
    match p.resolve(b) { Base::Ty(i) => p.types[*i].name.clone(), Base::Prim(x) => rust_prim(x).into(), Base::Std("std::string") => "CxxString".into(), x => format!("{x:?}") }
}
/// Rust spelling of an alias to a pointer keeps the alias' name in wrappers; only its being a pointer matters.
fn exp_param(f: &FunProg, t: &PT) -> String {
    let p = &f.p;
    if let Base::Alias(i) = &t.base { if f.ptr_alias.contains(i) { return "*ALIAS".into(); } }
    let n = tyname(p, &t.base);
    let pod = matches!(p.resolve(&t.base), Base::Ty(i) if p.pods.contains(i)) || matches!(p.resolve(&t.base), Base::Prim(_));
    if let Base::Std(s) = &t.base { if let Some(x) = s.strip_prefix("std::unique_ptr<") { return format!("UniquePtr<{}>", x.rsplit("::").next().unwrap().trim_end_matches('>')); } }
    match t.mode {
        Mode::Val | Mode::CVal if n == "CxxString" => "implToCppString".into(),
        Mode::Val | Mode::CVal if pod => n,
        Mode::Val | Mode::CVal => format!("implValueParam<{n}>"),
        Mode::Ptr => format!("*mut{n}"), Mode::CPtr => format!("*const{n}"),
        Mode::Ref => format!("Pin<&mut{n}>"), Mode::CRef => format!("&{n}"),
        Mode::RRef => format!("implRValueParam<{n}>"),
    }
}
fn exp_ret(f: &FunProg, t: &Option<PT>) -> String {
    let Some(t) = t else { return String::new() };
    let e = exp_param(f, t);
    if e == "implToCppString" { return "UniquePtr<CxxString>".into(); }
    if let Some(x) = e.strip_prefix("implValueParam<") { return format!("implNew<Output={x}"); }
    e
}
pub fn is_ref(t: &PT) -> bool { matches!(t.mode, Mode::Ref | Mode::CRef) }
pub fn is_ptr(f: &FunProg, t: &PT) -> bool { matches!(t.mode, Mode::Ptr | Mode::CPtr) || matches!(&t.base, Base::Alias(i) if f.ptr_alias.contains(i)) }
fn rnd_param(r: &mut Rng, p: &Program, std: bool) -> PT {
    let k = r.below(100);
    let v = |base, mode| PT { base, mode };
    if k < 30 { return v(Base::Prim(r.pick(FP)), if r.chance(15) { *r.pick(&[Mode::Ptr, Mode::CPtr]) } else { Mode::Val }); }
    if k < 40 && !p.aliases.is_empty() { return v(Base::Alias(r.below(p.aliases.len())), Mode::Val); }
    if k < 50 && std { return v(Base::Std("std::string"), *r.pick(&[Mode::Val, Mode::CRef, Mode::Ref])); }
    if k < 55 && std { let i = r.below(p.types.len()); return v(Base::Std(Box::leak(format!("std::unique_ptr<::{}>", p.ty_q(i)).into_boxed_str())), Mode::Val); }
    v(Base::Ty(r.below(p.types.len())), *r.pick(&[Mode::Val, Mode::Val, Mode::Ptr, Mode::CPtr, Mode::Ref, Mode::CRef, Mode::CRef, Mode::RRef]))
}
/// A returned reference whose lifetime cannot be worked out, which autocxx reports.
pub fn ambiguous(params: &[PT], this: Option<bool>, ret: &Option<PT>) -> bool {
    let Some(t) = ret else { return false };
    if !is_ref(t) { return false; }
    let mut refs: Vec<bool> = params.iter().filter(|t| is_ref(t)).map(|t| t.mode == Mode::Ref).collect();
    if let Some(m) = this { refs.push(m); }
    refs.len() != 1 || (t.mode == Mode::Ref && !refs[0])
}
pub fn this(m: &Fun) -> Option<bool> { if m.is_static { None } else { Some(!m.is_const) } }
pub fn gen(r: &mut Rng) -> FunProg {
    let mut p = Program { safety: r.pick(&["", "unsafe", "unsafe_ffi", "unsafe_ffi"]), std: r.chance(40), ..Default::default() };
    let std = p.std;
    let n = r.range(2, 4);
    for i in 0..n {
        let mut t = new_ty(i, r.pick(NSS));
        for k in 0..r.range(1, 2) { t.fields.push(field(format!("fl{k}"), PT { base: Base::Prim(r.pick(FP)), mode: Mode::Val })); }
        if r.chance(40) { t.sp[5] = Sp::User(Acc::Public); if r.chance(30) { t.virtual_dtor = true; } t.sp[1] = Sp::User(Acc::Public); }
        p.types.push(t);
    }
    let mut f = FunProg { p, ptr_alias: Default::default() };
    if r.chance(50) {
        let k = f.p.aliases.len();
        f.p.aliases.push(Alias { name: format!("Al{k}"), ns: r.pick(NSS), of: Base::Std(r.pick(&["int*", "const double*", "uint32_t*"])) });
        f.ptr_alias.insert(k);
        if r.chance(50) { f.p.aliases.push(Alias { name: format!("Al{}", k + 1), ns: r.pick(NSS), of: Base::Alias(k) }); f.ptr_alias.insert(k + 1); }
    }
    if r.chance(40) { let k = f.p.aliases.len(); let t = r.below(n); f.p.aliases.push(Alias { name: format!("Al{k}"), ns: f.p.types[t].ns, of: Base::Ty(t) }); }
    if r.chance(30) { let k = f.p.aliases.len(); f.p.aliases.push(Alias { name: format!("Al{k}"), ns: r.pick(NSS), of: Base::Prim(r.pick(FP)) }); }
    let p = &mut f.p;
    for i in 0..n {
        let mut seen = BTreeSet::new();
        let pool: &[&str] = &["m", "m", "m", "m_", "g", "h", "n1", "match", "drop"];
        for _ in 0..r.below(7) {
            let mut m = new_fn(r.pick(pool).to_string(), p.types[i].ns);
            // a method which is called almost like its class
            if r.chance(6) { m.name = format!("{}9", p.types[i].name); }
            m.is_const = r.chance(45);
            m.is_static = !m.is_const && r.chance(20);
            m.acc = if r.chance(70) { Acc::Public } else { *r.pick(&[Acc::Protected, Acc::Private]) };
            for _ in 0..r.below(4) { m.params.push(rnd_param(r, p, std)); }
            if r.chance(60) { let mut t = rnd_param(r, p, std); if t.mode == Mode::RRef { t.mode = Mode::Val; } m.ret = Some(t); }
            if r.chance(85) && ambiguous(&m.params, this(&m), &m.ret) { m.ret = None; }
            m.virt = if !m.is_static && r.chance(15) { Virt::Virtual } else { Virt::No };
            m.deleted = m.virt == Virt::No && r.chance(8);
            // distinct after typedefs and top-level const
            let key: Vec<String> = m.params.iter().map(|t| canon(p, t)).collect();
            let k0 = (m.name.clone(), key.clone(), false); let k1 = (m.name.clone(), key, true);
            if m.is_static && (seen.contains(&k0) || seen.contains(&k1)) { continue; }
            if m.is_static { seen.insert(k0); seen.insert(k1); } else { if !seen.insert(if m.is_const { k1 } else { k0 }) { continue; } }
            p.types[i].methods.push(m);
        }
        let mut seenc = BTreeSet::new();
        for _ in 0..r.below(4) {
            let ps: Vec<PT> = (0..r.below(3)).map(|_| rnd_param(r, p, std)).collect();
            let key: Vec<String> = ps.iter().map(|t| canon(p, t)).collect();
            if key.len() == 1 && key[0].contains(&format!("::{}", p.ty_q(i))) { continue; }
            if !seenc.insert(key) { continue; }
            let acc = if r.chance(75) { Acc::Public } else { *r.pick(&[Acc::Protected, Acc::Private]) };
            p.types[i].ctors.push((ps, acc));
        }
    }
    let mut seen = BTreeSet::new();
    for _ in 0..r.range(1, 5) {
        let mut m = new_fn(r.pick(&["f", "f", "f", "f_", "k", "kk2"]).to_string(), r.pick(NSS));
        for _ in 0..r.below(4) { m.params.push(rnd_param(r, p, std)); }
        if r.chance(60) { let mut t = rnd_param(r, p, std); if t.mode == Mode::RRef { t.mode = Mode::Val; } m.ret = Some(t); }
        if r.chance(85) && ambiguous(&m.params, None, &m.ret) { m.ret = None; }
        m.deleted = r.chance(10);
        m.variadic = !m.deleted && !m.params.is_empty() && r.chance(5);
        let key: Vec<String> = m.params.iter().map(|t| canon(p, t)).collect();
        if !seen.insert((m.ns, m.name.clone(), key)) { continue; }
        p.fns.push(m);
    }
    for i in 0..n {
        let t = &p.types[i];
        let plain = t.sp[5] == Sp::Absent && t.methods.iter().all(|m| m.virt == Virt::No);
        if plain && r.chance(40) { p.pod_ty(i); } else { p.root_ty(i); }
    }
    // the second and later overloads of a free function are asked for under their Rust names
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    for f in &p.fns { *names.entry(q(f.ns, &f.name)).or_default() += 1; }
    for (n, k) in names { for j in 0..k { p.dirs.push(if j == 0 { format!("generate!(\"{n}\")") } else { format!("generate!(\"{n}{j}\")") }); } }
    p.roots_fn = (0..p.fns.len()).collect();
    let mut d = p.dirs.clone(); r.shuffle(&mut d); p.dirs = d;
    f
}
pub fn canon(p: &Program, t: &PT) -> String { let b = p.base_s(p.resolve(&t.base)); let b = match b.as_str() { "uint32_t" => "unsigned int", x => x }.to_string(); match t.mode { Mode::Ptr => format!("{b}*"), Mode::CPtr => format!("const {b}*"), _ => b } }
fn root(n: &str) -> String { n.trim_end_matches(|c: char| c.is_ascii_digit() || c == '_').to_string() }
pub fn sig_of(s: &surface::FnS) -> (String, Vec<String>, String) {
    let recv = norm(&s.recv);
    let recv = if recv.is_empty() { "" } else if recv.starts_with("Pin<&mut") { "mut" } else if recv.starts_with('&') { "const" } else { "other" };
    (recv.into(), s.params.iter().map(|x| { let n = norm(&x.1); if n.starts_with("Al") { "*ALIAS".into() } else { n } }).collect(), norm(&s.ret))
}
pub fn exp_sig(f: &FunProg, m: &Fun, member: bool) -> (String, Vec<String>, String) {
    let recv = if !member || m.is_static { "" } else if m.is_const { "const" } else { "mut" };
    (recv.into(), m.params.iter().map(|x| exp_param(f, x)).collect(), exp_ret(f, &m.ret))
}
fn resolve_alias_ret(s: &mut (String, Vec<String>, String)) { if s.2.starts_with("Al") { s.2 = "*ALIAS".into(); } for p in s.1.iter_mut() { if p.starts_with("*mut") || p.starts_with("*const") { } } }
pub fn run(r: &mut Rng, dir: &Path, class: &str) -> Case {
    let f = gen(r);
    let p = &f.p;
    let mut c = Case::of(p);
    let Some(o) = go(p, dir, &mut c, true) else { return c };
    let s = &o.surf;
    let allptr: Vec<&Vec<PT>> = p.types.iter().flat_map(|t| t.methods.iter().map(|m| &m.params)).chain(p.fns.iter().map(|f| &f.params)).collect();
    c.nontrivial = allptr.iter().any(|v| v.iter().any(|t| is_ptr(&f, t))) || p.types.iter().any(|t| t.methods.iter().any(|m| m.acc != Acc::Public || m.deleted) || t.methods.len() > 3);
    // group every callable function by (container, name without trailing digits)
    type G = BTreeMap<(String, String), Vec<(String, (String, Vec<String>, String), bool)>>;
    let mut have: G = BTreeMap::new();
    for ((t, n), m) in &s.methods { if !m.failed { let mut g = sig_of(m); resolve_alias_ret(&mut g); have.entry((t.clone(), root(n))).or_default().push((n.clone(), g, m.is_unsafe)); } }
    for (n, m) in &s.fns { if !m.failed { let (ns, l) = n.rsplit_once("::").unwrap_or(("", n)); let mut g = sig_of(m); resolve_alias_ret(&mut g); have.entry((format!("fn {ns}"), root(l))).or_default().push((l.to_string(), g, m.is_unsafe)); } }
    let mut want: BTreeMap<(String, String), Vec<(String, (String, Vec<String>, String), bool, bool)>> = BTreeMap::new();
    for (i, t) in p.types.iter().enumerate() {
        for m in &t.methods {
            let ok = m.acc == Acc::Public && !m.deleted;
            let amb = ambiguous(&m.params, this(m), &m.ret);
            let e = want.entry((p.ty_q(i), root(&m.name))).or_default();
            if !amb { e.push((p_show(p, m), exp_sig(&f, m, true), ok, m.params.iter().any(|t| is_ptr(&f, t)))); }
        }
        for (ps, acc) in &t.ctors {
            let mut m = new_fn("new".into(), t.ns); m.params = ps.clone(); m.is_static = true;
            let mut sg = exp_sig(&f, &m, true); sg.2 = "implNew<Output=Self>".into();
            want.entry((p.ty_q(i), "new".into())).or_default().push((format!("{}({})", t.name, sg.1.join(",")), sg, *acc == Acc::Public, ps.iter().any(|t| is_ptr(&f, t))));
        }
        if t.ctors.is_empty() && t.sp[0] == Sp::Absent && t.sp[1] == Sp::Absent { want.entry((p.ty_q(i), "new".into())).or_default().push((format!("{}()", t.name), ("".into(), vec![], "implNew<Output=Self>".into()), true, false)); }
    }
    for m in &p.fns {
        let e = want.entry((format!("fn {}", m.ns), root(&m.name))).or_default();
        if !ambiguous(&m.params, None, &m.ret) { e.push((p_show(p, m), exp_sig(&f, m, false), !m.deleted && !m.variadic, m.params.iter().any(|t| is_ptr(&f, t)))); }
    }
    for ((cont, rt), hs) in &have {
        if cont == "fn " && (rt == "make_string") { continue; }
        let Some(ws) = want.get(&(cont.clone(), rt.clone())) else { c.fail("surplus", format!("{cont}: callable function {rt} corresponds to no C++ function: {:?}", hs[0])); continue };
        let mut left: Vec<_> = ws.iter().collect();
        for (n, g, uns) in hs {
            if let Some(k) = left.iter().position(|w| w.2 && eqs(&w.1, g)) {
                let w = left.remove(k);
                let wantuns = p.safety.is_empty() || w.3;
                if *uns != wantuns { c.fail("unsafety", format!("{cont}::{n} ({}) is {}unsafe in Rust with safety policy {:?}", w.0, if *uns { "" } else { "not " }, p.safety)); }
            } else if let Some(k) = left.iter().position(|w| !w.2 && eqs(&w.1, g)) {
                let w = left.remove(k);
                c.fail("access", format!("{cont}::{n} can be called although the C++ function ({}) is not public or is deleted", w.0));
            } else { c.fail("signature", format!("{cont}::{n} {g:?} matches no C++ overload of {rt}: {:?}", ws.iter().map(|w| (&w.0, &w.1)).collect::<Vec<_>>())); }
        }
        for w in left { if w.2 { c.fail("missing-overload", format!("{cont}: no callable Rust function for {} {:?}; have {:?}", w.0, w.1, hs)); } }
        let mut names: Vec<&String> = hs.iter().map(|h| &h.0).collect(); names.sort(); names.dedup();
        if names.len() != hs.len() { c.fail("dup", format!("{cont}: two callable functions with one name: {hs:?}")); }
    }
    for ((cont, rt), ws) in &want { if !have.contains_key(&(cont.clone(), rt.clone())) { for w in ws { if w.2 { c.fail("missing-overload", format!("{cont}: no callable Rust function for {}", w.0)); } } } }
    for d in &s.dup { c.fail("dup", format!("duplicate item {d}")); }
    if class == "fun" || class == "overload" || class == "compile" { if let Err(e) = run::cxx_compiles(dir, &o.cpp) { c.fail("cxx-compile", format!("the generated C++ does not compile: {e}")); } }
    let keep: &[&str] = match class { "unsafety" => &["unsafety"], "access" => &["access", "missing-overload"], "overload" => &["dup", "missing-overload", "surplus", "cxx-compile"], "signature" => &["signature", "missing-overload", "surplus"], _ => &[] };
    if !keep.is_empty() { c.failures.retain(|x| keep.contains(&x.0.as_str()) || x.0.starts_with("engine")); }
    c
}
pub fn eqs(a: &(String, Vec<String>, String), b: &(String, Vec<String>, String)) -> bool {
    let e = |x: &String, y: &String| x == y || (x == "*ALIAS" && (y.starts_with('*'))) || (y == "*ALIAS" && x.starts_with('*'));
    a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| e(x, y)) && e(&a.2, &b.2)
}
fn p_show(p: &Program, m: &Fun) -> String { format!("{}{} {}({}){}", if m.is_static { "static " } else { "" }, m.acc.s(), m.name, m.params.iter().map(|t| p.pt_s(t)).collect::<Vec<_>>().join(", "), if m.is_const { " const" } else { "" }) }
