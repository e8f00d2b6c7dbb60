//! A small model of C++ programs plus an include_cpp block, and its text.
use crate::rng::Rng;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Acc { Public, Protected, Private }
impl Acc { pub fn s(self) -> &'static str { match self { Acc::Public => "public", Acc::Protected => "protected", Acc::Private => "private" } } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sp { Absent, User(Acc), Defaulted(Acc), Deleted(Acc) }
#[derive(Clone, Debug, PartialEq)]
pub enum Base { Prim(&'static str), Ty(usize), Enum(usize), Alias(usize), Std(&'static str) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Val, Ptr, CPtr, Ref, CRef, RRef, CVal }
#[derive(Clone, Debug, PartialEq)]
pub struct PT { pub base: Base, pub mode: Mode }
#[derive(Clone, Debug)]
pub struct Field { pub ty: PT, pub array: usize, pub bits: usize, pub acc: Acc, pub name: String }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Virt { No, Virtual, Pure, Override }
#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String, pub ns: &'static str, pub params: Vec<PT>, pub ret: Option<PT>,
    pub acc: Acc, pub is_static: bool, pub is_const: bool, pub virt: Virt, pub deleted: bool, pub inline: bool, pub variadic: bool, pub noexc: bool,
}
#[derive(Clone, Debug)]
pub struct Ty {
    pub name: String, pub ns: &'static str, pub class: bool, pub fields: Vec<Field>, pub bases: Vec<(usize, Acc, bool)>,
    /// default ctor, copy ctor, move ctor, copy assign, move assign, dtor
    pub sp: [Sp; 6], pub virtual_dtor: bool, pub pure_dtor: bool, pub copy_nonconst: bool, pub methods: Vec<Fun>, pub ctors: Vec<(Vec<PT>, Acc)>, pub defined: bool, pub is_union: bool,
}
#[derive(Clone, Debug)]
pub struct Alias { pub name: String, pub ns: &'static str, pub of: Base }
#[derive(Clone, Debug)]
pub struct En { pub name: String, pub ns: &'static str, pub class: bool }
#[derive(Clone, Debug, Default)]
pub struct Program {
    pub types: Vec<Ty>, pub fns: Vec<Fun>, pub aliases: Vec<Alias>, pub enums: Vec<En>,
    pub dirs: Vec<String>, pub safety: &'static str, pub std: bool, pub pods: Vec<usize>, pub roots_ty: Vec<usize>, pub roots_fn: Vec<usize>, pub roots_ns: Vec<&'static str>, pub all: bool,
    pub blocked: Vec<String>, pub block_ctor: Vec<usize>, pub roots_alias: Vec<usize>, pub extra: String, pub tail: String, pub inclass: std::collections::BTreeMap<usize, String>,
}
pub const PRIMS: &[&str] = &["int", "bool", "double", "char", "unsigned int", "long", "uint32_t", "int8_t", "uint64_t", "float"];
pub fn q(ns: &str, n: &str) -> String { if ns.is_empty() { n.into() } else { format!("{ns}::{n}") } }
impl Program {
    pub fn ty_q(&self, i: usize) -> String { q(self.types[i].ns, &self.types[i].name) }
    pub fn base_s(&self, b: &Base) -> String {
        match b {
            Base::Prim(p) => p.to_string(),
            Base::Ty(i) => format!("::{}", self.ty_q(*i)),
            Base::Enum(i) => format!("::{}", q(self.enums[*i].ns, &self.enums[*i].name)),
            Base::Alias(i) => format!("::{}", q(self.aliases[*i].ns, &self.aliases[*i].name)),
            Base::Std(s) => s.to_string(),
        }
    }
    pub fn pt_s(&self, p: &PT) -> String {
        let b = self.base_s(&p.base);
        match p.mode { Mode::Val => b, Mode::CVal => format!("const {b}"), Mode::Ptr => format!("{b}*"), Mode::CPtr => format!("const {b}*"), Mode::Ref => format!("{b}&"), Mode::CRef => format!("const {b}&"), Mode::RRef => format!("{b}&&") }
    }
    fn fun_s(&self, f: &Fun, member: bool) -> String {
        let mut s = String::new();
        if f.is_static && member { s += "static "; }
        if !member && f.inline { s += "inline "; }
        if matches!(f.virt, Virt::Virtual | Virt::Pure) { s += "virtual "; }
        let r = f.ret.as_ref().map(|r| self.pt_s(r)).unwrap_or("void".into());
        let mut ps: Vec<String> = f.params.iter().enumerate().map(|(i, p)| format!("{} p{i}", self.pt_s(p))).collect();
        if f.variadic { ps.push("...".into()); }
        write!(s, "{r} {}({})", f.name, ps.join(", ")).unwrap();
        if f.is_const { s += " const"; }
        if f.noexc { s += " noexcept"; }
        if f.virt == Virt::Override { s += " override"; }
        if f.virt == Virt::Pure { s += " = 0"; }
        if f.deleted { s += " = delete"; }
        s += ";";
        s
    }
    pub fn header(&self) -> String {
        let mut h = String::from("#pragma once\n#include <stdint.h>\n");
        if self.std { h += "#include <string>\n#include <memory>\n#include <vector>\n"; }
        let open = |ns: &str| -> (String, String) {
            if ns.is_empty() { return (String::new(), String::new()); }
            let p: Vec<&str> = ns.split("::").collect();
            (p.iter().map(|x| format!("namespace {x} {{ ")).collect(), "} ".repeat(p.len()))
        };
        for t in &self.types { let (a, b) = open(t.ns); writeln!(h, "{a}{} {}; {b}", if t.is_union { "union" } else if t.class { "class" } else { "struct" }, t.name).unwrap(); }
        for e in &self.enums { let (a, b) = open(e.ns); writeln!(h, "{a}enum {}{} {{ {}_V0, {}_V1 }}; {b}", if e.class { "class " } else { "" }, e.name, e.name, e.name).unwrap(); }
        h += &self.extra;
        // an alias is emitted as soon as the type it names is complete
        let mut done_alias = vec![false; self.aliases.len()];
        for k in 0..=self.types.len() {
            for (i, al) in self.aliases.iter().enumerate() {
                if done_alias[i] { continue; }
                let ready = match &al.of { Base::Ty(_) => true, Base::Alias(j) => done_alias[*j], _ => true };
                if ready { let (a, b) = open(al.ns); writeln!(h, "{a}typedef {} {}; {b}", self.base_s(&al.of), al.name).unwrap(); done_alias[i] = true; }
            }
            if k == self.types.len() { break; }
            let t = &self.types[k];
            if !t.defined { continue; }
            let (a, b) = open(t.ns);
            write!(h, "{a}{} {}", if t.is_union { "union" } else if t.class { "class" } else { "struct" }, t.name).unwrap();
            if !t.bases.is_empty() {
                h += " : ";
                h += &t.bases.iter().map(|(i, a, v)| format!("{} {}::{}", a.s(), if *v { "virtual " } else { "" }, self.ty_q(*i))).collect::<Vec<_>>().join(", ");
            }
            h += " {\n";
            let mut sec = |h: &mut String, a: Acc| { writeln!(h, "{}:", a.s()).unwrap(); };
            for (k, s) in t.sp.iter().enumerate() {
                let (acc, tail) = match s { Sp::Absent => continue, Sp::User(a) => (*a, ""), Sp::Defaulted(a) => (*a, " = default"), Sp::Deleted(a) => (*a, " = delete") };
                sec(&mut h, acc);
                let n = &t.name;
                let cc = if t.copy_nonconst { "" } else { "const " };
                let d = match k { 0 => format!("{n}()"), 1 => format!("{n}({cc}{n}&)"), 2 => format!("{n}({n}&&)"), 3 => format!("{n}& operator=(const {n}&)"), 4 => format!("{n}& operator=({n}&&)"), _ => format!("{}~{n}()", if t.virtual_dtor { "virtual " } else { "" }) };
                writeln!(h, "  {d}{}{tail};", if k == 5 && t.pure_dtor { " = 0" } else { "" }).unwrap();
            }
            if let Some(x) = self.inclass.get(&k) { sec(&mut h, Acc::Public); writeln!(h, "{x}").unwrap(); }
            for (ps, acc) in &t.ctors {
                sec(&mut h, *acc);
                let ps: Vec<String> = ps.iter().enumerate().map(|(i, p)| format!("{} p{i}", self.pt_s(p))).collect();
                writeln!(h, "  {}({});", t.name, ps.join(", ")).unwrap();
            }
            for m in &t.methods { sec(&mut h, m.acc); writeln!(h, "  {}", self.fun_s(m, true)).unwrap(); }
            for f in &t.fields {
                sec(&mut h, f.acc);
                if f.bits > 0 { writeln!(h, "  {} {} : {};", self.pt_s(&f.ty), f.name, f.bits).unwrap(); } else if f.array > 0 { writeln!(h, "  {} {}[{}];", self.pt_s(&f.ty), f.name, f.array).unwrap(); } else { writeln!(h, "  {} {};", self.pt_s(&f.ty), f.name).unwrap(); }
            }
            writeln!(h, "}}; {b}").unwrap();
        }
        for f in &self.fns { let (a, b) = open(f.ns); writeln!(h, "{a}{} {b}", self.fun_s(f, false)).unwrap(); }
        h += &self.tail;
        h
    }
    pub fn rust(&self) -> String {
        let mut s = String::from("use autocxx::prelude::*;\ninclude_cpp! {\n    #include \"input.h\"\n");
        if !self.safety.is_empty() { writeln!(s, "    safety!({})", self.safety).unwrap(); }
        for d in &self.dirs { writeln!(s, "    {d}").unwrap(); }
        s += "}\n";
        s
    }
    pub fn write(&self, dir: &std::path::Path) {
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(dir.join("input.h"), self.header()).unwrap();
        std::fs::write(dir.join("input.rs"), self.rust()).unwrap();
    }
    pub fn root_ty(&mut self, i: usize) { self.roots_ty.push(i); self.dirs.push(format!("generate!(\"{}\")", self.ty_q(i))); }
    pub fn pod_ty(&mut self, i: usize) { self.pods.push(i); self.dirs.push(format!("generate_pod!(\"{}\")", self.ty_q(i))); }
    pub fn root_fn(&mut self, i: usize) { self.roots_fn.push(i); self.dirs.push(format!("generate!(\"{}\")", q(self.fns[i].ns, &self.fns[i].name))); }
    pub fn root_ns(&mut self, n: &'static str) { self.roots_ns.push(n); self.dirs.push(format!("generate_ns!(\"{n}\")")); }
    pub fn block(&mut self, n: String) { self.dirs.push(format!("block!(\"{n}\")")); self.blocked.push(n); }
    /// The alias chain ends at this.
    pub fn resolve<'a>(&'a self, b: &'a Base) -> &'a Base { match b { Base::Alias(i) => self.resolve(&self.aliases[*i].of), x => x } }
}
pub fn in_ns(ns: &str, root: &str) -> bool { ns == root || ns.starts_with(&format!("{root}::")) }
pub fn new_ty(i: usize, ns: &'static str) -> Ty {
    Ty { name: format!("T{i}"), ns, class: false, fields: vec![], bases: vec![], sp: [Sp::Absent; 6], virtual_dtor: false, pure_dtor: false, copy_nonconst: false, methods: vec![], ctors: vec![], defined: true, is_union: false }
}
pub fn new_fn(name: String, ns: &'static str) -> Fun {
    Fun { name, ns, params: vec![], ret: None, acc: Acc::Public, is_static: false, is_const: false, virt: Virt::No, deleted: false, inline: false, variadic: false, noexc: false }
}
pub fn field(name: String, ty: PT) -> Field { Field { ty, array: 0, bits: 0, acc: Acc::Public, name } }
pub fn prim(r: &mut Rng) -> Base { Base::Prim(r.pick(PRIMS)) }

/// Facts about the types of a header, from clang's own type traits.
#[derive(Clone, Debug, Default)]
pub struct Traits { pub dflt: bool, pub copy: bool, pub mv: bool, pub dtor: bool, pub abstr: bool, pub triv_move: bool, pub triv_dtor: bool, pub poly: bool, pub copy_assign: bool }
pub fn traits(dir: &std::path::Path, p: &Program) -> Result<Vec<Traits>, String> {
    let mut s = String::from("#include \"input.h\"\n");
    for (i, t) in p.types.iter().enumerate() {
        if !t.defined { continue; }
        let n = format!("::{}", p.ty_q(i));
        for (k, e) in [format!("vx_c0<{n}>(0)"), format!("vx_c1<{n}, const {n}&>(0)"), format!("vx_c1<{n}, {n}&&>(0)"), format!("vx_d<{n}>(0)"), format!("__is_abstract({n})"), format!("__is_trivially_constructible({n}, {n}&&)"), format!("(vx_d<{n}>(0) && __has_trivial_destructor({n}))"), format!("__is_polymorphic({n})"), format!("__is_assignable({n}&, const {n}&)")].iter().enumerate() {
            writeln!(s, "extern const int vxq_{i}_{k}; const int vxq_{i}_{k} = {e} ? 1 : 0;").unwrap();
        }
    }
    let pre = "inline void* operator new(decltype(sizeof(0)), void* p, int) noexcept { return p; } template<class T> T&& vx_decl(); template<class T> constexpr auto vx_c0(int) -> decltype(::new ((void*)nullptr, 0) T(), true) { return true; } template<class T> constexpr bool vx_c0(...) { return false; } template<class T, class U> constexpr auto vx_c1(int) -> decltype(::new ((void*)nullptr, 0) T(vx_decl<U>()), true) { return true; } template<class T, class U> constexpr bool vx_c1(...) { return false; }\n template<class T> constexpr auto vx_d(int) -> decltype(vx_decl<T&>().~T(), true) { return true; } template<class T> constexpr bool vx_d(...) { return false; }\n";
    std::fs::write(dir.join("vxt.cc"), format!("{pre}{s}")).unwrap();
    let o = std::process::Command::new("clang++").args(["-std=c++17", "-w", "-S", "-emit-llvm", "-o", "-"]).args(if p.std { crate::run::pch(dir) } else { vec![] }).arg("-I").arg(dir).arg(dir.join("vxt.cc")).output().map_err(|e| e.to_string())?;
    if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).to_string()); }
    let txt = String::from_utf8_lossy(&o.stdout).to_string();
    let mut v = vec![Traits::default(); p.types.len()];
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix("@vxq_") {
            let (a, rest) = r.split_once(" = ").unwrap();
            let (i, k) = a.split_once('_').unwrap();
            let val = rest.contains("i32 1");
            let t = &mut v[i.parse::<usize>().unwrap()];
            match k { "0" => t.dflt = val, "1" => t.copy = val, "2" => t.mv = val, "3" => t.dtor = val, "4" => t.abstr = val, "5" => t.triv_move = val, "6" => t.triv_dtor = val, "7" => t.poly = val, _ => t.copy_assign = val }
        }
    }
    Ok(v)
}
