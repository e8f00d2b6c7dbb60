//! Items which cannot be bound: they leave an error under their name, take what relies on them along, and nothing else.
use super::*;
pub const RULE: &str = "random C++ programs of 3-6 types in nested namespaces, methods and 2-6 free functions of which some use a type no binding exists for (128-bit integers, pointers to members, blocked types, typedefs of those, variadic parameters, rvalue returns), with optional Rust subclasses of classes with virtual methods; non-trivial: something cannot be bound and something can";
use super::p_gc::{rnd_pt, rnd_ret, NSS};
const BAD: &[&str] = &["unsigned __int128", "__int128"];
fn bad_pt(r: &mut Rng) -> PT { PT { base: Base::Std(r.pick(BAD)), mode: *r.pick(&[Mode::Val, Mode::Val, Mode::Ptr, Mode::CRef]) } }
pub struct Ign { pub p: Program, pub bad_alias: BTreeSet<usize>, pub blocked: BTreeSet<usize>, pub subs: Vec<usize> }
fn spoil(r: &mut Rng, g: &mut Ign, f: &mut Fun) {
    if !r.chance(35) { return; }
    match r.below(5) {
        0 | 1 => f.params.push(bad_pt(r)),
        2 if !g.bad_alias.is_empty() => { let v: Vec<usize> = g.bad_alias.iter().cloned().collect(); f.params.push(PT { base: Base::Alias(*r.pick(&v)), mode: Mode::Val }); }
        3 => f.variadic = f.virt == Virt::No && !f.is_static && !f.params.is_empty(),
        4 if f.virt == Virt::No && !g.p.types.is_empty() => { let n = g.p.types.len(); f.ret = Some(PT { base: Base::Ty(r.below(n)), mode: Mode::RRef }); }
        _ => f.ret = Some(PT { base: Base::Std(BAD[0]), mode: Mode::Val }),
    }
}
fn bad(g: &Ign, f: &Fun) -> bool {
    f.variadic || f.ret.iter().any(|t| t.mode == Mode::RRef) || f.params.iter().chain(f.ret.iter()).any(|t| match &t.base {
        Base::Std(s) => BAD.contains(s),
        Base::Alias(i) => g.bad_alias.contains(i),
        Base::Ty(i) => g.blocked.contains(i),
        _ => false,
    })
}
pub fn gen(r: &mut Rng) -> Ign {
    let mut g = Ign { p: Program { safety: "unsafe_ffi", ..Default::default() }, bad_alias: Default::default(), blocked: Default::default(), subs: vec![] };
    let n = r.range(3, 6);
    for i in 0..n {
        let mut t = new_ty(i, r.pick(NSS));
        for k in 0..r.below(3) {
            let ty = if i > 0 && r.chance(30) { PT { base: Base::Ty(r.below(i)), mode: Mode::Val } } else if r.chance(40) { PT { base: Base::Ty(r.below(n)), mode: Mode::Ptr } } else { PT { base: prim(r), mode: Mode::Val } };
            t.fields.push(field(format!("fl{k}"), ty));
        }
        g.p.types.push(t);
    }
    if r.chance(50) { g.p.aliases.push(Alias { name: "Al0".into(), ns: r.pick(NSS), of: Base::Std(BAD[0]) }); g.bad_alias.insert(0);
        if r.chance(50) { g.p.aliases.push(Alias { name: "Al1".into(), ns: r.pick(NSS), of: Base::Alias(0) }); g.bad_alias.insert(1); } }
    // the last type is only used through pointers and may be blocked; it is no other type's member
    let blocked = if r.chance(40) { let b = n - 1; for t in g.p.types.iter_mut() { t.fields.retain(|f| f.ty.base != Base::Ty(b)); } g.blocked.insert(b); Some(b) } else { None };
    let mut mc = 0;
    for i in 0..n {
        if Some(i) == blocked { continue; }
        let virt = r.chance(35);
        for _ in 0..r.below(4) {
            let mut m = new_fn(format!("m{mc}"), g.p.types[i].ns); mc += 1;
            m.is_const = r.chance(50);
            if virt && r.chance(60) { m.virt = Virt::Virtual; } else { m.is_static = !m.is_const && r.chance(20); }
            for _ in 0..r.below(3) { m.params.push(rnd_pt(r, n)); }
            m.ret = rnd_ret(r, n);
            spoil(r, &mut g, &mut m);
            g.p.types[i].methods.push(m);
        }
        if virt { g.p.types[i].virtual_dtor = true; g.p.types[i].sp[5] = Sp::User(Acc::Public); g.p.types[i].sp[0] = Sp::User(Acc::Public); }
        if virt && g.p.types[i].ns.is_empty() && r.chance(60) { g.subs.push(i); }
    }
    for k in 0..r.range(2, 6) {
        let mut f = new_fn(format!("f{k}"), r.pick(NSS));
        for _ in 0..r.below(3) { f.params.push(rnd_pt(r, n)); }
        f.ret = rnd_ret(r, n);
        spoil(r, &mut g, &mut f);
        g.p.fns.push(f);
    }
    for i in 0..n { if Some(i) != blocked { g.p.root_ty(i); } }
    for i in 0..g.p.fns.len() { g.p.root_fn(i); }
    for i in g.subs.clone() { let n = g.p.ty_q(i); g.p.dirs.push(format!("subclass!(\"{n}\", Sub{i})")); }
    if let Some(b) = blocked { let n = g.p.ty_q(b); g.p.block(n); }
    let mut d = g.p.dirs.clone(); r.shuffle(&mut d); g.p.dirs = d;
    g
}
pub fn run(r: &mut Rng, dir: &Path) -> Case {
    let g = gen(r);
    let p = &g.p;
    let mut c = Case::of(p);
    let Some(o) = go(p, dir, &mut c, true) else { return c };
    let s = &o.surf;
    let (mut nb, mut ng) = (0, 0);
    for i in 0..p.types.len() {
        let n = p.ty_q(i);
        if g.blocked.contains(&i) { if s.types.get(&n).map(|t| t.0 != surface::TypeKind::Failed) == Some(true) { c.fail("kept", format!("blocked type {n} was generated")); } continue; }
        if !s.types.contains_key(&n) { c.fail("lost-type", format!("type {n} was not generated although it can be")); }
        for m in &p.types[i].methods {
            let have = s.methods.get(&(n.clone(), m.name.clone()));
            let b = bad(&g, m);
            if b { nb += 1 } else { ng += 1 }
            match have {
                Some(x) if b && !x.failed => c.fail("kept", format!("method {n}::{} can be called although it relies on something which cannot be bound", m.name)),
                None if b => c.fail("silent", format!("method {n}::{} cannot be bound, and nothing in the bindings says so", m.name)),
                Some(x) if !b && x.failed => c.fail("lost-fn", format!("method {n}::{} is reported as impossible to bind although everything it relies on is there", m.name)),
                None if !b => c.fail("lost-fn", format!("method {n}::{} is missing although everything it relies on is there", m.name)),
                _ => {}
            }
        }
    }
    for f in &p.fns {
        let n = q(f.ns, &f.name);
        let b = bad(&g, f);
        if b { nb += 1 } else { ng += 1 }
        match s.fns.get(&n) {
            Some(x) if b && !x.failed => c.fail("kept", format!("function {n} can be called although it relies on something which cannot be bound")),
            None if b && !s.types.contains_key(&n) => c.fail("silent", format!("function {n} cannot be bound, and nothing in the bindings says so")),
            Some(x) if !b && x.failed => c.fail("lost-fn", format!("function {n} is reported as impossible to bind although everything it relies on is there")),
            None if !b => c.fail("lost-fn", format!("function {n} is missing although everything it relies on is there")),
            _ => {}
        }
    }
    c.nontrivial = nb > 0 && ng > 0;
    for d in &s.dup { c.fail("dup", format!("duplicate item {d}")); }
    if let Err(e) = run::cxx_compiles(dir, &o.cpp) { c.fail("cxx-compile", format!("the generated C++ does not compile: {e}")); }
    c
}
