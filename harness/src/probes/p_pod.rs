//! By-value exposure of C++ types.
use super::*;
pub const RULE: &str = "random structs built from scalars, enums, typedefs, pointers, arrays, nested structs, base classes, std::string/vector/unique_ptr members, bitfields, unions, virtual functions and user-provided special members, some requested with generate_pod! and some with generate!; non-trivial: at least one requested type reaches, by value, a part which is unsafe to move bitwise, or at least one request is nested two deep";
pub fn gen(r: &mut Rng) -> Program {
    let mut p = Program { safety: "unsafe_ffi", std: r.chance(40), ..Default::default() };
    p.enums.push(En { name: "En0".into(), ns: r.pick(super::p_gc::NSS), class: r.chance(50) });
    let n = r.range(3, 7);
    let hostile = r.chance(60);
    let alias = r.chance(40);
    if alias { p.aliases.push(Alias { name: "Al0".into(), ns: r.pick(super::p_gc::NSS), of: Base::Prim(r.pick(&["int", "double", "bool"])) }); }
    if alias && p.std { p.aliases.push(Alias { name: "Al1".into(), ns: r.pick(super::p_gc::NSS), of: Base::Std("std::string") }); }
    for i in 0..n {
        let mut t = new_ty(i, r.pick(super::p_gc::NSS));
        t.class = r.chance(20);
        for k in 0..r.range(1, 3) {
            let mut f = field(format!("fl{k}"), PT { base: prim(r), mode: Mode::Val });
            if i > 0 && r.chance(60) { f.ty.base = Base::Ty(r.below(i)); }
            else if r.chance(10) { f.ty.base = Base::Enum(0); }
            else if alias && r.chance(15) { f.ty.base = Base::Alias(r.below(p.aliases.len())); }
            else if p.std && hostile && r.chance(15) { f.ty.base = Base::Std(r.pick(&["std::string", "std::vector<int>", "std::unique_ptr<int>"])); }
            else if r.chance(15) { f.ty = PT { base: Base::Ty(r.below(n)), mode: *r.pick(&[Mode::Ptr, Mode::CPtr]) }; }
            else if hostile && r.chance(7) { f.ty.base = Base::Prim("uint32_t"); f.bits = r.range(1, 9); }
            if f.ty.mode == Mode::Val && f.bits == 0 && r.chance(20) { f.array = r.range(1, 3); }
            t.fields.push(f);
        }
        if i > 0 && r.chance(12) { t.bases.push((r.below(i), Acc::Public, false)); }
        if hostile {
            if r.chance(10) { let mut m = new_fn("vf".into(), t.ns); m.virt = Virt::Virtual; t.methods.push(m); }
            if r.chance(10) { t.sp[*r.pick(&[1, 2, 5])] = Sp::User(Acc::Public); }
            if r.chance(5) { t.sp[2] = Sp::Deleted(Acc::Public); }
            if r.chance(6) && t.bases.is_empty() && t.methods.is_empty() && t.fields.iter().all(|f| matches!(f.ty.base, Base::Prim(_)) && f.bits == 0) { t.is_union = true; }
        }
        p.types.push(t);
    }
    // classes with bases but otherwise aggregates stay fine
    for i in 0..n { if r.chance(25) { p.pod_ty(i); } else if r.chance(25) { p.root_ty(i); } }
    if p.pods.is_empty() { p.pod_ty(n - 1); }
    let mut d = p.dirs.clone(); r.shuffle(&mut d); p.dirs = d;
    p
}
/// Types reached by value from the POD requests.
pub fn closure(p: &Program) -> BTreeSet<usize> {
    let mut s: BTreeSet<usize> = p.pods.iter().cloned().collect();
    loop {
        let k = s.len();
        for i in s.clone() {
            for b in &p.types[i].bases { s.insert(b.0); }
            for f in &p.types[i].fields { if f.ty.mode == Mode::Val { if let Base::Ty(j) = p.resolve(&f.ty.base) { s.insert(*j); } } }
        }
        if s.len() == k { return s; }
    }
}
pub fn run(r: &mut Rng, dir: &Path) -> Case {
    let p = gen(r);
    let mut c = Case::of(&p);
    p.write(dir);
    let tr = match traits(dir, &p) { Ok(t) => t, Err(_) => { c.skipped = Some("clang rejects the program".into()); return c } };
    let cl = closure(&p);
    // unsafe to move bitwise
    let bad: Vec<usize> = cl.iter().cloned().filter(|i| !tr[*i].triv_move || !tr[*i].triv_dtor || tr[*i].poly).collect();
    // not representable as a Rust struct even though trivially movable
    let odd = cl.iter().any(|i| p.types[*i].is_union || p.types[*i].fields.iter().any(|f| f.bits > 0) || p.types[*i].fields.iter().any(|f| matches!(f.ty.base, Base::Std(_)) ) );
    let refused: Option<String>;
    let mut out = None;
    match run::engine(dir, true) {
        Res::Panic(e) => { c.fail("engine-panic", e); return c; }
        Res::Err(e) => refused = Some(e),
        Res::Ok(o) => { refused = run::cxx_compiles(dir, &o.cpp).err(); out = Some(o); }
    }
    c.nontrivial = !bad.is_empty() || p.pods.iter().any(|i| p.types[*i].fields.iter().any(|f| f.ty.mode == Mode::Val && matches!(f.ty.base, Base::Ty(_))));
    if bad.is_empty() && !odd {
        if let Some(e) = &refused { c.fail("pod-refused", format!("plain data requested with generate_pod! was refused: {e}")); }
    }
    if let (Some(o), None) = (out, refused) {
        for i in 0..p.types.len() {
            let n = p.ty_q(i);
            let Some((k, fs)) = o.surf.types.get(&n) else { if cl.contains(&i) && bad.is_empty() && !odd { c.fail("pod-missing", format!("{n} should be generated by value but was not generated")); } continue };
            let triv = *k == surface::TypeKind::Trivial;
            if *k == surface::TypeKind::Failed && (odd || !bad.is_empty()) { continue; }
            if triv != cl.contains(&i) { c.fail("pod-kind", format!("{n} is {} by value but {} requested (directly or as part of a requested type)", if triv { "exposed" } else { "not exposed" }, if triv { "was not" } else { "was" })); }
            if triv && (!tr[i].triv_move || !tr[i].triv_dtor || tr[i].poly) { c.fail("unsafe-pod", format!("{n} cannot be moved bitwise but is exposed by value and the generated C++ compiles")); }
            if triv && !p.types[i].class { for f in &p.types[i].fields { if f.bits == 0 && !p.types[i].is_union && !fs.iter().any(|(x, _)| *x == f.name) { c.fail("pod-field", format!("{n} is exposed by value without its field {}", f.name)); } } }
        }
    }
    c
}
