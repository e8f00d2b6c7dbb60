//! Special members and abstractness against clang's own verdict.
use super::*;
pub const RULE: &str = "random class hierarchies (2-6 classes; bases with random access and virtual inheritance, by-value/array/enum/pointer members, user-provided, defaulted, deleted, private and protected special members, pure and overriding virtual functions) compared with clang's own answers about constructibility, copyability, movability, destructibility and abstractness; non-trivial: some class of the program lacks an operation and some class has it";
pub const VNAMES: &[&str] = &["v0", "v1"];
fn sp(r: &mut Rng, dflt_pct: usize) -> Sp {
    if r.chance(dflt_pct) { return Sp::Absent; }
    let a = *r.pick(&[Acc::Public, Acc::Public, Acc::Public, Acc::Protected, Acc::Private]);
    if r.chance(70) { Sp::User(a) } else { Sp::Deleted(a) }
}
fn is_user(s: Sp) -> bool { s != Sp::Absent }
pub fn gen(r: &mut Rng, abs: bool) -> Program {
    let mut p = Program { safety: "unsafe_ffi", std: r.chance(25), ..Default::default() };
    p.enums.push(En { name: "En0".into(), ns: "", class: true });
    let n = r.range(2, 6);
    for i in 0..n {
        let mut t = new_ty(i, r.pick(super::p_gc::NSS));
        t.class = r.chance(50);
        let fl = if abs { r.below(2) } else { r.below(3) };
        for k in 0..fl {
            let mut f = field(format!("fl{k}"), PT { base: prim(r), mode: Mode::Val });
            if i > 0 && r.chance(50) { f.ty.base = Base::Ty(r.below(i)); }
            else if r.chance(15) { f.ty.base = Base::Enum(0); }
            else if p.std && r.chance(40) { f.ty.base = Base::Std(r.pick(&["std::string", "std::unique_ptr<int>", "std::shared_ptr<int>", "std::vector<int>", "std::vector<std::unique_ptr<int>>"])); }
            else if r.chance(15) { f.ty = PT { base: Base::Ty(r.below(n)), mode: *r.pick(&[Mode::Ptr, Mode::CPtr]) }; }
            if f.ty.mode == Mode::Val && r.chance(15) { f.array = 2; }
            f.acc = *r.pick(&[Acc::Public, Acc::Private]);
            t.fields.push(f);
        }
        if i > 0 {
            let nb = if abs { r.below(3) } else { usize::from(r.chance(35)) };
            let mut used = vec![];
            for _ in 0..nb {
                let b = r.below(i);
                if used.contains(&b) { continue; }
                used.push(b);
                t.bases.push((b, *r.pick(&[Acc::Public, Acc::Public, Acc::Public, Acc::Protected, Acc::Private]), false));
            }
        }
        let pct = if abs { 93 } else { 72 };
        for k in 0..6 { t.sp[k] = sp(r, pct); }
        if abs && r.chance(60) { t.sp[5] = Sp::User(Acc::Public); }
        t.virtual_dtor = is_user(t.sp[5]) && !matches!(t.sp[5], Sp::Deleted(_)) && r.chance(if abs { 80 } else { 15 });
        if t.virtual_dtor && abs && r.chance(8) && matches!(t.sp[5], Sp::User(_)) { t.pure_dtor = true; }
        t.copy_nonconst = false;
        if !abs && r.chance(15) { t.ctors.push((vec![PT { base: Base::Prim("int"), mode: Mode::Val }], *r.pick(&[Acc::Public, Acc::Private]))); }
        p.types.push(t);
    }
    if abs || r.chance(25) {
        for i in 0..n {
            for v in VNAMES {
                for variant in 0..2 {
                    if r.chance(65) { continue; }
                    let mut m = new_fn(v.to_string(), p.types[i].ns);
                    if variant == 1 { m.params.push(PT { base: Base::Prim("int"), mode: Mode::Val }); }
                    m.is_const = r.chance(25);
                    m.virt = *r.pick(&[Virt::Pure, Virt::Virtual, Virt::Pure, Virt::Virtual, Virt::No]);
                    m.acc = *r.pick(&[Acc::Public, Acc::Public, Acc::Public, Acc::Protected, Acc::Private]);
                    p.types[i].methods.push(m);
                }
            }
        }
    }
    // An empty base class is invisible in bindgen's output: see known_findings.txt
    for i in 0..n {
        let keep: Vec<_> = p.types[i].bases.iter().cloned().filter(|b| nonempty(&p, b.0)).collect();
        p.types[i].bases = keep;
    }
    for i in 0..n { p.root_ty(i); }
    p
}
fn nonempty(p: &Program, i: usize) -> bool {
    let t = &p.types[i];
    !t.fields.is_empty() || t.virtual_dtor || t.methods.iter().any(|m| m.virt != Virt::No) || t.bases.iter().any(|b| nonempty(p, b.0))
}
/// Every part of type i, transitively, is something the bindings can understand for default construction.
fn has_ptr(p: &Program, i: usize) -> bool {
    p.types[i].fields.iter().any(|f| f.ty.mode != Mode::Val || matches!(f.ty.base, Base::Enum(_)) || matches!(f.ty.base, Base::Ty(j) if has_ptr(p, j))) || p.types[i].bases.iter().any(|b| has_ptr(p, b.0))
}
pub fn run(r: &mut Rng, dir: &Path, abs: bool) -> Case {
    let p = gen(r, abs);
    let mut c = Case::of(&p);
    p.write(dir);
    let tr = match traits(dir, &p) { Ok(t) => t, Err(e) => { c.skipped = Some(if e.contains("error") { "clang rejects the program".into() } else { e }); return c } };
    let Some(o) = go(&p, dir, &mut c, true) else { return c };
    let s = &o.surf;
    let (mut yes, mut no) = (false, false);
    for i in 0..p.types.len() {
        let n = p.ty_q(i);
        let t = &tr[i];
        if !s.types.contains_key(&n) { c.fail("missing-type", format!("type {n} was requested but not generated")); continue; }
        let ctors: Vec<_> = s.methods.iter().filter(|(k, f)| k.0 == n && f.ret.contains("New <")).map(|(_, f)| f).collect();
        let dflt = ctors.iter().any(|f| f.params.is_empty());
        let copy = s.traits.contains(&("CopyNew".into(), n.clone()));
        let mv = s.traits.contains(&("MoveNew".into(), n.clone()));
        let drop = s.traits.contains(&("Drop".into(), n.clone()));
        let up = s.bridge_ptrs.contains(&format!("UniquePtr<{}>", p.types[i].name));
        if t.abstr {
            no = true;
            if !ctors.is_empty() || copy || mv { c.fail("abstract-constructed", format!("{n} is abstract but the bindings offer a constructor for it")); }
        } else {
            yes |= dflt;
            if dflt && !t.dflt { c.fail("default-unsound", format!("bindings default-construct {n}, which C++ does not allow")); }
            if copy && !t.copy { c.fail("copy-unsound", format!("bindings copy {n}, which C++ does not allow")); }
            if mv && !t.mv { c.fail("move-unsound", format!("bindings move {n}, which C++ does not allow")); }
            no |= !t.dflt || !t.copy || !t.mv || !t.dtor;
            let user_pub = |k: usize| p.types[i].sp[k] == Sp::User(Acc::Public);
            if !dflt && t.dflt && (user_pub(0) || !has_ptr(&p, i) && understood(&p, i)) { c.fail("default-missing", format!("C++ can default-construct {n} but the bindings cannot")); }
            if !copy && t.copy && (user_pub(1) || understood(&p, i)) { c.fail("copy-missing", format!("C++ can copy {n} but the bindings cannot")); }
            if !mv && user_pub(2) { c.fail("move-missing", format!("{n} has a public move constructor which the bindings lack")); }
            if !mv && has_own_move(&p, &tr, i) { c.fail("move-missing", format!("{n} has an implicit move constructor which the bindings lack")); }
            for (ps, acc) in &p.types[i].ctors {
                let have = ctors.iter().any(|f| f.params.len() == ps.len());
                if (*acc == Acc::Public) != have { c.fail("ctor", format!("{n} has a {} constructor of {} parameters but the bindings {} one", acc.s(), ps.len(), if have { "have" } else { "lack" })); }
            }
        }
        if (drop || up) && !t.dtor { c.fail("drop-unsound", format!("bindings destroy {n}, which C++ does not allow")); }
        if !drop && t.dtor { c.fail("drop-missing", format!("C++ can destroy {n} but the bindings never do")); }
        if !up && t.dtor { c.fail("unique-ptr-missing", format!("{n} can be destroyed but UniquePtr<{n}> is not available")); }
    }
    c.nontrivial = yes && no;
    if let Err(e) = run::cxx_compiles(dir, &o.cpp) { c.fail("cxx", format!("generated C++ does not compile: {e}")); }
    c
}
/// No part of the type is a std container other than string
fn understood(p: &Program, i: usize) -> bool {
    p.types[i].fields.iter().all(|f| match f.ty.base { Base::Std(s) => s == "std::string", Base::Ty(j) if f.ty.mode == Mode::Val => understood(p, j), _ => true }) && p.types[i].bases.iter().all(|b| understood(p, b.0))
}
/// A move constructor of the type's own: user-provided and public, or implicit with every part having its own.
fn has_own_move(p: &Program, tr: &[Traits], i: usize) -> bool {
    let t = &p.types[i];
    if is_user(t.sp[2]) { return t.sp[2] == Sp::User(Acc::Public); }
    if [1, 3, 4, 5].iter().any(|k| is_user(t.sp[*k])) { return false; }
    if !tr[i].mv { return false; }
    understood(p, i) && t.bases.iter().all(|b| has_own_move(p, tr, b.0)) && t.fields.iter().all(|f| match f.ty.base { Base::Ty(j) if f.ty.mode == Mode::Val => has_own_move(p, tr, j), _ => true })
}
