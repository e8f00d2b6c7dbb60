//! Upcasts from derived to base classes.
use super::*;
pub const RULE: &str = "random class hierarchies (3-8 classes, up to three direct bases each, public, protected and private inheritance, repeated and diamond-shaped ancestry, several namespaces) of which a random subset is requested; the AsRef implementations must be exactly those of a requested class for its public, requested, unambiguous direct bases, and the generated C++ must compile; non-trivial: at least one direct base is not castable and one is";
pub fn run(r: &mut Rng, dir: &Path) -> Case {
    let mut p = Program { safety: "unsafe_ffi", ..Default::default() };
    let n = r.range(3, 8);
    let mut anc: Vec<BTreeSet<usize>> = vec![];
    for i in 0..n {
        let mut t = new_ty(i, r.pick(super::p_gc::NSS));
        t.class = r.chance(30);
        t.fields.push(field(format!("fl{i}"), PT { base: prim(r), mode: Mode::Val }));
        if r.chance(30) { let mut m = new_fn(format!("vm{i}"), t.ns); m.virt = if r.chance(30) { Virt::Pure } else { Virt::Virtual }; t.methods.push(m); }
        let want = r.below(4);
        for _ in 0..want { if i > 0 { let b = r.below(i); if !t.bases.iter().any(|x| x.0 == b) { t.bases.push((b, *r.pick(&[Acc::Public, Acc::Public, Acc::Public, Acc::Protected, Acc::Private]), false)); } } }
        let mut s = BTreeSet::new();
        for b in &t.bases { s.insert(b.0); s.extend(anc[b.0].iter().cloned()); }
        anc.push(s);
        p.types.push(t);
    }
    let mut asked = BTreeSet::new();
    for i in 0..n { if r.chance(75) { asked.insert(i); } }
    asked.insert(n - 1);
    let mut order: Vec<usize> = asked.iter().cloned().collect(); r.shuffle(&mut order);
    for i in order { p.root_ty(i); }
    let mut c = Case::of(&p);
    p.write(dir);
    if traits(dir, &p).is_err() { c.skipped = Some("clang rejects the program".into()); return c; }
    let mut want = BTreeSet::new();
    let (mut yes, mut no) = (false, false);
    for i in &asked { for (b, acc, _) in &p.types[*i].bases {
        let amb = p.types[*i].bases.iter().any(|(o, _, _)| anc[*o].contains(b));
        if *acc == Acc::Public && asked.contains(b) && !amb { yes = true; want.insert((p.ty_q(*i), p.ty_q(*b))); } else { no = true; }
    } }
    c.nontrivial = yes && no;
    let Some(o) = go(&p, dir, &mut c, true) else { return c };
    if let Err(e) = run::cxx_compiles(dir, &o.cpp) { c.fail("cxx-compile", format!("the generated C++ does not compile: {e}")); }
    let mut have = BTreeSet::new();
    for (t, ty) in &o.surf.traits { if let Some(b) = t.strip_prefix("AsRef<") { have.insert((ty.clone(), b.trim_end_matches('>').to_string())); } }
    for (d, b) in &want { if !have.contains(&(d.clone(), b.clone())) { c.fail("cast-missing", format!("{d} cannot be seen as its public base {b}")); } }
    for (d, b) in &have { if !want.contains(&(d.clone(), b.clone())) { c.fail("cast-extra", format!("{d} can be seen as {b}, which is not a public, requested, unambiguous base of it")); } }
    c
}
