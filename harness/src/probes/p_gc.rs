use super::*;
pub const RULE: &str = "random C++ programs of 3-6 types in nested namespaces and 2-5 free functions, with random generate!/generate_pod!/generate_ns! directives; non-trivial: at least one item is wanted and at least one is not";
pub const NSS: &[&str] = &["", "a", "ab", "a::b", "c"];
pub fn types_of(p: &Program, f: &[PT], out: &mut BTreeSet<usize>) { for x in f { if let Base::Ty(i) = p.resolve(&x.base) { out.insert(*i); } } }
pub fn fun_types(p: &Program, f: &Fun) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    types_of(p, &f.params, &mut s);
    if let Some(r) = &f.ret { types_of(p, std::slice::from_ref(r), &mut s); }
    s
}
pub fn rnd_pt(r: &mut Rng, n: usize) -> PT {
    if n == 0 || r.chance(30) { return PT { base: prim(r), mode: Mode::Val }; }
    PT { base: Base::Ty(r.below(n)), mode: *r.pick(&[Mode::Val, Mode::Ptr, Mode::CPtr, Mode::Ref, Mode::CRef]) }
}
pub fn rnd_ret(r: &mut Rng, n: usize) -> Option<PT> {
    if n == 0 || r.chance(50) { return None; }
    if r.chance(30) { return Some(PT { base: prim(r), mode: Mode::Val }); }
    Some(PT { base: Base::Ty(r.below(n)), mode: *r.pick(&[Mode::Val, Mode::Ptr, Mode::CPtr]) })
}
pub fn gen(r: &mut Rng) -> Program {
    let mut p = Program { safety: "unsafe_ffi", ..Default::default() };
    let n = r.range(3, 6);
    for i in 0..n {
        let mut t = new_ty(i, r.pick(NSS));
        for k in 0..r.below(3) {
            let ty = if i > 0 && r.chance(40) { PT { base: Base::Ty(r.below(i)), mode: Mode::Val } } else if r.chance(40) { PT { base: Base::Ty(r.below(n)), mode: Mode::Ptr } } else { PT { base: prim(r), mode: Mode::Val } };
            t.fields.push(field(format!("fl{k}"), ty));
        }
        p.types.push(t);
    }
    let mut mc = 0;
    for i in 0..n {
        for _ in 0..r.below(3) {
            let mut m = new_fn(format!("m{mc}"), p.types[i].ns); mc += 1;
            m.is_const = r.chance(50);
            m.is_static = !m.is_const && r.chance(20);
            for _ in 0..r.below(3) { m.params.push(rnd_pt(r, n)); }
            m.ret = rnd_ret(r, n);
            // by-value parameter of an incomplete type is fine in a declaration
            p.types[i].methods.push(m);
        }
    }
    for k in 0..r.range(2, 5) {
        let mut f = new_fn(format!("f{k}"), r.pick(NSS));
        for _ in 0..r.below(3) { f.params.push(rnd_pt(r, n)); }
        f.ret = rnd_ret(r, n);
        p.fns.push(f);
    }
    for i in 0..n {
        if r.chance(20) { p.root_ty(i); } else if r.chance(15) { p.pod_ty(i); }
    }
    for i in 0..p.fns.len() { if r.chance(30) { p.root_fn(i); } }
    if r.chance(25) { let n = *r.pick(&["a", "ab", "a::b", "c"]); p.root_ns(n); }
    if p.dirs.is_empty() { p.root_ty(0); }
    let mut d = p.dirs.clone(); r.shuffle(&mut d); p.dirs = d;
    p
}
pub fn wanted(p: &Program) -> (BTreeSet<usize>, BTreeSet<usize>, BTreeSet<usize>) {
    let inns = |ns: &str| p.roots_ns.iter().any(|n| in_ns(ns, n));
    let rt: BTreeSet<usize> = (0..p.types.len()).filter(|i| p.roots_ty.contains(i) || p.pods.contains(i) || inns(p.types[*i].ns)).collect();
    let rf: BTreeSet<usize> = (0..p.fns.len()).filter(|i| p.roots_fn.contains(i) || inns(p.fns[*i].ns)).collect();
    let mut w = rt.clone();
    for i in &rf { w.extend(fun_types(p, &p.fns[*i])); }
    for i in &rt { for m in &p.types[*i].methods { w.extend(fun_types(p, m)); } }
    // POD is contagious through by-value fields, and a POD's fields are needed
    let mut pods: BTreeSet<usize> = p.pods.iter().cloned().collect();
    loop {
        let before = (w.len(), pods.len());
        for i in pods.clone() {
            for f in &p.types[i].fields {
                if let Base::Ty(j) = f.ty.base {
                    if f.ty.mode == Mode::Val { pods.insert(j); }
                    w.insert(j);
                }
            }
        }
        w.extend(pods.iter().cloned());
        if before == (w.len(), pods.len()) { break; }
    }
    (rt, rf, w)
}
pub fn run(r: &mut Rng, dir: &Path) -> Case {
    let p = gen(r);
    let mut c = Case::of(&p);
    let Some(o) = go(&p, dir, &mut c, false) else { return c };
    let (rt, rf, w) = wanted(&p);
    c.nontrivial = !w.is_empty() && (w.len() < p.types.len() || rf.len() < p.fns.len());
    let s = &o.surf;
    for i in 0..p.types.len() {
        let n = p.ty_q(i);
        let have = s.types.contains_key(&n);
        if w.contains(&i) && !have { c.fail("missing-type", format!("type {n} is wanted but was not generated")); }
        if !w.contains(&i) && have { c.fail("surplus-type", format!("type {n} was generated although nothing asked for it")); }
        for m in &p.types[i].methods {
            let have = s.methods.contains_key(&(n.clone(), m.name.clone()));
            if rt.contains(&i) && !have { c.fail("missing-method", format!("method {n}::{} is wanted but was not generated", m.name)); }
            if !rt.contains(&i) && have { c.fail("surplus-method", format!("method {n}::{} was generated although {n} was not asked for", m.name)); }
        }
    }
    for i in 0..p.fns.len() {
        let n = q(p.fns[i].ns, &p.fns[i].name);
        let have = s.fns.contains_key(&n);
        if rf.contains(&i) && !have { c.fail("missing-fn", format!("function {n} is wanted but was not generated")); }
        if !rf.contains(&i) && have { c.fail("surplus-fn", format!("function {n} was generated although nothing asked for it")); }
    }
    for d in &s.dup { c.fail("dup", format!("duplicate item {d}")); }
    c
}
