//! What the generated bindings expose, read back from the generated Rust.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum TypeKind { Opaque, Trivial, Bridge, Enum, Alias, Failed }

#[derive(Clone, Debug)]
pub struct FnS {
    pub name: String,
    pub is_unsafe: bool,
    pub failed: bool,
    /// receiver: "", "&", "&mut", "pin", ...
    pub recv: String,
    pub params: Vec<(String, String)>,
    pub ret: String,
    pub docs: String,
    pub body: String,
    pub is_pub: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Surface {
    pub types: BTreeMap<String, (TypeKind, Vec<(String, String)>)>,
    pub fns: BTreeMap<String, FnS>,
    pub methods: BTreeMap<(String, String), FnS>,
    pub dup: Vec<String>,
    pub traits: BTreeSet<(String, String)>,
    pub trait_fns: BTreeMap<(String, String), FnS>,
    pub bridge_fns: Vec<FnS>,
    pub bridge_types: Vec<String>,
    pub bridge_ptrs: BTreeSet<String>,
    pub consts: BTreeSet<String>,
    pub type_docs: BTreeMap<String, String>,
}
pub fn toks<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn docs(a: &[Attribute]) -> String {
    let mut s = String::new();
    for x in a {
        if x.path().is_ident("doc") {
            if let Meta::NameValue(n) = &x.meta { if let Expr::Lit(l) = &n.value { if let Lit::Str(l) = &l.lit { s.push_str(&l.value()); s.push('\n'); } } }
        }
    }
    s
}
pub const FAIL: &str = "autocxx bindings couldn't be generated";
fn fn_s(attrs: &[Attribute], vis: &Visibility, sig: &Signature, body: String) -> FnS {
    let mut params = vec![];
    let mut recv = String::new();
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                recv = toks(&r.ty);
                if r.colon_token.is_none() { recv = if r.reference.is_some() { if r.mutability.is_some() { "& mut Self".into() } else { "& Self".into() } } else { "Self".into() }; }
            }
            FnArg::Typed(t) => {
                let n = toks(&t.pat);
                if n == "self" { recv = toks(&t.ty); } else { params.push((n, toks(&t.ty))); }
            }
        }
    }
    let d = docs(attrs);
    let failed = params.iter().any(|p| p.1.contains("BindingGenerationFailure"));
    FnS { name: sig.ident.to_string(), is_unsafe: sig.unsafety.is_some(), failed, recv, params, ret: match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => toks(t) }, docs: d, body, is_pub: matches!(vis, Visibility::Public(_)) }
}
fn join(ns: &str, n: &str) -> String { if ns.is_empty() { n.to_string() } else { format!("{ns}::{n}") } }
fn last_seg(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => toks(t) }
}
/// Path of a type relative to the ffi mod.
fn type_path(ns: &str, t: &Type) -> String {
    if let Type::Path(p) = t {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs[0] == "output" { return segs[1..].join("::"); }
        if segs.len() == 1 { return join(ns, &segs[0]); }
        return segs.join("::");
    }
    toks(t)
}
struct Ctx { trivial: BTreeSet<String>, raw: BTreeMap<String, Vec<(String, String, bool)>>, raw_enums: BTreeSet<String>, s: Surface, uses: Vec<(String, String, String)>, bridge_methods: Vec<(String, FnS)> }
fn walk(c: &mut Ctx, ns: &str, items: &[Item]) {
    for i in items {
        match i {
            Item::Mod(m) => {
                let n = m.ident.to_string();
                if n == "bindgen" && ns.is_empty() { bindgen(c, "", m); continue; }
                if n == "cxxbridge" && ns.is_empty() { bridge(c, m); continue; }
                if let Some((_, it)) = &m.content { walk(c, &join(ns, &n), it); }
            }
            Item::Struct(s) => {
                let p = join(ns, &s.ident.to_string());
                let d = docs(&s.attrs);
                let k = if d.contains(FAIL) { TypeKind::Failed } else { TypeKind::Opaque };
                let f = s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), toks(&f.ty))).collect();
                if c.s.types.insert(p.clone(), (k, f)).is_some() { c.s.dup.push(format!("type {p}")); }
                c.s.type_docs.insert(p, d);
            }
            Item::Enum(e) => { let p = join(ns, &e.ident.to_string()); if c.s.types.insert(p.clone(), (TypeKind::Enum, vec![])).is_some() { c.s.dup.push(format!("type {p}")); } }
            Item::Type(t) => { let p = join(ns, &t.ident.to_string()); if c.s.types.insert(p.clone(), (TypeKind::Alias, vec![("".into(), toks(&t.ty))])).is_some() { c.s.dup.push(format!("type {p}")); } }
            Item::Const(k) => { c.s.consts.insert(join(ns, &k.ident.to_string())); }
            Item::Fn(f) => {
                let p = join(ns, &f.sig.ident.to_string());
                let x = fn_s(&f.attrs, &f.vis, &f.sig, toks(&f.block));
                if c.s.fns.insert(p.clone(), x).is_some() { c.s.dup.push(format!("fn {p}")); }
            }
            Item::Impl(im) => {
                let ty = type_path(ns, &im.self_ty);
                if let Some((_, tr, _)) = &im.trait_ {
                    let seg = tr.segments.last().unwrap();
                    let mut name = seg.ident.to_string();
                    if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                        for a in &ab.args { if let GenericArgument::Type(t) = a { name = format!("{name}<{}>", type_path(ns, t)); } }
                    }
                    if name == "ExternType" {
                        for it in &im.items { if let ImplItem::Type(t) = it { if t.ident == "Kind" && last_seg(&t.ty) == "Trivial" { c.trivial.insert(ty.clone()); } } }
                    }
                    if !c.s.traits.insert((name.clone(), ty.clone())) && name != "ExternType" { c.s.dup.push(format!("impl {name} for {ty}")); }
                    for it in &im.items { if let ImplItem::Fn(f) = it {
                        c.s.trait_fns.insert((name.clone(), ty.clone()), fn_s(&f.attrs, &f.vis, &f.sig, toks(&f.block)));
                    } }
                } else {
                    for it in &im.items {
                        if let ImplItem::Fn(f) = it {
                            let x = fn_s(&f.attrs, &f.vis, &f.sig, toks(&f.block));
                            if c.s.methods.insert((ty.clone(), x.name.clone()), x.clone()).is_some() { c.s.dup.push(format!("method {ty}::{}", x.name)); }
                        }
                    }
                }
            }
            Item::Use(u) if matches!(u.vis, Visibility::Public(_)) => use_tree(c, ns, &u.tree, vec![]),
            _ => {}
        }
    }
}
fn use_tree(c: &mut Ctx, ns: &str, t: &UseTree, mut pre: Vec<String>) {
    match t {
        UseTree::Path(p) => { pre.push(p.ident.to_string()); use_tree(c, ns, &p.tree, pre) }
        UseTree::Name(n) => { let i = n.ident.to_string(); let full = [pre, vec![i.clone()]].concat().join("::"); c.uses.push((ns.into(), full, i)); }
        UseTree::Rename(n) => { let full = [pre, vec![n.ident.to_string()]].concat().join("::"); c.uses.push((ns.into(), full, n.rename.to_string())); }
        UseTree::Group(g) => for x in &g.items { use_tree(c, ns, x, pre.clone()) },
        UseTree::Glob(_) => {}
    }
}
fn bindgen(c: &mut Ctx, ns: &str, m: &ItemMod) {
    for i in m.content.as_ref().map(|x| &x.1[..]).unwrap_or(&[]) {
        match i {
            Item::Mod(m) => { let n = m.ident.to_string(); let p = if ns.is_empty() && n == "root" { String::new() } else { join(ns, &n) }; bindgen(c, &p, m) }
            Item::Struct(s) => { c.raw.insert(join(ns, &s.ident.to_string()), s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), toks(&f.ty), matches!(f.vis, Visibility::Public(_)))).collect()); }
            Item::Enum(e) => { c.raw_enums.insert(join(ns, &e.ident.to_string())); }
            _ => {}
        }
    }
}
fn bridge(c: &mut Ctx, m: &ItemMod) {
    for i in m.content.as_ref().map(|x| &x.1[..]).unwrap_or(&[]) {
        match i {
            Item::ForeignMod(f) => {
                if f.abi.name.as_ref().map(|n| n.value()) == Some("Rust".into()) { continue; }
                for i in &f.items {
                    match i {
                        ForeignItem::Fn(f) => {
                            let x = fn_s(&f.attrs, &f.vis, &f.sig, String::new());
                            if !x.recv.is_empty() { c.bridge_methods.push((recv_type(&x.recv), x.clone())); }
                            c.s.bridge_fns.push(x);
                        }
                        ForeignItem::Type(t) => c.s.bridge_types.push(t.ident.to_string()),
                        // `type X = super::X;` is not a ForeignItem::Type
                        ForeignItem::Verbatim(v) => {
                            if let Ok(t) = parse2::<ItemType>(v.clone()) { c.s.bridge_types.push(t.ident.to_string()); }
                        }
                        _ => {}
                    }
                }
            }
            Item::Impl(im) => { c.s.bridge_ptrs.insert(toks(&im.self_ty).replace(' ', "")); }
            _ => {}
        }
    }
}
pub fn recv_type(r: &str) -> String { r.replace(['<', '>', '&'], " ").split_whitespace().last().unwrap_or("").to_string() }
pub fn read(code: &str) -> std::result::Result<Surface, String> {
    let f = parse_file(code).map_err(|e| format!("generated Rust does not parse: {e}"))?;
    let mut c = Ctx { trivial: Default::default(), raw: Default::default(), raw_enums: Default::default(), s: Surface::default(), uses: vec![], bridge_methods: vec![] };
    for i in &f.items {
        if let Item::Mod(m) = i { if let Some((_, it)) = &m.content { walk(&mut c, "", it); } }
    }
    // resolve re-exports of bridge items
    for (ns, full, name) in c.uses.clone() {
        let parts: Vec<&str> = full.split("::").collect();
        let target = parts.last().unwrap().to_string();
        let p = join(&ns, &name);
        if parts.contains(&"cxxbridge") {
            if c.s.bridge_types.contains(&target) {
                if c.s.types.insert(p.clone(), (TypeKind::Bridge, vec![])).is_some() { c.s.dup.push(format!("type {p}")); }
            } else if let Some(f) = c.s.bridge_fns.iter().find(|f| f.name == target && f.recv.is_empty()).cloned() {
                if c.s.fns.insert(p.clone(), f).is_some() { c.s.dup.push(format!("fn {p}")); }
            } else { c.s.dup.push(format!("dangling re-export {full} as {p}")); }
        } else if parts.contains(&"bindgen") {
            // enums, consts, typedefs re-exported from bindgen
            let raw = full.split("root::").nth(1).unwrap_or("").to_string();
            let e = if let Some(f) = c.raw.get(&raw) { (TypeKind::Opaque, f.iter().filter(|x| x.2).map(|x| (x.0.clone(), x.1.clone())).collect()) } else if c.raw_enums.contains(&raw) { (TypeKind::Enum, vec![]) } else { (TypeKind::Alias, vec![("".into(), full.clone())]) };
            if c.s.types.insert(p.clone(), e).is_some() { c.s.dup.push(format!("type {p}")); }
        }
    }
    for t in c.trivial.clone() { if let Some(e) = c.s.types.get_mut(&t) { if e.0 == TypeKind::Opaque { e.0 = TypeKind::Trivial; } } }
    let byfinal: BTreeMap<String, String> = c.s.types.keys().map(|k| (k.rsplit("::").next().unwrap().to_string(), k.clone())).collect();
    for (ty, f) in c.bridge_methods.clone() {
        let t = byfinal.get(&ty).cloned().unwrap_or(ty);
        if c.s.methods.insert((t.clone(), f.name.clone()), f.clone()).is_some() { c.s.dup.push(format!("method {t}::{}", f.name)); }
    }
    Ok(c.s)
}
