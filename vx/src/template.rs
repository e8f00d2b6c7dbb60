use crate::rewrite;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::*;

/// Contract text attached to one extracted function.
#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub file: String,
    pub selector: String,
    pub ret: String,
    pub sig: Option<String>,
    /// `let NAME` or `from `a` to `b``: only this part of the function's body is put under contract
    pub slice: Option<String>,
    pub end_ty: Option<String>,
    pub attrs: String,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub begin: String,
    pub end: String,
    pub canary_begin: bool,
    pub loops: BTreeMap<usize, String>,
    pub loop_begin: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub closures_text: Vec<(String, String)>,
    pub resmaps: Vec<String>,
    pub orelses: Vec<String>,
    pub nloops: Option<usize>,
    pub pre_rewrites: Vec<(String, String, bool)>,
    pub rewrites: Vec<(String, String, bool)>,
    pub before: Vec<(String, String, bool)>,
    pub after: Vec<(String, String, bool)>,
    pub rename: Option<String>,
    /// error values of this enum are opaque
    pub abserr: Option<String>,
    /// text built by format!/quote!/parse_quote! is kept as a term (literal, arguments) instead of being opaque
    pub fmt: bool,
    /// panicking is allowed: nothing is claimed about runs which end that way
    pub panics: bool,
    /// a let-bound closure which has a contract of its own (`%slice closure`), and the variables it mutates
    pub hoisted: Vec<(String, Vec<String>)>,
    /// the initializer of this `let` has a contract of its own (`%slice let`): (pattern, call)
    pub outlines: Vec<(String, String)>,
    /// `.map(closure containing this text).collect()` which mutates captures: a loop, then this call
    pub maploops: Vec<(String, String)>,
    /// (first statement, last statement, replacement): statements outside the contract's concern
    pub drops: Vec<(String, String, String)>,
    pub calls_only: Vec<String>,
    pub outlined: Vec<(String, String, String)>,
}

pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn selector_match_impl(i: &ItemImpl, ty: &str, tr: Option<&str>) -> bool {
    let self_ty = i.self_ty.to_token_stream().to_string().replace(' ', "");
    let base = self_ty.split('<').next().unwrap().to_string();
    let ty_n = ty.replace(' ', "");
    let ty_ok = if ty_n.contains('<') { self_ty == ty_n } else { base == ty_n || base.rsplit("::").next() == Some(&ty_n) };
    let tr_ok = match (tr, &i.trait_) {
        (None, None) => true,
        (Some(t), Some((_, p, _))) => p.segments.last().unwrap().ident == t,
        _ => false,
    };
    ty_ok && tr_ok
}

/// All items of a file, descending into inline non-test modules.
fn flat_items(items: &[Item], out: &mut Vec<Item>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if m.ident == "tests" || m.ident == "test" {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    flat_items(its, out);
                }
            }
            _ => {
                out.push(it.clone());
                hoist(it, out);
            }
        }
    }
}

/// Types declared inside function bodies are found by name like any other.
fn hoist(it: &Item, out: &mut Vec<Item>) {
    struct V<'a>(&'a mut Vec<Item>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_stmt(&mut self, s: &'b Stmt) {
            if let Stmt::Item(i @ (Item::Struct(_) | Item::Enum(_))) = s {
                self.0.push(i.clone());
            }
            syn::visit::visit_stmt(self, s);
        }
    }
    syn::visit::Visit::visit_item(&mut V(out), it);
}

pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub impl_generics: Option<(Generics, Type)>,
}

pub fn find_fn(items: &[Item], sel: &str) -> std::result::Result<Found, String> {
    let sel = sel.trim();
    let mut hits = vec![];
    if let Some(name) = sel.strip_prefix("fn ") {
        for it in items {
            if let Item::Fn(f) = it {
                if f.sig.ident == name.trim() {
                    hits.push(Found { sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: None });
                }
            }
        }
    } else {
        // `Type::m`  or `<Trait for Type>::m`
        let (ty, tr, m) = if let Some(rest) = sel.strip_prefix('<') {
            let end = rest.rfind(">::").ok_or("bad selector")?;
            let m = rest[end + 3..].to_string();
            let inner = &rest[..end];
            let (tr, ty) = inner.split_once(" for ").ok_or("bad selector")?;
            (ty.trim().to_string(), Some(tr.trim().to_string()), m)
        } else {
            let p = sel.rfind("::").ok_or("bad selector")?;
            (sel[..p].to_string(), None, sel[p + 2..].to_string())
        };
        for it in items {
            match it {
                Item::Impl(i) if selector_match_impl(i, &ty, tr.as_deref()) => {
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == m.trim() {
                                hits.push(Found {
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    impl_generics: Some((i.generics.clone(), (*i.self_ty).clone())),
                                });
                            }
                        }
                    }
                }
                Item::Trait(t) if tr.is_none() && t.ident == ty.as_str() => {
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if f.sig.ident == m.trim() {
                                if let Some(b) = &f.default {
                                    hits.push(Found { sig: f.sig.clone(), block: b.clone(), impl_generics: None });
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    match hits.len() {
        1 => Ok(hits.pop().unwrap()),
        0 => Err(format!("lost anchor: no function `{sel}`")),
        n => Err(format!("lost anchor: {n} functions match `{sel}`")),
    }
}

fn parse_quoted(s: &str) -> (String, String) {
    let s = s.trim();
    let s = s.strip_prefix('`').expect("expected `");
    let e = s.find('`').expect("unterminated `");
    (s[..e].to_string(), s[e + 1..].to_string())
}

fn parse_contract(lines: &[&str], head: &str) -> Contract {
    let mut c = Contract::default();
    let mut h = head.trim().splitn(2, ' ');
    c.file = h.next().unwrap().to_string();
    c.selector = h.next().unwrap_or("").trim().to_string();
    c.ret = "r".into();
    // section accumulation
    let mut cur: Option<(String, String)> = None;
    let mut secs: Vec<(String, String)> = vec![];
    for l in lines {
        if let Some(rest) = l.strip_prefix('%') {
            if let Some(x) = cur.take() {
                secs.push(x);
            }
            cur = Some((rest.trim_end().to_string(), String::new()));
        } else if let Some((_, b)) = cur.as_mut() {
            b.push_str(l);
            b.push('\n');
        } else if !l.trim().is_empty() {
            panic!("text outside section in contract for {}: {}", c.selector, l);
        }
    }
    if let Some(x) = cur.take() {
        secs.push(x);
    }
    for (k, b) in secs {
        let (kw, arg) = match k.split_once(' ') {
            Some((a, b)) => (a.to_string(), b.trim().to_string()),
            None => (k.clone(), String::new()),
        };
        let n = || arg.parse::<usize>().unwrap_or_else(|_| panic!("bad ordinal in %{k}"));
        match kw.as_str() {
            "ret" => c.ret = arg.clone(),
            "rename" => c.rename = Some(arg.clone()),
            "fmt" => c.fmt = true,
            "panics" => c.panics = true,
            "outline" => {
                let (x, rest) = parse_quoted(&arg);
                let rest = rest.trim().strip_prefix("=>").expect("outline needs =>").to_string();
                c.outlines.push((x, parse_quoted(&rest).0));
            }
            "maploop" => {
                let (x, rest) = parse_quoted(&arg);
                let rest = rest.trim().strip_prefix("=>").expect("outline needs =>").to_string();
                c.maploops.push((x, parse_quoted(&rest).0));
            }
            "hoisted" | "hoisted?" => {
                if kw == "hoisted?" { c.calls_only.push(arg.split_whitespace().next().unwrap_or("").to_string()); }
                let mut w = arg.split_whitespace().map(|x| x.to_string());
                c.hoisted.push((w.next().expect("hoisted needs a name"), w.collect()));
            }
            "abserr" => c.abserr = Some(arg.clone()),
            "outlined" => {
                let (x, rest) = parse_quoted(&arg);
                let rest = rest.trim().strip_prefix("..").expect("outlined needs ..").to_string();
                let (y, rest) = parse_quoted(&rest);
                let rest = rest.trim().strip_prefix("=>").map(|r| parse_quoted(r).0).unwrap_or_default();
                c.outlined.push((x, y, rest));
            }
            "drop" => {
                let (x, rest) = parse_quoted(&arg);
                let rest = rest.trim().strip_prefix("..").expect("drop needs ..").to_string();
                let (y, rest) = parse_quoted(&rest);
                let rest = rest.trim().strip_prefix("=>").map(|r| parse_quoted(r).0).unwrap_or_default();
                c.drops.push((x, y, rest));
            }
            "slice" => c.slice = Some(arg.clone()),
            "attr" => c.attrs.push_str(&format!("{arg}\n")),
            "sig" => c.sig = Some(b.trim().to_string()),
            "requires" => c.requires.push_str(&b),
            "ensures" => c.ensures.push_str(&b),
            "decreases" => c.decreases.push_str(&b),
            "begin" => c.begin.push_str(&b),
            "end" => { c.end.push_str(&b); if !arg.trim().is_empty() { c.end_ty = Some(arg.trim().into()); } }
            "canary_begin" => c.canary_begin = true,
            "nloops" => c.nloops = Some(n()),
            "loop" => { c.loops.insert(n(), b); }
            "loopbegin" => { c.loop_begin.insert(n(), b); }
            "loopend" => { c.loop_end.insert(n(), b); }
            "loopbefore" => { c.loop_before.insert(n(), b); }
            "loopafter" => { c.loop_after.insert(n(), b); }
            "orelse" => c.orelses.push(parse_quoted(&arg).0),
            "resmap" => c.resmaps.push(parse_quoted(&arg).0),
            "closure" if arg.starts_with('`') => c.closures_text.push((parse_quoted(&arg).0, b)),
            "closure" => { c.closures.insert(n(), b); }
            "rewrite" | "rewrite?" | "prerewrite" | "prerewrite?" => {
                let (x, rest) = parse_quoted(&arg);
                let rest = rest.trim().strip_prefix("=>").expect("rewrite needs =>").to_string();
                let (y, _) = parse_quoted(&rest);
                let opt = kw.ends_with('?');
                if kw.starts_with("pre") { c.pre_rewrites.push((x, y, opt)) } else { c.rewrites.push((x, y, opt)) }
            }
            "before" | "before?" => { let (x, _) = parse_quoted(&arg); c.before.push((x, b, kw.ends_with('?'))); }
            "after" | "after?" => { let (x, _) = parse_quoted(&arg); c.after.push((x, b, kw.ends_with('?'))); }
            _ => panic!("unknown contract section %{k}"),
        }
    }
    c
}

struct Src {
    cache: BTreeMap<String, Vec<Item>>,
    repo: String,
}
impl Src {
    fn items(&mut self, f: &str) -> std::result::Result<&Vec<Item>, String> {
        if !self.cache.contains_key(f) {
            let p = format!("{}/{}", self.repo, f);
            let t = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: cannot read {p}: {e}"))?;
            let parsed = parse_file(&t).map_err(|e| format!("cannot parse {p}: {e}"))?;
            let mut v = vec![];
            flat_items(&parsed.items, &mut v);
            self.cache.insert(f.to_string(), v);
        }
        Ok(&self.cache[f])
    }
}

pub fn process(repo: &str, template: &str, prelude_dir: &str) -> std::result::Result<(String, Value), String> {
    let mut src = Src { cache: BTreeMap::new(), repo: repo.to_string() };
    let mut out = String::new();
    let mut fns = vec![];
    let mut types = vec![];
    let mut rules: std::collections::BTreeSet<String> = Default::default();
    let t = std::fs::read_to_string(template).map_err(|e| format!("{template}: {e}"))?;
    // expand includes first
    let mut text = String::new();
    for l in t.lines() {
        if let Some(f) = l.strip_prefix("@@include ") {
            let p = format!("{prelude_dir}/{}", f.trim());
            text.push_str(&std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?);
            text.push('\n');
        } else {
            text.push_str(l);
            text.push('\n');
        }
    }
    // `@@set NAME value` gives `${NAME:default}` (anywhere) its value
    let mut sets: BTreeMap<String, String> = Default::default();
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("@@set ") {
            let (k, v) = x.trim().split_once(' ').unwrap_or((x.trim(), ""));
            sets.insert(k.to_string(), v.to_string());
        }
    }
    while let Some(a) = text.find("${") {
        let b = a + text[a..].find('}').ok_or("unterminated ${")?;
        let inner = text[a + 2..b].to_string();
        let (k, d) = inner.split_once(':').ok_or("${NAME:default} expected")?;
        let v = sets.get(k).cloned().unwrap_or(d.to_string());
        text.replace_range(a..=b, &v);
    }
    let text: String = text.lines().filter(|l| !l.starts_with("@@set ")).map(|l| format!("{l}\n")).collect();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if let Some(head) = l.strip_prefix("@@fn ") {
            let mut j = i + 1;
            while lines[j].trim() != "@@end" {
                j += 1;
                if j >= lines.len() { return Err("unterminated @@fn".into()); }
            }
            let mut c = parse_contract(&lines[i + 1..j], head);
            let items = src.items(&c.file)?;
            let mut found = find_fn(items, &c.selector)?;
            if let Some(sl) = &c.slice {
                let sig = c.sig.clone().ok_or("a slice needs %sig")?;
                found.block = rewrite::slice(&found.block, sl).map_err(|e| format!("lost anchor: {} of {}: {e}", sl, c.selector))?;
                found.sig.output = if sig.contains("->") { parse_quote!(-> ()) } else { ReturnType::Default };
            }
            if std::env::var_os("VX_CANARY").is_some() {
                // vacuity guard: this must be refuted in every function.
                let s = "\n    proof { assert(false); } // VX-CANARY\n";
                if c.canary_begin || matches!(found.block.stmts.last(), Some(Stmt::Expr(Expr::Loop(_), _))) { c.begin.push_str(s) } else { c.end.push_str(s) }
            }
            let start = out.lines().count() + 1;
            let loops = rewrite::loop_shape(&found.block);
            let (code, used) = rewrite::render(&found, &c)?;
            out.push_str(&format!("// @@VX-FN {} {}\n", c.file, c.selector));
            out.push_str(&code);
            out.push('\n');
            rules.extend(used.clone());
            let end = out.lines().count();
            fns.push(json!({"file": c.file, "fn": c.selector, "start": start, "end": end, "rewrites": used, "loops": loops}));
            i = j + 1;
        } else if let Some(head) = l.strip_prefix("@@type ") {
            // @@type file Name [%opaque default] with lines `field => Type` ... @@end
            let mut j = i + 1;
            while lines[j].trim() != "@@end" {
                j += 1;
                if j >= lines.len() { return Err("unterminated @@type".into()); }
            }
            let mut h = head.split_whitespace();
            let f = h.next().unwrap().to_string();
            let name = h.next().unwrap().to_string();
            let items = src.items(&f)?;
            let code = rewrite::render_type(items, &name, &lines[i + 1..j])?;
            types.push(json!({"file": f, "type": name}));
            out.push_str(&format!("// @@VX-TYPE {f} {name}\n"));
            out.push_str(&code);
            out.push('\n');
            i = j + 1;
        } else if let Some(head) = l.strip_prefix("@@expect ") {
            // @@expect file :: token text   -- a structural side condition
            // the contracts rely on; absent => undecided, never an alarm.
            let (f, pat) = head.split_once(" :: ").ok_or("bad @@expect")?;
            let p = format!("{}/{}", repo, f.trim());
            let t = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: cannot read {p}: {e}"))?;
            let toks: String = t.parse::<proc_macro2::TokenStream>().map_err(|e| e.to_string())?.to_string();
            let want: String = pat.parse::<proc_macro2::TokenStream>().map_err(|e| e.to_string())?.to_string();
            if !norm(&toks).contains(&norm(&want)) {
                return Err(format!("lost anchor: {f} no longer contains `{pat}`"));
            }
            i += 1;
        } else {
            out.push_str(l);
            out.push('\n');
            i += 1;
        }
    }
    Ok((out, json!({"functions": fns, "types": types, "rules_used": rules})))
}
