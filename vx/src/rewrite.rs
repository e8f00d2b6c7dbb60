use crate::template::{norm, Contract, Found};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

fn ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

pub struct Rw {
    pub loops: usize,
    pub for_loops: Vec<usize>,
    pub closures: usize,
    pub clo_specs: Vec<Option<String>>,
    pub used: BTreeSet<String>,
    pub errs: Vec<String>,
    pub fmt: bool,
    pub panics: bool,
    pub explicit_closures: BTreeSet<usize>,
    pub text_closures: Vec<(String, String)>,
    pub found_closures: std::collections::BTreeMap<usize, String>,
}

const COMBINATORS: &[&str] = &[
    "filter", "map", "any", "all", "flat_map", "filter_map", "partition", "retain", "position", "find", "find_map",
    "map_or", "unwrap_or_else", "and_then", "is_some_and", "is_ok_and", "take_while", "skip_while", "map_err", "then", "ok_or_else", "or_else", "map_or_else", "map_while", "fold", "for_each", "sort_by_key",
];

fn is_lower(s: &str) -> bool {
    s.chars().next().map(|c| c.is_lowercase()).unwrap_or(false)
}

/// `crate::a::b::Type::Variant` -> `Type::Variant`; `std::mem::drop` -> `drop`.
fn shorten(p: &mut Path) -> bool {
    if p.segments.len() < 2 {
        return false;
    }
    let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    let n = segs.len();
    let mut keep = n - 1;
    while keep > 0 && !is_lower(&segs[keep - 1].ident.to_string()) && !["self", "super", "crate"].contains(&segs[keep - 1].ident.to_string().as_str()) {
        keep -= 1;
    }
    if keep == 0 {
        return false;
    }
    p.leading_colon = None;
    p.segments = segs[keep..].iter().cloned().collect();
    true
}

/// `impl Iterator<Item = T>` / `Box<dyn Iterator<Item = T> + '_>` -> `It<T>`
fn iter_item(bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap();
            if ["Iterator", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator"].contains(&l.ident.to_string().as_str()) {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(at) = g {
                            if at.ident == "Item" {
                                return Some(at.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

pub struct TypeRw;
impl VisitMut for TypeRw {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let new = match t {
            Type::ImplTrait(i) => iter_item(&i.bounds).map(|it| parse_quote!(It<#it>)),
            Type::Slice(s) => { let it = &s.elem; Some(parse_quote!(Vec<#it>)) }
            Type::Path(p) => {
                let l = p.path.segments.last().unwrap().clone();
                if l.ident == "Box" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() {
                            iter_item(&o.bounds).map(|it| parse_quote!(It<#it>))
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                } else if l.ident == "Punctuated" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments { a.args.first().map(|x| parse_quote!(Vec<#x>)) } else { None }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *t = n;
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        shorten(p);
        visit_mut::visit_path_mut(self, p);
    }
}

struct HasMut {
    hit: bool,
    bound: BTreeSet<String>,
}
impl<'a> Visit<'a> for HasMut {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if let Expr::Path(p) = &*a.left {
            if let Some(i) = p.path.get_ident() {
                if !self.bound.contains(&i.to_string()) {
                    self.hit = true;
                }
            }
        } else {
            self.hit = true;
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if ["insert", "push", "extend", "append", "remove"].contains(&m.method.to_string().as_str()) {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    if !self.bound.contains(&i.to_string()) {
                        self.hit = true;
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.bound.insert(p.ident.to_string());
    }
}

struct SpecRw;
impl VisitMut for SpecRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let n = match e {
            Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => Some((*m.receiver).clone()),
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}

fn print_expr(e: &Expr) -> String {
    let f: File = parse_quote!(fn __x() { #e });
    let s = prettyplease::unparse(&f);
    let a = s.find('{').unwrap();
    let b = s.rfind('}').unwrap();
    s[a + 1..b].trim().to_string()
}

impl Rw {
    fn closure(&mut self, c: &mut ExprClosure, is_comb: bool) {
                        let n = self.closures;
                        self.closures += 1;
                        self.clo_specs.push(None);
                        let t = norm(&c.to_token_stream().to_string());
                        if let Some((_, spec)) = self.text_closures.iter().find(|(x, _)| t.contains(x.as_str())) {
                            // `$0`, `$1` … stand for the closure's parameters, whatever they are called.
                            let mut spec = spec.clone();
                            for (pi, p) in c.inputs.iter().enumerate() {
                                let id = match p { Pat::Ident(i) => Some(i), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i), _ => None }, _ => None };
                                if let Some(i) = id { spec = spec.replace(&format!("${pi}"), &i.ident.to_string()); }
                            }
                            self.found_closures.insert(n, spec);
                            self.explicit_closures.insert(n);
                        }
                        self.visit_expr_mut(&mut c.body);
                        for (pi, p) in c.inputs.iter_mut().enumerate() {
                            visit_mut::visit_pat_mut(self, p);
                            if matches!(p, Pat::Tuple(_) | Pat::Wild(_)) {
                                // `|(a, b)| e` => `|p| { let (a, b) = p; e }`
                                self.used.insert("|(a, b)| e => |p| { let (a, b) = p; e }".into());
                                let id = format_ident!("vx_p{}_{}", n, pi);
                                let old = p.clone();
                                let body = &c.body;
                                let stmts: Vec<Stmt> = match &**body {
                                    Expr::Block(b) => b.block.stmts.clone(),
                                    o => vec![Stmt::Expr(o.clone(), None)],
                                };
                                *c.body = parse_quote!({ let #old = #id; #(#stmts)* });
                                *p = parse_quote!(#id);
                            }
                        }
                        let mut sb = (*c.body).clone();
                        SpecRw.visit_expr_mut(&mut sb);
                        let spec = if is_comb || self.explicit_closures.contains(&n) { Some(print_expr(&sb)) } else { None };
                        self.clo_specs[n] = spec.clone();
                        if spec.is_some() {
                            let mk = Self::marker("vx_clo", n);
                            let body = &c.body;
                            let stmts: Vec<Stmt> = match &**body {
                                Expr::Block(b) => b.block.stmts.clone(),
                                o => vec![Stmt::Expr(o.clone(), None)],
                            };
                            c.output = parse_quote!(-> VxRet);
                            *c.body = parse_quote!({ #mk #(#stmts)* });
                        }
    }
    fn mac_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "matches" => {
                self.used.insert("matches!(e, p) => match e { p => true, _ => false }".into());
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body::<M>().ok()?;
                let g = g.unwrap_or(parse_quote!(true));
                Some(parse_quote!((match #e { #p => #g, _ => false })))
            }
            "format" if self.fmt => {
                self.used.insert("format!(literal, args) => term over the same literal and arguments".into());
                match fmt_term(m) {
                    Some(e) => Some(e),
                    None => { self.errs.push(format!("unsupported format string `{}`", m.tokens)); None }
                }
            }
            "parse_quote" | "quote" if self.fmt => {
                self.used.insert("quote!/parse_quote! => term over the same tokens and interpolated variables".into());
                Some(quote_term(m, name == "quote"))
            }
            "format" => {
                self.used.insert("format!(..) => opaque string (text of messages dropped)".into());
                Some(parse_quote!(vx_format()))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" if self.panics => {
                self.used.insert("panic!/unreachable! => diverging call (panics allowed)".into());
                Some(parse_quote!(vx_refuse()))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.used.insert("panic!/unreachable! => call with precondition false".into());
                Some(parse_quote!(vx_panic()))
            }
            "assert" | "debug_assert" => {
                self.used.insert("assert!(e) => call with precondition e".into());
                let e = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let e = e.first()?.clone();
                Some(parse_quote!(vx_assert(#e)))
            }
            "assert_eq" => {
                let e = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let a = e.first()?.clone();
                let b = e.iter().nth(1)?.clone();
                Some(parse_quote!(vx_assert(#a == #b)))
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let e = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let e: Vec<Expr> = e.into_iter().collect();
                Some(parse_quote!({ let mut __v = Vec::new(); #( __v.push(#e); )* __v }))
            }
            "parse_quote" | "quote" => {
                self.used.insert("parse_quote!/quote! => opaque syntax value".into());
                Some(parse_quote!(vx_tokens()))
            }
            _ => None,
        }
    }
    fn dropped_macro(&mut self, m: &Macro) -> bool {
        let segs: Vec<String> = m.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().as_str();
        let d = (segs[0] == "log" && segs.len() == 2) || ["info", "warn", "debug", "trace", "error", "eprintln", "println", "eprint", "print"].contains(&last);
        if d {
            self.used.insert("log::*!/eprintln! statements dropped".into());
        }
        d
    }
    fn marker(k: &str, n: usize) -> Stmt {
        let id = ident(k);
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(#id!(#l);)
    }
    fn unitise(b: &mut Block) {
        if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
            *semi = Some(Default::default());
        }
    }
    fn strlit(e: &Expr) -> bool {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
            Expr::Paren(p) => Self::strlit(&p.expr),
            Expr::Reference(r) => Self::strlit(&r.expr),
            _ => false,
        }
    }
}

struct OrPats { found: Vec<(Ident, Pat)>, bad: bool }
impl VisitMut for OrPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Or(_) = p {
            struct B(bool);
            impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, i: &'a PatIdent) { if is_lower(&i.ident.to_string()) { self.0 = true; } } }
            let mut b = B(false);
            b.visit_pat(p);
            self.bad |= b.0;
            let id = ident(&format!("vx_or_{}", self.found.len()));
            self.found.push((id.clone(), p.clone()));
            *p = parse_quote!(ref #id);
        } else {
            visit_mut::visit_pat_mut(self, p);
        }
    }
}

impl VisitMut for Rw {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Macro(m) if self.dropped_macro(&m.mac) => continue,
                Stmt::Item(Item::Use(_) | Item::Struct(_) | Item::Enum(_)) => continue,
                Stmt::Macro(m) => {
                    if let Some(e) = self.mac_expr(&m.mac) {
                        s = Stmt::Expr(e, m.semi_token);
                    } else {
                        self.errs.push(format!("unsupported macro statement `{}`", m.mac.to_token_stream()));
                        continue;
                    }
                }
                _ => {}
            }
            // `let (a, b): (..) = ` fine; loops as statements get before/after markers
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let n = self.loops;
            if is_loop {
                self.visit_stmt_mut(&mut s);
                out.push(Self::marker("vx_loop_before", n));
                if let Stmt::Expr(Expr::Block(bb), _) = s {
                    // desugared `for`: hoist `let mut __itN` before the marker is wrong
                    // way round, so splice: lets, marker, loop
                    out.pop();
                    let mut st = bb.block.stmts;
                    let lp = st.pop().unwrap();
                    out.extend(st);
                    out.push(Self::marker("vx_loop_before", n));
                    out.push(lp);
                } else {
                    if let Stmt::Expr(_, semi) = &mut s {
                        let _ = semi;
                    }
                    out.push(s);
                }
                out.push(Self::marker("vx_loop_after", n));
            } else {
                self.visit_stmt_mut(&mut s);
                out.push(s);
            }
        }
        b.stmts = out;
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        TypeRw.visit_type_mut(t);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if a.guard.is_some() {
            // `P { f: A | B } if g` => `P { f: x } if (match x { A | B => true, _ => false }) && g`
            let mut o = OrPats { found: vec![], bad: false };
            if !matches!(a.pat, Pat::Or(_)) { o.visit_pat_mut(&mut a.pat); }
            if o.bad { self.errs.push("or-pattern with bindings and a guard".into()); }
            for (id, p) in o.found {
                self.used.insert("or-pattern inside a guarded arm => tested in the guard".into());
                let (_, g) = a.guard.as_mut().unwrap();
                **g = parse_quote!((match #id { #p => true, _ => false }) && #g);
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if shorten(p) {
            self.used.insert("module prefixes of paths dropped".into());
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(mc) = e {
            if mc.method == "iter" && mc.args.is_empty() {
                if let Expr::Array(a) = &*mc.receiver {
                    self.used.insert("[a, b].iter() => iterator over the same values".into());
                    let el = &a.elems;
                    *e = parse_quote!(vx_lend(vec![#el]));
                }
            }
        }
        if self.panics {
            if let Expr::MethodCall(mc) = e {
                if (mc.method == "unwrap" && mc.args.is_empty()) || (mc.method == "expect" && mc.args.len() == 1) {
                    self.used.insert(".unwrap()/.expect(..) => diverging when empty (panics allowed)".into());
                    mc.method = ident("vx_unwrap");
                    mc.args.clear();
                }
            }
        }
        // map(..mutating closure..).collect()  => explicit loop
        if let Expr::MethodCall(mc) = e {
            if mc.method == "collect" {
                if let Expr::MethodCall(mm) = &*mc.receiver {
                    if mm.method == "map" {
                        if let Some(Expr::Closure(c)) = mm.args.first() {
                            let mut h = HasMut { hit: false, bound: BTreeSet::new() };
                            for p in &c.inputs {
                                h.visit_pat(p);
                            }
                            h.visit_expr(&c.body);
                            if h.hit && c.inputs.len() == 1 {
                                self.used.insert("E.map(|p| B).collect() with a mutating closure => for p in E { out.push(B) }".into());
                                let src = &mm.receiver;
                                let p = &c.inputs[0];
                                let b = &c.body;
                                let n = self.loops;
                                let col = ident(&format!("__col{n}"));
                                *e = parse_quote!({ let mut #col = VxCollect::vx_new(); for #p in #src { let __x = #b; VxCollect::vx_push(&mut #col, __x); } #col });
                            }
                        }
                    }
                }
            }
        }
        match e {
            Expr::Macro(m) => {
                if let Some(n) = self.mac_expr(&m.mac) {
                    *e = n;
                } else if self.dropped_macro(&m.mac) {
                    *e = parse_quote!(());
                } else {
                    self.errs.push(format!("unsupported macro `{}`", m.mac.to_token_stream()));
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                self.for_loops.push(n);
                self.used.insert("for p in E {..} => while it.vx_has_next() { let p = it.vx_next(); .. }".into());
                self.visit_expr_mut(&mut f.expr);
                visit_mut::visit_pat_mut(self, &mut f.pat);
                self.visit_block_mut(&mut f.body);
                Self::unitise(&mut f.body);
                let it = ident(&format!("__it{n}"));
                let all = ident(&format!("__all{n}"));
                let (ex, p, b) = (&f.expr, &f.pat, &f.body.stmts);
                let lb = Self::marker("vx_loop", n);
                let lbb = Self::marker("vx_loop_begin", n);
                let lee = Self::marker("vx_loop_end", n);
                let label = f.label.clone();
                *e = parse_quote!({
                    let mut #it = VxIntoIt::vx_into_it(#ex);
                    let vx_ghost_all = #all;
                    #label while #it.vx_has_next() { #lb let #p = #it.vx_next(); #lbb #(#b)* #lee }
                });
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                if let Expr::Let(l) = &*w.cond {
                    self.used.insert("while let P = E {B} => loop { match E { P => B, _ => break } }".into());
                    let mut l = l.clone();
                    self.visit_expr_mut(&mut l.expr);
                    visit_mut::visit_pat_mut(self, &mut l.pat);
                    self.visit_block_mut(&mut w.body);
                    Self::unitise(&mut w.body);
                    let (ex, p, b) = (&l.expr, &l.pat, &w.body.stmts);
                    let lb = Self::marker("vx_loop", n);
                    let lbb = Self::marker("vx_loop_begin", n);
                    let lee = Self::marker("vx_loop_end", n);
                    let label = w.label.clone();
                    *e = parse_quote!(#label loop { #lb match #ex { #p => { #lbb #(#b)* #lee } _ => { break; } } });
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                Self::unitise(&mut w.body);
                w.body.stmts.insert(0, Self::marker("vx_loop_begin", n));
                w.body.stmts.insert(0, Self::marker("vx_loop", n));
                w.body.stmts.push(Self::marker("vx_loop_end", n));
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut w.body);
                Self::unitise(&mut w.body);
                w.body.stmts.insert(0, Self::marker("vx_loop_begin", n));
                w.body.stmts.insert(0, Self::marker("vx_loop", n));
                w.body.stmts.push(Self::marker("vx_loop_end", n));
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_default" && m.args.is_empty() => {
                m.method = ident("vx_unwrap_or_default");
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::MethodCall(m) if m.method == "starts_with" && m.args.len() == 1 && Self::strlit(&m.args[0]) => {
                self.used.insert("x.starts_with(\"lit\") => vx_starts_with(x, \"lit\")".into());
                self.visit_expr_mut(&mut m.receiver);
                let mut r = (*m.receiver).clone();
                if let Expr::MethodCall(t) = &r {
                    // x.to_string().starts_with(..) looks at the text of x
                    if t.method == "to_string" && t.args.is_empty() {
                        let x = &t.receiver;
                        r = parse_quote!(&#x);
                    }
                }
                let l = &m.args[0];
                *e = parse_quote!(vx_starts_with(#r, #l));
            }
            Expr::MethodCall(m) => {
                let is_comb = COMBINATORS.contains(&m.method.to_string().as_str());
                if m.method == "all" && m.args.len() == 1 { m.method = ident("all_"); }
                self.visit_expr_mut(&mut m.receiver);
                if let Some(t) = m.turbofish.as_mut() {
                    for a in t.args.iter_mut() {
                        if let GenericArgument::Type(t) = a {
                            TypeRw.visit_type_mut(t)
                        }
                    }
                }
                for a in m.args.iter_mut() {
                    if let Expr::Closure(c) = a {
                        self.closure(c, is_comb);
                    } else {
                        self.visit_expr_mut(a);
                    }
                }
            }
            Expr::Closure(c) => self.closure(c, false),
            Expr::Call(k) if k.args.iter().any(|a| matches!(a, Expr::Closure(_))) => {
                self.visit_expr_mut(&mut k.func);
                for a in k.args.iter_mut() {
                    if let Expr::Closure(c) = a {
                        self.closure(c, false);
                    } else {
                        self.visit_expr_mut(a);
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (Self::strlit(&b.left) || Self::strlit(&b.right)) => {
                self.used.insert("x == \"lit\" => vx_str_eq(x, \"lit\")".into());
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (mut l, mut r) = (b.left.clone(), b.right.clone());
                if Self::strlit(&l) {
                    std::mem::swap(&mut l, &mut r);
                }
                let call: Expr = parse_quote!(vx_str_eq(#l, #r));
                *e = if matches!(b.op, BinOp::Ne(_)) { parse_quote!(!#call) } else { call };
            }
            Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_)) => {
                if let Expr::Array(a) = &*r.expr {
                    let els: Vec<Expr> = a.elems.iter().cloned().collect();
                    self.used.insert("&[a, b] => &Vec of the same elements".into());
                    *e = parse_quote!(&{ let mut __v = Vec::new(); #( __v.push(#els); )* __v });
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// The loops of a function in source order: `f`or, `w`hile, while-let `v`, `l`oop, nested ones in parentheses.
/// Invariants are written for this sequence; see `contracts/shapes.json`.
pub fn loop_shape(b: &Block) -> String {
    use syn::visit::{self, Visit};
    struct L(String);
    impl<'a> Visit<'a> for L {
        fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) { self.0.push_str("f("); visit::visit_expr_for_loop(self, e); self.0.push(')'); }
        fn visit_expr_while(&mut self, e: &'a ExprWhile) {
            self.0.push_str(if matches!(*e.cond, Expr::Let(_)) { "v(" } else { "w(" });
            visit::visit_expr_while(self, e);
            self.0.push(')');
        }
        fn visit_expr_loop(&mut self, e: &'a ExprLoop) { self.0.push_str("l("); visit::visit_expr_loop(self, e); self.0.push(')'); }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut l = L(String::new());
    l.visit_block(b);
    l.0
}
fn apply_text(rewrites: &[(String, String, bool)], b: &Block, used: &mut BTreeSet<String>) -> R<Block> {
    if rewrites.is_empty() {
        return Ok(b.clone());
    }
    let mut s = norm(&b.to_token_stream().to_string());
    for (x, y, opt) in rewrites {
        let xt = norm(&x.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string());
        let yt = norm(&y.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string());
        if !s.contains(&xt) {
            if *opt {
                continue;
            }
            return Err(format!("lost anchor: rewrite pattern `{x}` not found"));
        }
        s = s.replace(&xt, &yt);
        used.insert(format!("`{x}` => `{y}`"));
    }
    parse_str::<Block>(&s).map_err(|e| format!("after rewrite: {e}"))
}

/// `Enum::Variant(..)` of an error enum => `vx_err()`
struct AbsErr(String);
impl VisitMut for AbsErr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let p = match e { Expr::Call(c) => if let Expr::Path(p) = &*c.func { Some(&p.path) } else { None }, Expr::Path(p) => Some(&p.path), _ => None };
        if let Some(p) = p {
            let n = p.segments.len();
            if n >= 2 && p.segments[n - 2].ident == self.0 { *e = parse_quote!(vx_err()); return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Replaces a range of statements. They may leave the function only with an error.
fn drop_range(b: &mut Block, from: &str, to: &str, with: &str) -> R<()> {
    struct Rets(bool);
    impl<'a> Visit<'a> for Rets {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            let t = r.expr.as_ref().map(|e| norm(&e.to_token_stream().to_string())).unwrap_or_default();
            if !t.starts_with("Err (") { self.0 = true; }
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    struct D { from: String, to: String, with: Vec<Stmt>, n: usize, bad: bool }
    impl VisitMut for D {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let t: Vec<String> = b.stmts.iter().map(|s| norm(&s.to_token_stream().to_string())).collect();
            if let Some(i) = t.iter().position(|s| s.starts_with(&self.from)) {
                if let Some(j) = (i..t.len()).find(|j| t[*j].starts_with(&self.to)) {
                    let mut r = Rets(false);
                    for s in &b.stmts[i..=j] { r.visit_stmt(s); }
                    self.bad |= r.0;
                    self.n += 1;
                    b.stmts.splice(i..=j, self.with.clone());
                    return;
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    let tk = |s: &str| -> R<String> { Ok(s.parse::<TokenStream>().map(|t| norm(&t.to_string())).unwrap_or(norm(s))) };
    let w: Block = parse_str(&format!("{{ {with} }}")).map_err(|e| e.to_string())?;
    let mut d = D { from: tk(from)?, to: tk(to)?, with: w.stmts, n: 0, bad: false };
    d.visit_block_mut(b);
    if d.n != 1 { return Err(format!("lost anchor: {} ranges `{from}` .. `{to}`", d.n)); }
    if d.bad { return Err(format!("lost anchor: `{from}` .. `{to}` returns something other than an error")); }
    Ok(())
}

/// `x` for `x` and `mut x`, `(x, y)` for a tuple
fn let_name(p: &Pat) -> String {
    match p { Pat::Ident(i) => i.ident.to_string(), p => norm(&p.to_token_stream().to_string()).replace("( ", "(").replace(" )", ")").replace(" ,", ",") }
}

/// `let p = BLOCK` => `let p = call(..)`; BLOCK is verified on its own and may not leave the function
struct Outline { name: String, with: Expr, n: usize, bad: bool }
impl VisitMut for Outline {
    fn visit_local_mut(&mut self, l: &mut Local) {
        struct Leaves(bool, usize);
        impl<'a> Visit<'a> for Leaves {
            fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
            fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 |= self.1 == 0; }
            fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 |= self.1 == 0; }
            fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) { self.1 += 1; visit::visit_expr_for_loop(self, e); self.1 -= 1; }
            fn visit_expr_while(&mut self, e: &'a ExprWhile) { self.1 += 1; visit::visit_expr_while(self, e); self.1 -= 1; }
            fn visit_expr_loop(&mut self, e: &'a ExprLoop) { self.1 += 1; visit::visit_expr_loop(self, e); self.1 -= 1; }
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        }
        let mut p = &l.pat;
        if let Pat::Type(t) = p { p = &t.pat; }
        if let_name(p) == self.name {
            if let Some(init) = &mut l.init {
                let mut v = Leaves(false, 0);
                v.visit_expr(&init.expr);
                self.bad |= v.0;
                *init.expr = self.with.clone();
                self.n += 1;
                return;
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
}

/// `it.map(|p| body).collect()`, where the closure mutates what it captures,
/// becomes a loop which pushes each body, then `made(pushed)`.
struct MapLoop { text: String, made: Expr, n: usize, bad: bool }
impl VisitMut for MapLoop {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(col) = &*e else { return };
        if !(col.method == "collect" && col.args.is_empty() || col.method == "partition" && col.args.len() == 1) { return; }
        let extra: Vec<Expr> = col.args.iter().cloned().collect();
        let Expr::MethodCall(map) = &*col.receiver else { return };
        if map.method != "map" || map.args.len() != 1 { return; }
        let Expr::Closure(c) = &map.args[0] else { return };
        if c.inputs.len() != 1 || !norm(&c.to_token_stream().to_string()).contains(&self.text) { return; }
        struct Ret(bool);
        impl<'a> Visit<'a> for Ret {
            fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        }
        let mut r = Ret(false);
        r.visit_expr(&c.body);
        self.bad |= r.0;
        let (it, p, b, f) = (&map.receiver, &c.inputs[0], &c.body, &self.made);
        let p: &Pat = if let Pat::Type(t) = p { &t.pat } else { p };
        *e = parse_quote!({ let mut vx_out = Vec::new(); for #p in #it { let vx_one = #b; vx_out.push(vx_one); } #f(vx_out.into_iter() #(, #extra)*) });
        self.n += 1;
    }
}

/// `res.map(|p| body)`, where the closure mutates what it captures, becomes a match.
struct ResMap { text: String, n: usize, bad: bool }
impl VisitMut for ResMap {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(map) = &*e else { return };
        if map.method != "map" || map.args.len() != 1 { return; }
        let Expr::Closure(c) = &map.args[0] else { return };
        if c.inputs.len() != 1 || !norm(&c.to_token_stream().to_string()).contains(&self.text) { return; }
        let mut r = Leaves(false);
        r.visit_expr(&c.body);
        self.bad |= r.0;
        let (r, p, b) = (&map.receiver, &c.inputs[0], &c.body);
        let p: &Pat = if let Pat::Type(t) = p { &t.pat } else { p };
        *e = parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) });
        self.n += 1;
    }
}
/// `opt.unwrap_or_else(|| body)`, where the closure mutates what it captures, becomes a match.
struct OrElse { text: String, n: usize, bad: bool }
impl VisitMut for OrElse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = &*e else { return };
        if m.method != "unwrap_or_else" || m.args.len() != 1 { return; }
        let Expr::Closure(c) = &m.args[0] else { return };
        if !c.inputs.is_empty() || !norm(&c.to_token_stream().to_string()).contains(&self.text) { return; }
        let mut r = Leaves(false);
        r.visit_expr(&c.body);
        self.bad |= r.0;
        let (r, b) = (&m.receiver, &c.body);
        *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => #b });
        self.n += 1;
    }
}
/// does an expression leave the function?
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
}

/// A let-bound closure which mutates what it captures becomes a function of its
/// own (extracted by `%slice closure`): the definition goes, calls pass the
/// captured variables, and `x.map_or(d, |p| ..call..)` becomes a match.
struct Hoist { name: String, caps: Vec<Expr>, defs: usize, calls: bool }
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, .. }), .. }) if i.ident == self.name && matches!(**expr, Expr::Closure(_))));
        self.defs += n - b.stmts.len();
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let outer = std::mem::replace(&mut self.calls, false);
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) => {
                let (a, caps) = (c.args.iter(), &self.caps);
                let f = &c.func;
                // already passed
                if let (Some(x), Some(y)) = (c.args.first(), caps.first()) { if x.to_token_stream().to_string() == y.to_token_stream().to_string() { return; } }
                *e = parse_quote!(#f(#(#caps,)* #(#a),*));
                self.calls = true;
            }
            Expr::MethodCall(m) if m.method == "map_or" && m.args.len() == 2 && self.calls => {
                if let Expr::Closure(c) = &m.args[1] {
                    let (r, d, p, x) = (&m.receiver, &m.args[0], &c.inputs[0], &c.body);
                    *e = parse_quote!(match #r { Some(#p) => #x, None => #d });
                }
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_else" && m.args.len() == 1 => {
                let r = &m.receiver;
                match &m.args[0] {
                    Expr::Closure(c) if self.calls && c.inputs.len() == 1 => {
                        let (p, x) = (&c.inputs[0], &c.body);
                        *e = parse_quote!(match #r { Ok(vx_v) => vx_v, Err(#p) => #x });
                    }
                    a => {
                        let a = if let Expr::Reference(x) = a { &*x.expr } else { a };
                        if matches!(a, Expr::Path(p) if p.path.is_ident(&self.name)) {
                            let caps = &self.caps;
                            *e = parse_quote!(match #r { Ok(vx_v) => vx_v, Err(vx_e) => #a(#(#caps,)* vx_e) });
                            self.calls = true;
                        }
                    }
                }
            }
            _ => {}
        }
        self.calls |= outer;
    }
}

/// Part of a function's body, as a block of its own.
pub fn slice(b: &Block, what: &str) -> R<Block> {
    struct Lets { name: String, hits: Vec<Expr> }
    impl<'a> Visit<'a> for Lets {
        fn visit_local(&mut self, l: &'a Local) {
            let mut p = &l.pat;
            if let Pat::Type(t) = p { p = &t.pat; }
            if let Some(init) = &l.init {
                if let_name(p) == self.name && init.diverge.is_none() { self.hits.push((*init.expr).clone()); return; }
            }
            visit::visit_local(self, l);
        }
    }
    struct Range { from: String, to: String, hits: Vec<Vec<Stmt>> }
    impl<'a> Visit<'a> for Range {
        fn visit_block(&mut self, b: &'a Block) {
            let t: Vec<String> = b.stmts.iter().map(|s| norm(&s.to_token_stream().to_string())).collect();
            if let Some(i) = t.iter().position(|s| s.starts_with(&self.from)) {
                if let Some(j) = (i..t.len()).find(|j| t[*j].starts_with(&self.to)) { self.hits.push(b.stmts[i..=j].to_vec()); }
            }
            visit::visit_block(self, b);
        }
    }
    if let Some(n) = what.strip_prefix("let ") {
        let mut v = Lets { name: n.trim().into(), hits: vec![] };
        // one of the statements of the function itself, rather than one further inside
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                let mut p = &l.pat;
                if let Pat::Type(t) = p { p = &t.pat; }
                if let (true, Some(init)) = (let_name(p) == v.name, &l.init) { if init.diverge.is_none() { v.hits.push((*init.expr).clone()); } }
            }
        }
        if v.hits.is_empty() { v.visit_block(b); }
        if v.hits.len() != 1 { return Err(format!("{} definitions", v.hits.len())); }
        let e = v.hits.pop().unwrap();
        return Ok(parse_quote!({ #e }));
    }
    if let Some(n) = what.strip_prefix("closure ") {
        let mut v = Lets { name: n.trim().into(), hits: vec![] };
        v.visit_block(b);
        if v.hits.len() != 1 { return Err(format!("{} definitions", v.hits.len())); }
        return match v.hits.pop().unwrap() {
            Expr::Closure(c) => match *c.body { Expr::Block(b) => Ok(b.block), o => Ok(parse_quote!({ #o })) },
            _ => Err("not a closure".into()),
        };
    }
    let tk = |s: &str| -> R<String> { Ok(s.parse::<TokenStream>().map(|t| norm(&t.to_string())).unwrap_or(norm(s))) };
    let q: Vec<&str> = what.split('`').collect();
    if q.len() != 5 && q.len() != 7 { return Err("bad slice".into()); }
    let mut v = Range { from: tk(q[1])?, to: tk(q[3])?, hits: vec![] };
    v.visit_block(b);
    if v.hits.len() != 1 { return Err(format!("{} matching ranges", v.hits.len())); }
    let st = v.hits.pop().unwrap();
    if q.len() == 7 {
        // what the statements leave behind, as the result
        let tail: Expr = parse_str(q[5]).map_err(|e| format!("slice: {e}"))?;
        return Ok(parse_quote!({ #(#st)* #tail }));
    }
    Ok(parse_quote!({ #(#st)* }))
}

/// Insert marker statements before/after the first statement containing `pat`.
struct Anchor<'a> {
    pat: String,
    after: bool,
    id: usize,
    done: bool,
    _p: std::marker::PhantomData<&'a ()>,
}
impl VisitMut for Anchor<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // innermost first
        visit_mut::visit_block_mut(self, b);
        if self.done {
            return;
        }
        if let Some(i) = b.stmts.iter().position(|s| norm(&s.to_token_stream().to_string()).contains(&self.pat)) {
            let m = Rw::marker("vx_anchor", self.id);
            b.stmts.insert(if self.after { i + 1 } else { i }, m);
            self.done = true;
        }
    }
}

pub fn render(found: &Found, c: &Contract) -> R<(String, Vec<String>)> {
    let mut used = BTreeSet::new();
    let mut block = found.block.clone();
    for (x, y, w) in &c.drops {
        drop_range(&mut block, x, y, w)?;
        used.insert(format!("statements `{x}` .. `{y}` replaced by `{w}`"));
    }
    for (x, y, w) in &c.outlined {
        drop_range(&mut block, x, y, w)?;
        used.insert(format!("statements `{x}` .. `{y}` verified as a function of their own"));
    }
    if let Some(n) = &c.abserr {
        AbsErr(n.clone()).visit_block_mut(&mut block);
        used.insert(format!("{n}::X(..) => vx_err()"));
    }
    for (n, call) in &c.outlines {
        let with: Expr = parse_str(call).map_err(|e| format!("outline: {e}"))?;
        let mut o = Outline { name: n.clone(), with, n: 0, bad: false };
        let top = |s: &Stmt| matches!(s, Stmt::Local(l) if l.init.is_some() && { let p = if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat }; let_name(p) == *n });
        if block.stmts.iter().any(top) {
            for s in block.stmts.iter_mut().filter(|s| top(s)) { o.visit_stmt_mut(s); }
        } else { o.visit_block_mut(&mut block); }
        if o.n != 1 || o.bad { return Err(format!("lost anchor: {} definitions of `{n}` in {}{}", o.n, c.selector, if o.bad { ", leaving the function" } else { "" })); }
        used.insert(format!("initializer of `{n}` verified as a function of its own"));
    }
    for (t, made) in &c.maploops {
        let made: Expr = parse_str(made).map_err(|e| format!("maploop: {e}"))?;
        let t: String = t.parse::<TokenStream>().map(|t| norm(&t.to_string())).unwrap_or(norm(t));
        let mut m = MapLoop { text: t.clone(), made, n: 0, bad: false };
        m.visit_block_mut(&mut block);
        if m.n != 1 || m.bad { return Err(format!("lost anchor: {} `.map(.. {t} ..).collect()` in {}", m.n, c.selector)); }
        used.insert("it.map(closure which mutates captures).collect() => loop pushing the closure's body".into());
    }
    for t in &c.resmaps {
        let t: String = t.parse::<TokenStream>().map(|t| norm(&t.to_string())).unwrap_or(norm(t));
        let mut m = ResMap { text: t.clone(), n: 0, bad: false };
        m.visit_block_mut(&mut block);
        if m.n != 1 || m.bad { return Err(format!("lost anchor: {} `.map(.. {t} ..)` in {}", m.n, c.selector)); }
        used.insert("res.map(closure which mutates captures) => match".into());
    }
    for t in &c.orelses {
        let t: String = t.parse::<TokenStream>().map(|t| norm(&t.to_string())).unwrap_or(norm(t));
        let mut m = OrElse { text: t.clone(), n: 0, bad: false };
        m.visit_block_mut(&mut block);
        if m.bad { return Err(format!("lost anchor: `.unwrap_or_else(.. {t} ..)` leaves {}", c.selector)); }
        used.insert("opt.unwrap_or_else(closure which mutates captures) => match".into());
    }
    for (n, caps) in &c.hoisted {
        let mut h = Hoist { name: n.clone(), caps: caps.iter().map(|x| -> R<Expr> { let x = if x.starts_with('&') { x.clone() } else { format!("&mut {x}") }; parse_str(&x).map_err(|e| format!("hoisted: {e}")) }).collect::<R<Vec<Expr>>>()?, defs: 0, calls: false };
        h.visit_block_mut(&mut block);
        if h.defs != 1 && !(c.calls_only.contains(n) && h.defs == 0) { return Err(format!("lost anchor: {} closures `{n}` in {}", h.defs, c.selector)); }
        used.insert(format!("closure `{n}` verified as a function, captured variables passed by reference"));
    }
    let mut block = apply_text(&c.pre_rewrites, &block, &mut used)?;
    let mut rw = Rw {
        loops: 0,
        for_loops: vec![],
        closures: 0,
        clo_specs: vec![],
        used,
        errs: vec![],
        explicit_closures: c.closures.keys().cloned().collect(),
        text_closures: c.closures_text.iter().map(|(t, s)| (t.parse::<TokenStream>().map(|t| norm(&t.to_string())).unwrap_or(norm(t)), s.clone())).collect(),
        found_closures: Default::default(),
        fmt: c.fmt,
        panics: c.panics,
    };
    rw.visit_block_mut(&mut block);
    if let Some(e) = rw.errs.first() {
        return Err(format!("unsupported construct in {}: {e}", c.selector));
    }
    if let Some(n) = c.nloops {
        if n != rw.loops {
            return Err(format!("lost anchor: {} has {} loops, contract written for {n}", c.selector, rw.loops));
        }
    }
    for k in c.loops.keys().chain(c.loop_begin.keys()).chain(c.loop_end.keys()) {
        if *k >= rw.loops {
            return Err(format!("lost anchor: {} has no loop {k}", c.selector));
        }
    }
    for k in c.closures.keys() {
        if *k >= rw.closures {
            return Err(format!("lost anchor: {} has no closure {k}", c.selector));
        }
    }
    let mut used = std::mem::take(&mut rw.used);
    // calls which were inside format!
    for (n, caps) in c.hoisted.iter().filter(|_| c.fmt) {
        let mut h = Hoist { name: n.clone(), caps: caps.iter().map(|x| -> R<Expr> { let x = if x.starts_with('&') { x.clone() } else { format!("&mut {x}") }; parse_str(&x).map_err(|e| format!("hoisted: {e}")) }).collect::<R<Vec<Expr>>>()?, defs: 0, calls: false };
        h.visit_block_mut(&mut block);
    }
    block = apply_text(&c.rewrites, &block, &mut used)?;
    // anchors
    let mut anchors = vec![];
    for (pat, text, opt) in c.before.iter().map(|x| (&x.0, &x.1, x.2)) {
        let id = anchors.len();
        let p = norm(&pat.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string());
        let mut a = Anchor { pat: p, after: false, id, done: false, _p: Default::default() };
        a.visit_block_mut(&mut block);
        if !a.done && !opt {
            return Err(format!("lost anchor: no statement `{pat}` in {}", c.selector));
        }
        anchors.push(text.clone());
    }
    for (pat, text, opt) in c.after.iter().map(|x| (&x.0, &x.1, x.2)) {
        let id = anchors.len();
        let p = norm(&pat.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string());
        let mut a = Anchor { pat: p, after: true, id, done: false, _p: Default::default() };
        a.visit_block_mut(&mut block);
        if !a.done && !opt {
            return Err(format!("lost anchor: no statement `{pat}` in {}", c.selector));
        }
        anchors.push(text.clone());
    }
    // tail binding for %end
    if !c.end.trim().is_empty() {
        let has_ret = !matches!(found.sig.output, ReturnType::Default);
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) if has_ret => {
                match &c.end_ty {
                    Some(t) => { let t: Type = parse_str(t).map_err(|e| format!("end: {e}"))?; block.stmts.push(parse_quote!(let __ret: #t = #e;)); }
                    None => block.stmts.push(parse_quote!(let __ret = #e;)),
                }
                block.stmts.push(Rw::marker("vx_fn_end", 0));
                block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
            }
            Some(mut s) => {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
                block.stmts.push(s);
                block.stmts.push(Rw::marker("vx_fn_end", 0));
            }
            None => block.stmts.push(Rw::marker("vx_fn_end", 0)),
        }
    }
    // print body
    let f: File = parse_quote!(fn __vx() #block);
    let s = prettyplease::unparse(&f);
    let a = s.find('{').unwrap();
    let mut body = s[a..].trim_end().to_string();
    // weave
    for k in 0..rw.loops {
        let mk = format!("vx_loop!({k});");
        if let Some(p) = body.find(&mk) {
            let open = body[..p].rfind('{').unwrap();
            let mut inv = String::new();
            let user = c.loops.get(&k).cloned().unwrap_or_default();
            if rw.for_loops.contains(&k) {
                inv.push_str(&format!("\n invariant 0 <= __it{k}.pos() <= __it{k}.all().len(), __it{k}.all() == __all{k},\n"));
                let u = user.trim_start();
                inv.push_str(u.strip_prefix("invariant").unwrap_or(u));
                if !user.contains("decreases") {
                    inv.push_str(&format!("\n decreases __it{k}.all().len() - __it{k}.pos()\n"));
                }
            } else {
                inv.push('\n');
                inv.push_str(&user);
            }
            body = format!("{}{}{{{}", &body[..open], inv, &body[p + mk.len()..]);
        }
        for (name, map) in [("vx_loop_begin", &c.loop_begin), ("vx_loop_end", &c.loop_end), ("vx_loop_before", &c.loop_before), ("vx_loop_after", &c.loop_after)] {
            let mk = format!("{name}!({k});");
            let t = map.get(&k).cloned().unwrap_or_default();
            if !t.is_empty() && !body.contains(&mk) {
                return Err(format!("lost anchor: {name} {k} in {}", c.selector));
            }
            body = body.replace(&mk, &t);
        }
        body = body.replace(&format!("let vx_ghost_all = __all{k};"), &format!("let ghost __all{k} = __it{k}.all();"));
    }
    for k in 0..rw.closures {
        let mk = format!("vx_clo!({k});");
        if let Some(p) = body.find(&mk) {
            let open = body[..p].rfind('{').unwrap();
            let ret = body[..open].rfind("-> VxRet").ok_or("closure weave")?;
            let spec = match c.closures.get(&k).or(rw.found_closures.get(&k)) {
                Some(t) if t.trim() == "none" => String::new(),
                Some(t) => t.trim().to_string(),
                None => format!("-> (vr: _) ensures vx_eq(vr, {{ {} }})", rw.clo_specs[k].clone().unwrap_or_default()),
            };
            body = format!("{}{} {{{}", &body[..ret], spec, &body[p + mk.len()..]);
        }
    }
    for (k, t) in anchors.iter().enumerate() {
        body = body.replace(&format!("vx_anchor!({k});"), t);
    }
    body = body.replace("vx_fn_end!(0);", &c.end);
    if !c.begin.is_empty() {
        body = format!("{{\n{}{}", c.begin, &body[1..]);
    }
    // signature
    let sig = match &c.sig {
        Some(s) => {
            used.insert(format!("signature of {} adapted to prelude types", c.selector));
            s.clone()
        }
        None => {
            let mut sg = found.sig.clone();
            // generic params bound by Iterator become It<..>
            let mut subst: Vec<(String, Type)> = vec![];
            let mut g2 = sg.generics.clone();
            g2.params = g2
                .params
                .into_iter()
                .filter(|p| {
                    if let GenericParam::Type(t) = p {
                        if let Some(it) = iter_item(&t.bounds) {
                            subst.push((t.ident.to_string(), parse_quote!(It<#it>)));
                            return false;
                        }
                    }
                    true
                })
                .collect();
            sg.generics = g2;
            struct Sub(Vec<(String, Type)>);
            impl VisitMut for Sub {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    visit_mut::visit_type_mut(self, t);
                    if let Type::Path(p) = t {
                        if let Some(i) = p.path.get_ident() {
                            if let Some((_, n)) = self.0.iter().find(|x| i == &x.0) {
                                *t = n.clone();
                            }
                        }
                    }
                }
            }
            Sub(subst).visit_signature_mut(&mut sg);
            TypeRw.visit_signature_mut(&mut sg);
            if let Some(n) = &c.rename {
                sg.ident = ident(n);
            }
            let out = sg.output.clone();
            sg.output = ReturnType::Default;
            let wc = sg.generics.where_clause.take();
            let mut s = sg.to_token_stream().to_string();
            if let ReturnType::Type(_, t) = out {
                s.push_str(&format!(" -> ({}: {})", c.ret, t.to_token_stream()));
            }
            if let Some(w) = wc {
                s.push_str(&format!(" {}", w.to_token_stream()));
            }
            format!("pub {s}")
        }
    };
    let mut out = String::new();
    out.push_str(&c.attrs);
    out.push_str(&sig);
    out.push('\n');
    if !c.requires.trim().is_empty() {
        out.push_str(&format!("    requires\n{}", c.requires));
    }
    if !c.ensures.trim().is_empty() {
        out.push_str(&format!("    ensures\n{}", c.ensures));
    }
    if !c.decreases.trim().is_empty() {
        out.push_str(&format!("    decreases\n{}", c.decreases));
    }
    out.push_str(&body);
    out.push('\n');
    Ok((out, used.into_iter().collect()))
}

/// Render a type definition. Directive lines: `Variant.field => Type` or
/// `field => Type` override, `* => Type` default for unlisted field types,
/// `keep field` keep the declared type, `derive X`, `only a b c` keep these fields.
pub fn render_type(items: &[Item], name: &str, dirs: &[&str]) -> R<String> {
    let mut default: Option<Type> = None;
    let mut map: Vec<(String, Type)> = vec![];
    let mut keep: Vec<String> = vec![];
    let mut pre = String::new();
    let mut only: Option<Vec<String>> = None;
    let mut generics: Option<String> = None;
    let mut newname: Option<String> = None;
    for d in dirs {
        let d = d.trim();
        if d.is_empty() {
            continue;
        }
        if let Some(x) = d.strip_prefix("pre ") {
            pre.push_str(x);
            pre.push('\n');
        } else if let Some(x) = d.strip_prefix("keep ") {
            keep.extend(x.split_whitespace().map(|s| s.to_string()));
        } else if let Some(x) = d.strip_prefix("only ") {
            only = Some(x.split_whitespace().map(|s| s.to_string()).collect());
        } else if let Some(x) = d.strip_prefix("as ") {
            newname = Some(x.trim().to_string());
        } else if let Some(x) = d.strip_prefix("generics ") {
            generics = Some(x.to_string());
        } else if let Some((a, b)) = d.split_once("=>") {
            let t: Type = parse_str(b.trim()).map_err(|e| e.to_string())?;
            if a.trim() == "*" {
                default = Some(t)
            } else {
                map.push((a.trim().to_string(), t))
            }
        } else {
            return Err(format!("bad @@type directive {d}"));
        }
    }
    let fix = |f: &mut Field, key: String| {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
        if let Some((_, t)) = map.iter().find(|(k, _)| *k == key) {
            f.ty = t.clone();
        } else if keep.contains(&key) || keep.contains(&"*".to_string()) {
            TypeRw.visit_type_mut(&mut f.ty);
        } else if let Some(d) = &default {
            f.ty = d.clone();
        } else {
            TypeRw.visit_type_mut(&mut f.ty);
        }
    };
    for it in items {
        match it {
            Item::Struct(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                if let Some(n) = &newname { s.ident = ident(n); }
                if let (Some(o), Fields::Named(n)) = (&only, &mut s.fields) {
                    for want in o {
                        if !n.named.iter().any(|f| f.ident.as_ref().unwrap() == want) {
                            return Err(format!("lost anchor: {name} has no field {want}"));
                        }
                    }
                    n.named = n.named.iter().filter(|f| o.contains(&f.ident.as_ref().unwrap().to_string())).cloned().collect();
                }
                for (i, f) in s.fields.iter_mut().enumerate() {
                    let k = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                    fix(f, k);
                    if f.ident.is_none() {
                        f.vis = parse_quote!(pub);
                    }
                }
                if let Some(g) = &generics {
                    s.generics = parse_str(g).map_err(|e| e.to_string())?;
                }
                let f: File = parse_quote!(#s);
                return Ok(format!("{pre}{}", prettyplease::unparse(&f)));
            }
            Item::Enum(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                if let Some(n) = &newname { s.ident = ident(n); }
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    let vn = v.ident.to_string();
                    for (i, f) in v.fields.iter_mut().enumerate() {
                        let k = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                        fix(f, format!("{vn}.{k}"));
                        f.vis = Visibility::Inherited;
                    }
                }
                if let Some(g) = &generics {
                    s.generics = parse_str(g).map_err(|e| e.to_string())?;
                }
                let f: File = parse_quote!(#s);
                return Ok(format!("{pre}{}", prettyplease::unparse(&f)));
            }
            _ => {}
        }
    }
    Err(format!("lost anchor: no type {name}"))
}

/// `format!("a{x}b{}", e)` => `vx_f2("a{}b{}", &x, &e)`
fn fmt_term(m: &Macro) -> Option<Expr> {
    let es = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let mut it = es.iter();
    let lit = match it.next()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        _ => None,
    };
    let Some(lit) = lit else {
        // a constant as the literal cannot happen in Rust
        return None;
    };
    let mut pos: Vec<Expr> = vec![];
    let mut named: std::collections::BTreeMap<String, Expr> = Default::default();
    for e in it {
        match e {
            Expr::Assign(a) => {
                let n = a.left.to_token_stream().to_string();
                named.insert(n, (*a.right).clone());
            }
            e => pos.push(e.clone()),
        }
    }
    let mut out = String::new();
    let mut args: Vec<Expr> = vec![];
    let mut next = 0;
    let cs: Vec<char> = lit.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { out.push_str("{{"); i += 2; }
            '}' if cs.get(i + 1) == Some(&'}') => { out.push_str("}}"); i += 2; }
            '{' => {
                let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
                let inner: String = cs[i + 1..j].iter().collect();
                let (n, spec) = match inner.split_once(':') { Some((a, b)) => (a.to_string(), format!(":{b}")), None => (inner.clone(), String::new()) };
                let n = n.trim().to_string();
                let e = if n.is_empty() {
                    next += 1;
                    pos.get(next - 1)?.clone()
                } else if let Ok(k) = n.parse::<usize>() {
                    pos.get(k)?.clone()
                } else if let Some(e) = named.get(&n) {
                    e.clone()
                } else {
                    let id = ident(&n);
                    parse_quote!(#id)
                };
                args.push(e);
                out.push_str(&format!("{{{spec}}}"));
                i = j + 1;
            }
            c => { out.push(c); i += 1; }
        }
    }
    let f = ident(&format!("vx_f{}", args.len()));
    Some(parse_quote!(#f(#out #(, &(#args))*)))
}

/// `quote! { f(#x) }` => `vx_q1("f (#0)", &x)`; `parse_quote!` => `vx_p1(..)`
fn quote_term(m: &Macro, stream: bool) -> Expr {
    fn go(ts: TokenStream, vars: &mut Vec<proc_macro2::Ident>, out: &mut Vec<String>) {
        use proc_macro2::{Delimiter, TokenTree};
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '#' => {
                    if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                        let k = vars.iter().position(|x| x == id).unwrap_or_else(|| { vars.push(id.clone()); vars.len() - 1 });
                        out.push(format!("#{k}"));
                        i += 2;
                        continue;
                    }
                    out.push("#".into());
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                    out.push(a.into());
                    go(g.stream(), vars, out);
                    out.push(b.into());
                }
                t => out.push(t.to_string()),
            }
            i += 1;
        }
    }
    let mut vars = vec![];
    let mut out = vec![];
    go(m.tokens.clone(), &mut vars, &mut out);
    let lit = out.join(" ");
    let f = ident(&format!("vx_{}{}", if stream { "q" } else { "p" }, vars.len()));
    parse_quote!(#f(#lit #(, &#vars)*))
}
