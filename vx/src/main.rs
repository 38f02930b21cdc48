//! vx: mechanical extraction of functions and types from the crates under test.
//! usage: vx CONFIG.json OUT.json
mod inline;
mod load;
mod mac;
mod print;
mod asy;
mod xform;

use load::{text, Module};
use proc_macro2::Span;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;
use xform::{kind_of_type, Cfg, Db, K, X};

struct Paths<'a> {
    cfg: &'a Cfg,
    krate: String,
    local: HashSet<String>,
}

impl<'a> Paths<'a> {
    fn map_segs(&self, segs: &[String]) -> Option<Vec<String>> {
        if segs.is_empty() {
            return None;
        }
        let mut out: Vec<String> = segs.to_vec();
        let f = segs[0].as_str();
        if f == "crate" {
            out.insert(1, self.krate.clone());
        } else if segs.len() > 1 && !self.local.contains(f) {
            if self.cfg.krates.contains(f) {
                out.insert(0, "crate".into());
            } else if self.cfg.externs.contains(f) {
                out.insert(0, "ext".into());
                out.insert(0, "crate".into());
            }
        }
        // longest-prefix map
        let mut best: Option<(usize, &String)> = None;
        for (k, v) in &self.cfg.path_map {
            let ks: Vec<&str> = k.split("::").collect();
            if ks.len() <= segs.len() && ks.iter().zip(segs).all(|(a, b)| a == b) {
                if best.map(|b| ks.len() > b.0).unwrap_or(true) {
                    best = Some((ks.len(), v));
                }
            }
        }
        if let Some((n, v)) = best {
            let mut o: Vec<String> = v.split("::").map(|s| s.to_string()).collect();
            o.extend(segs[n..].iter().cloned());
            out = o;
        }
        if out == segs {
            None
        } else {
            Some(out)
        }
    }
    fn path(&self, p: &mut Path) {
        if p.leading_colon.is_some() {
            p.leading_colon = None;
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(new) = self.map_segs(&segs) {
            // keep generic arguments of the trailing segments
            let old: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let extra = new.len() as isize - old.len() as isize;
            let mut out: Vec<PathSegment> = vec![];
            for (i, n) in new.iter().enumerate() {
                let j = i as isize - extra;
                let mut seg = if j >= 0 && (j as usize) < old.len() {
                    old[j as usize].clone()
                } else {
                    PathSegment::from(Ident::new("x", Span::call_site()))
                };
                let sp = seg.ident.span();
                seg.ident = Ident::new(n, sp);
                out.push(seg);
            }
            p.segments = out.into_iter().collect();
        }
    }
}
impl<'a> VisitMut for Paths<'a> {
    fn visit_type_trait_object_mut(&mut self, t: &mut TypeTraitObject) {
        // auto traits and lifetimes of a trait object say nothing about what it does
        let auto = |b: &TypeParamBound| match b {
            TypeParamBound::Trait(t) => t.path.is_ident("Send") || t.path.is_ident("Sync") || t.path.is_ident("Unpin"),
            _ => false,
        };
        if t.bounds.iter().any(|b| !auto(b)) {
            t.bounds = t.bounds.iter().filter(|b| !auto(b)).cloned().collect();
        }
        visit_mut::visit_type_trait_object_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.path(p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("vec") {
            use syn::parse::Parser;
            if let Ok(mut a) = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated
                .parse2(m.tokens.clone())
            {
                for x in a.iter_mut() {
                    self.visit_expr_mut(x)
                }
                m.tokens = a.to_token_stream();
            }
        }
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        // `use X::*;` inside bodies
        let mut leaves = vec![];
        use_leaves(&u.tree, vec![], &mut leaves);
        if leaves.len() == 1 {
            let (segs, alias) = &leaves[0];
            if let Some(n) = self.map_segs(segs) {
                let mut t = n.join(" :: ");
                if let Some(a) = alias {
                    t = format!("{} as {}", t, a);
                }
                if let Ok(x) = syn::parse_str::<ItemUse>(&format!("use {};", t)) {
                    *u = x;
                }
            }
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear()
    }
}

fn use_leaves(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            use_leaves(&p.tree, v, out)
        }
        UseTree::Name(n) => {
            let mut v = pre;
            let s = n.ident.to_string();
            if s != "self" {
                v.push(s);
            }
            out.push((v, None))
        }
        UseTree::Rename(r) => {
            let mut v = pre;
            let s = r.ident.to_string();
            if s != "self" {
                v.push(s);
            }
            out.push((v, Some(r.rename.to_string())))
        }
        UseTree::Glob(_) => {
            let mut v = pre;
            v.push("*".into());
            out.push((v, None))
        }
        UseTree::Group(g) => {
            for x in &g.items {
                use_leaves(x, pre.clone(), out)
            }
        }
    }
}

/// numbers loops in source order and adds markers
struct Loops {
    n: usize,
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let body: Option<(&mut Block, usize)> = match e {
            Expr::While(w) => {
                let k = self.n;
                self.n += 1;
                Some((&mut w.body, k))
            }
            Expr::Loop(w) => {
                let k = self.n;
                self.n += 1;
                Some((&mut w.body, k))
            }
            Expr::ForLoop(w) => {
                let k = self.n;
                self.n += 1;
                let x = &w.expr;
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                *w.expr = parse_quote!(vp_forit!{#kk, #x});
                Some((&mut w.body, k))
            }
            _ => None,
        };
        if let Some((b, k)) = body {
            let id = Ident::new(&format!("loop{}", k), Span::call_site());
            let ide = Ident::new(&format!("loopend{}", k), Span::call_site());
            visit_mut::visit_block_mut(self, b);
            b.stmts.insert(0, parse_quote!(vp_marker!{#id}));
            // a marker at the end of the loop body, when it does not end in a value
            let unit_end = !matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
            if unit_end {
                b.stmts.push(parse_quote!(vp_marker!{#ide}));
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Calls {
    names: BTreeSet<String>,
    closures: usize,
    unsafe_blocks: usize,
    awaits: usize,
    returns: usize,
    tries: usize,
}
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.names.insert(
                p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
            );
        }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.names.insert(format!(".{}", c.method));
        visit::visit_expr_method_call(self, c)
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, c)
    }
    fn visit_expr_unsafe(&mut self, c: &'a ExprUnsafe) {
        self.unsafe_blocks += 1;
        visit::visit_expr_unsafe(self, c)
    }
    fn visit_expr_await(&mut self, c: &'a ExprAwait) {
        self.awaits += 1;
        visit::visit_expr_await(self, c)
    }
    fn visit_expr_return(&mut self, c: &'a ExprReturn) {
        self.returns += 1;
        visit::visit_expr_return(self, c)
    }
    fn visit_expr_try(&mut self, c: &'a ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, c)
    }
}

fn sname(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => sname(&r.elem),
        _ => text(t),
    }
}

fn nospace(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct SelfLocal;
impl VisitMut for SelfLocal {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = parse_quote!(vp_self);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn sub(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            t.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::Ident::new("vp_self", i.span()).into(),
                    proc_macro2::TokenTree::Group(g) => proc_macro2::Group::new(g.delimiter(), sub(g.stream())).into(),
                    t => t,
                })
                .collect()
        }
        m.tokens = sub(m.tokens.clone());
    }
}

#[allow(clippy::too_many_arguments)]
fn do_fn(
    m: &Module,
    db: &Db,
    cfg: &Cfg,
    paths: &mut Paths,
    key: String,
    sig: &Signature,
    vis: &Visibility,
    block: &Block,
    imp: Option<(&ItemImpl, Vec<(String, String)>)>,
) -> Value {
    let mut x = X {
        db,
        cfg,
        env: HashMap::new(),
        self_ty: imp.as_ref().map(|(i, _)| sname(&i.self_ty)),
        notes: BTreeSet::new(),
        unsupported: BTreeSet::new(),
        tmp: Default::default(),
        world: false,
        module: m.path.join("::"),
    };
    let mut params = vec![];
    let mut mut_self = false;
    let mut rebind: Vec<Ident> = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let mut r = r.clone();
                r.attrs.clear();
                // `mut self` by value is a local of its own
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    mut_self = true;
                }
                params.push(json!({"self": true, "text": text(&r)}));
            }
            FnArg::Typed(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                if let Pat::Ident(i) = &*t.pat {
                    x.env.insert(i.ident.to_string(), kind_of_type(&t.ty));
                }
                paths.visit_type_mut(&mut t.ty);
                let name = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    p => text(p),
                };
                // `mut` parameters of async functions are locals of their own
                if sig.asyncness.is_some() {
                    if let Pat::Ident(i) = &mut *t.pat {
                        if i.mutability.take().is_some() {
                            rebind.push(i.ident.clone());
                        }
                    }
                }
                params.push(json!({"self": false, "name": name, "pat": text(&t.pat), "ty": text(&t.ty)}));
            }
        }
    }
    let mut ret = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    };
    if let Some(t) = &mut ret {
        paths.visit_type_mut(t);
    }
    let mut gen = sig.generics.clone();
    paths.visit_generics_mut(&mut gen);
    let wh = gen.where_clause.take();
    let gp = &gen.params;
    let line = sig.ident.span().start().line;
    let mut b = block.clone();
    let mut lifted = vec![];
    asy::Select { n: 0 }.visit_block_mut(&mut b);
    asy::Waits.visit_block_mut(&mut b);
    let names: Vec<String> = params.iter().filter_map(|p| p["name"].as_str().map(|s| s.to_string())).collect();
    let names = asy::bound(&b, &names);
    asy::Lift { base: sig.ident.to_string(), names, out: &mut lifted }.visit_block_mut(&mut b);
    let end_line = block.brace_token.span.close().start().line;
    x.run(&mut b);
    paths.visit_block_mut(&mut b);
    let mut calls = Calls {
        names: BTreeSet::new(),
        closures: 0,
        unsafe_blocks: 0,
        awaits: 0,
        returns: 0,
        tries: 0,
    };
    calls.visit_block(&b);
    if mut_self {
        SelfLocal.visit_block_mut(&mut b);
        b.stmts.insert(0, parse_quote!(let mut vp_self = self;));
    }
    for i in rebind.iter().rev() {
        b.stmts.insert(0, parse_quote!(let mut #i = #i;));
    }
    let mut l = Loops { n: 0 };
    l.visit_block_mut(&mut b);
    Rets.visit_block_mut(&mut b);
    b.stmts.insert(0, parse_quote!(vp_marker!{start}));
    // name the tail expression, so that proof text can follow it
    let mut pr = print::Printer::default();
    let tail_named = match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => !matches!(
            e,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Return(_)
        ),
        _ => false,
    };
    if !tail_named {
        b.stmts.push(parse_quote!(vp_marker!{end}));
    } else if ret.is_some() {
        if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
            b.stmts.insert(b.stmts.len() - 1, parse_quote!(vp_marker!{tail}));
        }
    }
    pr.print(b.to_token_stream(), true);
    let body: Vec<Value> = pr.finish().into_iter().map(|(t, l)| json!([t, l])).collect();
    let implj = imp.map(|(i, assoc)| {
        let mut g = i.generics.clone();
        paths.visit_generics_mut(&mut g);
        let w = g.where_clause.take();
        let gp = &g.params;
        let mut st = (*i.self_ty).clone();
        paths.visit_type_mut(&mut st);
        let tr = i.trait_.as_ref().map(|(_, p, _)| {
            let mut p = p.clone();
            paths.visit_path_mut(&mut p);
            text(&p)
        });
        json!({"generics": text(&quote!(#gp)), "where": w.map(|w| text(&w)), "self_ty": text(&st),
               "self_name": sname(&i.self_ty), "trait": tr, "assoc": assoc})
    });
    let lifted: Vec<Value> = lifted
        .into_iter()
        .map(|l| {
            let name = Ident::new(&l.name, sig.ident.span());
            let (gi, _, wi) = sig.generics.split_for_impl();
            let gi = quote!(#gi);
            let ps: Vec<Ident> = l.params.iter().map(|p| Ident::new(p, sig.ident.span())).collect();
            let s: Signature = syn::parse2(quote!(async fn #name #gi(#(mut #ps: vp_capture),*) -> vp_capture #wi)).expect("signature");
            do_fn(m, db, cfg, paths, l.name.clone(), &s, &Visibility::Inherited, &l.block, None)
        })
        .collect();
    json!({
        "lifted": lifted,
        "key": key, "name": sig.ident.to_string(), "file": m.file, "line": line, "end_line": end_line,
        "pub": matches!(vis, Visibility::Public(_)),
        "vis": text(vis),
        "async": sig.asyncness.is_some(), "unsafe": sig.unsafety.is_some(),
        "generics": text(&quote!(#gp)), "where": wh.map(|w| text(&w)),
        "params": params, "ret": ret.as_ref().map(text), "impl": implj, "body": body,
        "loops": l.n, "closures": calls.closures, "unsafe_blocks": calls.unsafe_blocks,
        "awaits": calls.awaits, "returns": calls.returns, "tries": calls.tries,
        "calls": calls.names, "world": x.world, "notes": x.notes, "unsupported": x.unsupported,
        "tail": tail_named && ret.is_some(),
    })
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
                Ok(())
            });
        }
    }
    out
}

fn serde_attrs(attrs: &[Attribute]) -> Vec<String> {
    attrs.iter().filter(|a| a.path().is_ident("serde")).map(|a| nospace(&text(a))).collect()
}

struct PubFields;
impl VisitMut for PubFields {
    fn visit_field_mut(&mut self, f: &mut Field) {
        f.vis = parse_quote!(pub);
    }
    fn visit_variant_mut(&mut self, _: &mut Variant) {}
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let conf: Value =
        serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("config")).expect("config json");
    let mut cfg = Cfg::default();
    let strs = |v: &Value| -> BTreeSet<String> {
        v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    };
    cfg.effects = strs(&conf["effects"]);
    if let Some(o) = conf["mod_effects"].as_object() {
        cfg.mod_effects = o.iter().map(|(k, v)| (k.clone(), strs(v))).collect();
    }
    cfg.externs = strs(&conf["externs"]);
    if let Some(o) = conf["path_map"].as_object() {
        cfg.path_map =
            o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect::<BTreeMap<_, _>>();
    }
    let mut mods: Vec<Module> = vec![];
    let mut errors: Vec<String> = vec![];
    for (k, p) in conf["crates"].as_object().expect("crates") {
        cfg.krates.insert(k.clone());
        match load::load(k, std::path::Path::new(p.as_str().unwrap())) {
            Ok(v) => mods.extend(v),
            Err(e) => errors.push(e),
        }
    }
    // helpers without a contract of their own, inlined into their callers
    let mut inlined_notes: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    if let Some(o) = conf["inline"].as_object() {
        let of = |m: &load::Module| -> Vec<inline::Helper> {
            let mut hs: Vec<inline::Helper> = vec![];
            let keys = match o.get(&m.path.join("::")) {
                Some(k) => strs(k),
                None => return hs,
            };
            for it in &m.items {
                match it {
                    Item::Fn(f) if keys.contains(&f.sig.ident.to_string()) => hs.push(inline::Helper {
                        name: f.sig.ident.to_string(), self_ty: None, sig: f.sig.clone(), block: (*f.block).clone() }),
                    Item::Impl(i) if i.trait_.is_none() => {
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                if keys.contains(&format!("{}::{}", sname(&i.self_ty), f.sig.ident)) {
                                    hs.push(inline::Helper { name: f.sig.ident.to_string(), self_ty: Some(sname(&i.self_ty)),
                                        sig: f.sig.clone(), block: f.block.clone() });
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            hs
        };
        let all: Vec<(String, Vec<inline::Helper>)> = mods.iter().map(|m| (m.path.join("::"), of(m))).collect();
        for m in &mut mods {
            let me = m.path.join("::");
            // its own, and those of other modules that mean the same anywhere
            let mut hs: Vec<inline::Helper> = vec![];
            for (n, v) in &all {
                if *n == me {
                    hs.splice(0..0, v.iter().cloned());
                } else {
                    hs.extend(v.iter().filter(|h| inline::movable(h)).cloned());
                }
            }
            if hs.is_empty() {
                continue;
            }
            let mut done = BTreeSet::new();
            let mut go = |name: String, self_ty: Option<String>, sig: &Signature, b: &mut Block| {
                let mut x = inline::Inl { helpers: &hs, self_ty, name, ret: sig.output.clone(), depth: 0, n: 0, done: BTreeSet::new() };
                x.run(b);
                done.extend(x.done);
            };
            for it in &mut m.items {
                match it {
                    Item::Fn(f) => go(f.sig.ident.to_string(), None, &f.sig.clone(), &mut f.block),
                    Item::Impl(i) => {
                        let st = sname(&i.self_ty);
                        for x in &mut i.items {
                            if let ImplItem::Fn(f) = x {
                                go(f.sig.ident.to_string(), Some(st.clone()), &f.sig.clone(), &mut f.block)
                            }
                        }
                    }
                    _ => {}
                }
            }
            inlined_notes.insert(m.path.join("::"), done);
        }
    }
    // database
    let mut db = Db::default();
    for m in &mods {
        for it in &m.items {
            match it {
                Item::Fn(f) => {
                    if let ReturnType::Type(_, t) = &f.sig.output {
                        db.rets.entry(f.sig.ident.to_string()).or_default().push(kind_of_type(t));
                    }
                }
                Item::Impl(i) => {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if let ReturnType::Type(_, t) = &f.sig.output {
                                let mut k = kind_of_type(t);
                                if k == K::Named("Self".into()) {
                                    k = K::Named(sname(&i.self_ty));
                                }
                                db.rets.entry(f.sig.ident.to_string()).or_default().push(k);
                            }
                        }
                    }
                }
                Item::Struct(s) => {
                    let mut fs = HashMap::new();
                    for (i, f) in s.fields.iter().enumerate() {
                        let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                        fs.insert(n, kind_of_type(&f.ty));
                    }
                    db.fields.insert(s.ident.to_string(), fs);
                }
                Item::Enum(en) => {
                    for v in &en.variants {
                        let mut fs = HashMap::new();
                        for (i, f) in v.fields.iter().enumerate() {
                            let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                            fs.insert(n, kind_of_type(&f.ty));
                        }
                        db.fields.insert(format!("{}::{}", en.ident, v.ident), fs);
                    }
                }
                _ => {}
            }
        }
    }
    let mut out = serde_json::Map::new();
    for m in &mods {
        let mut uses = vec![];
        let mut local: HashSet<String> = HashSet::new();
        for it in &m.items {
            match it {
                Item::Use(u) => {
                    let mut l = vec![];
                    use_leaves(&u.tree, vec![], &mut l);
                    for (p, a) in l {
                        let n = a.clone().unwrap_or_else(|| p.last().unwrap().clone());
                        // a `use` of the extern crate's own name does not shadow
                        if !(p.len() == 1) {
                            local.insert(n);
                        }
                        uses.push((p, a, matches!(u.vis, Visibility::Inherited)));
                    }
                }
                _ => {}
            }
        }
        for mm in &mods {
            if mm.path.len() == m.path.len() + 1 && mm.path.starts_with(&m.path) {
                local.insert(mm.path.last().unwrap().clone());
            }
        }
        let mut paths = Paths { cfg: &cfg, krate: m.path[0].clone(), local };
        let usesj: Vec<Value> = uses
            .iter()
            .map(|(p, a, private)| {
                // use paths resolve extern crates even when a local module has that name
                let save = std::mem::take(&mut paths.local);
                let np = paths.map_segs(p).unwrap_or_else(|| p.clone());
                paths.local = save;
                json!({"path": np, "alias": a, "private": private, "orig": p})
            })
            .collect();
        let mut types = vec![];
        let mut consts = vec![];
        let mut fns = vec![];
        let mut impls = vec![];
        let mut unknown = m.unknown.clone();
        for it in &m.items {
            match it {
                Item::Use(_) => {}
                Item::Struct(s) => {
                    let mut t = s.clone();
                    let d = derives(&t.attrs);
                    let sa = serde_attrs(&t.attrs);
                    let fields: Vec<Value> = t
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| {
                            json!({"name": f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()),
                                   "ty": text(&f.ty), "serde": serde_attrs(&f.attrs)})
                        })
                        .collect();
                    PubFields.visit_item_struct_mut(&mut t);
                    paths.visit_item_struct_mut(&mut t);
                    t.vis = parse_quote!(pub);
                    let gp = &t.generics.params;
                    types.push(json!({"kind": "struct", "name": s.ident.to_string(), "derives": d, "serde": sa,
                        "fields": fields, "text": text(&t), "generics": text(&quote!(#gp)),
                        "where": t.generics.where_clause.as_ref().map(text),
                        "line": s.ident.span().start().line}));
                }
                Item::Enum(e) => {
                    let mut t = e.clone();
                    let d = derives(&t.attrs);
                    let froms: Vec<Value> = e
                        .variants
                        .iter()
                        .filter_map(|v| match &v.fields {
                            Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                                let f = &u.unnamed[0];
                                if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                                    let mut ty = f.ty.clone();
                                    paths.visit_type_mut(&mut ty);
                                    Some(json!({"variant": v.ident.to_string(), "ty": text(&ty)}))
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        })
                        .collect();
                    let unit = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                    let vars: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
                    paths.visit_item_enum_mut(&mut t);
                    t.vis = parse_quote!(pub);
                    let gp = &t.generics.params;
                    types.push(json!({"kind": "enum", "name": e.ident.to_string(), "derives": d, "froms": froms,
                        "unit": unit, "variants": vars, "text": text(&t), "generics": text(&quote!(#gp)),
                        "where": t.generics.where_clause.as_ref().map(text),
                        "line": e.ident.span().start().line}));
                }
                Item::Type(t) => {
                    let n = t.ident.to_string();
                    let mut t = t.clone();
                    paths.visit_item_type_mut(&mut t);
                    t.vis = parse_quote!(pub);
                    types.push(json!({"kind": "type", "name": n, "text": text(&t), "derives": []}));
                }
                Item::Const(c) => {
                    let n = c.ident.to_string();
                    let mut c = c.clone();
                    c.attrs.clear();
                    paths.visit_item_const_mut(&mut c);
                    c.vis = parse_quote!(pub);
                    consts.push(json!({"name": n, "text": text(&c), "ty": text(&c.ty), "value": text(&c.expr)}));
                }
                Item::Fn(f) => {
                    let key = f.sig.ident.to_string();
                    fns.push(do_fn(m, &db, &cfg, &mut paths, key, &f.sig, &f.vis, &f.block, None));
                }
                Item::Impl(i) => {
                    let mut st = (*i.self_ty).clone();
                    paths.visit_type_mut(&mut st);
                    let assoc: Vec<(String, String)> = i
                        .items
                        .iter()
                        .filter_map(|x| match x {
                            ImplItem::Type(t) => {
                                let mut ty = t.ty.clone();
                                paths.visit_type_mut(&mut ty);
                                Some((t.ident.to_string(), text(&ty)))
                            }
                            _ => None,
                        })
                        .collect();
                    let prefix = match &i.trait_ {
                        Some((_, p, _)) => {
                            format!("{} for {}", nospace(&text(p.segments.last().unwrap())), nospace(&text(&i.self_ty)))
                        }
                        None => sname(&i.self_ty),
                    };
                    impls.push(json!({"prefix": prefix, "fns": i.items.iter().filter_map(|x| match x {
                        ImplItem::Fn(f) => Some(f.sig.ident.to_string()), _ => None}).collect::<Vec<_>>()}));
                    for x in &i.items {
                        match x {
                            ImplItem::Fn(f) => {
                                let key = format!("{}::{}", prefix, f.sig.ident);
                                fns.push(do_fn(
                                    m, &db, &cfg, &mut paths, key, &f.sig, &f.vis, &f.block,
                                    Some((i, assoc.clone())),
                                ));
                            }
                            ImplItem::Type(_) => {}
                            ImplItem::Const(_) => unknown.push(format!("assoc const in {}", prefix)),
                            _ => unknown.push(format!("item in {}", prefix)),
                        }
                    }
                }
                Item::ExternCrate(_) => {}
                other => unknown.push(format!("item: {}", text(other).chars().take(60).collect::<String>())),
            }
        }
        let lazies: Vec<Value> = m
            .lazies
            .iter()
            .map(|l| {
                let mut lits = vec![];
                struct L<'a>(&'a mut Vec<String>);
                impl<'a, 'b> Visit<'b> for L<'a> {
                    fn visit_lit_str(&mut self, s: &'b LitStr) {
                        self.0.push(s.value())
                    }
                }
                L(&mut lits).visit_expr(&l.init);
                json!({"name": l.name, "ty": text(&l.ty), "init": text(&l.init), "literals": lits})
            })
            .collect();
        out.insert(
            m.path.join("::"),
            json!({"file": m.file, "uses": usesj, "types": types, "consts": consts, "fns": fns,
                   "impls": impls, "lazies": lazies, "unknown": unknown,
                   "inlined": inlined_notes.get(&m.path.join("::"))}),
        );
    }
    let v = json!({"modules": out, "errors": errors});
    std::fs::write(&args[2], serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

/// early exits get an anchor of their own, so that what is shown at the end of the body is shown there too
struct Rets;
impl VisitMut for Rets {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_async_mut(&mut self, _: &mut ExprAsync) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let ret = matches!(&s, Stmt::Expr(Expr::Return(_), _));
            self.visit_stmt_mut(&mut s);
            match s {
                // (a block would be taken for part of a loop before it)
                Stmt::Expr(Expr::Block(x), _) if ret => out.extend(x.block.stmts),
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            *e = match &r.expr {
                Some(v) if !matches!(&**v, Expr::Path(p) if p.path.is_ident("vp_rv")) => parse_quote!({ let vp_rv = #v; vp_marker!{ret} return vp_rv; }),
                None => parse_quote!({ vp_marker!{ret} return; }),
                _ => return,
            };
        }
    }
}
