//! Loads a crate's module tree, drops test-only items and expands item-level macros.
use crate::mac::{parse_rules, Macros};
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::path::{Path, PathBuf};
use syn::parse::{ParseStream, Parser};
use syn::*;

pub struct Module {
    pub path: Vec<String>,
    pub file: String,
    pub items: Vec<Item>,
    pub lazies: Vec<Lazy>,
    pub unknown: Vec<String>,
}
pub struct Lazy {
    pub name: String,
    pub ty: Type,
    pub init: Expr,
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg")
                && a.meta
                    .require_list()
                    .map(|l| l.tokens.to_string() == "test")
                    .unwrap_or(false))
    })
}

pub fn load(krate: &str, root: &Path) -> std::result::Result<Vec<Module>, String> {
    let mut out = vec![];
    let mut macros = Macros::default();
    let dir = root.parent().unwrap().to_path_buf();
    go(vec![krate.to_string()], root, &dir, &mut macros, &mut out)?;
    Ok(out)
}

fn go(
    path: Vec<String>,
    file: &Path,
    dir: &PathBuf,
    macros: &mut Macros,
    out: &mut Vec<Module>,
) -> std::result::Result<(), String> {
    let src = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let f = syn::parse_file(&src).map_err(|e| format!("{}: {}", file.display(), e))?;
    items(path, file, dir, f.items, macros, out)
}

fn items(
    path: Vec<String>,
    file: &Path,
    dir: &PathBuf,
    list: Vec<Item>,
    macros: &mut Macros,
    out: &mut Vec<Module>,
) -> std::result::Result<(), String> {
    let mut m = Module {
        path: path.clone(),
        file: file.display().to_string(),
        items: vec![],
        lazies: vec![],
        unknown: vec![],
    };
    let mut subs: Vec<ItemMod> = vec![];
    // macro definitions first: textual scoping is a superset of what we need
    for it in &list {
        if let Item::Macro(mm) = it {
            if mm.mac.path.is_ident("macro_rules") && !is_test(&mm.attrs) {
                if let (Some(id), Some(r)) = (&mm.ident, parse_rules(mm.mac.tokens.clone())) {
                    macros.rules.insert(id.to_string(), r);
                }
            }
        }
    }
    let mut queue: std::collections::VecDeque<(Item, usize)> =
        list.into_iter().map(|i| (i, 0)).collect();
    let mut local = vec![];
    while let Some((it, depth)) = queue.pop_front() {
        match it {
            Item::Mod(md) => {
                if !is_test(&md.attrs) {
                    subs.push(md)
                }
            }
            Item::Macro(mm) => {
                if is_test(&mm.attrs) || mm.mac.path.is_ident("macro_rules") {
                    continue;
                }
                let name = mm.mac.path.segments.last().unwrap().ident.to_string();
                if name == "lazy_static" {
                    lazies(mm.mac.tokens.clone(), &mut m);
                    continue;
                }
                if depth > 20 {
                    m.unknown.push(name);
                    continue;
                }
                match macros
                    .expand(&name, mm.mac.tokens.clone())
                    .and_then(|t| syn::parse2::<File>(t).ok())
                {
                    Some(f) => {
                        for x in f.items.into_iter().rev() {
                            queue.push_front((x, depth + 1));
                        }
                    }
                    None => m.unknown.push(name),
                }
            }
            Item::Impl(mut im) => {
                if is_test(&im.attrs) {
                    continue;
                }
                im.items = impl_items(im.items, macros, &mut m.unknown, 0);
                local.push(Item::Impl(im));
            }
            Item::Fn(f) if is_test(&f.attrs) => {}
            Item::Use(f) if is_test(&f.attrs) => {}
            Item::Struct(f) if is_test(&f.attrs) => {}
            Item::Enum(f) if is_test(&f.attrs) => {}
            Item::Const(f) if is_test(&f.attrs) => {}
            i => local.push(i),
        }
    }
    m.items = local;
    out.push(m);
    for md in subs {
        let mut p = path.clone();
        p.push(md.ident.to_string());
        if let Some((_, content)) = md.content {
            items(p, file, &dir.join(md.ident.to_string()), content, macros, out)?;
        } else {
            let a = dir.join(format!("{}.rs", md.ident));
            let b = dir.join(md.ident.to_string()).join("mod.rs");
            let f = if a.exists() { a } else { b };
            go(p, &f, &dir.join(md.ident.to_string()), macros, out)?;
        }
    }
    Ok(())
}

fn impl_items(
    list: Vec<ImplItem>,
    macros: &Macros,
    unknown: &mut Vec<String>,
    depth: usize,
) -> Vec<ImplItem> {
    let mut out = vec![];
    for it in list {
        match it {
            ImplItem::Macro(mm) => {
                let name = mm.mac.path.segments.last().unwrap().ident.to_string();
                let e = if depth > 20 {
                    None
                } else {
                    macros.expand(&name, mm.mac.tokens.clone())
                };
                let parsed = e.and_then(|t| {
                    (|i: ParseStream| {
                        let mut v: Vec<ImplItem> = vec![];
                        while !i.is_empty() {
                            v.push(i.parse()?);
                        }
                        Ok(v)
                    })
                    .parse2(t)
                    .ok()
                });
                match parsed {
                    Some(v) => out.extend(impl_items(v, macros, unknown, depth + 1)),
                    None => unknown.push(name),
                }
            }
            ImplItem::Fn(f) if is_test(&f.attrs) => {}
            i => out.push(i),
        }
    }
    out
}

fn lazies(t: TokenStream, m: &mut Module) {
    let r = (|i: ParseStream| {
        let mut v = vec![];
        while !i.is_empty() {
            let _ = i.call(Attribute::parse_outer)?;
            let _: Visibility = i.parse()?;
            i.parse::<Token![static]>()?;
            i.parse::<Token![ref]>()?;
            let name: Ident = i.parse()?;
            i.parse::<Token![:]>()?;
            let ty: Type = i.parse()?;
            i.parse::<Token![=]>()?;
            let init: Expr = i.parse()?;
            i.parse::<Token![;]>()?;
            v.push(Lazy {
                name: name.to_string(),
                ty,
                init,
            });
        }
        Ok(v)
    })
    .parse2(t);
    match r {
        Ok(v) => m.lazies.extend(v),
        Err(_) => m.unknown.push("lazy_static".into()),
    }
}

pub fn text(t: &impl ToTokens) -> String {
    crate::print::one_line(t.to_token_stream())
}
