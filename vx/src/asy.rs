//! `select!` and async blocks.
//! A `select!` becomes an awaited call of a stub that yields which arm completed, and a match on it (futures are
//! created in the order of the arms, a future given by name is borrowed, the others are dropped before the arm runs:
//! as in the macro).  An async block becomes a function of its own, over the variables it captures; in its place stands
//! a call that makes the task.
use quote::quote;
use std::collections::BTreeSet;
use syn::parse::{Parse, ParseStream, Parser};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Arm {
    pat: Pat,
    fut: Expr,
    body: Expr,
}

impl Parse for Arm {
    fn parse(i: ParseStream) -> Result<Self> {
        let pat = Pat::parse_multi_with_leading_vert(i)?;
        i.parse::<Token![=]>()?;
        let fut: Expr = i.parse()?;
        i.parse::<Token![=>]>()?;
        let body = Expr::parse_with_earlier_boundary_rule(i)?;
        let _: Option<Token![,]> = i.parse()?;
        Ok(Arm { pat, fut, body })
    }
}

fn arms(t: proc_macro2::TokenStream) -> Option<Vec<Arm>> {
    (|i: ParseStream| {
        let mut v = vec![];
        while !i.is_empty() {
            v.push(i.parse()?);
        }
        Ok(v)
    })
    .parse2(t)
    .ok()
}

fn is_select(m: &Macro) -> bool {
    m.path.segments.last().map(|s| s.ident == "select" || s.ident == "select_biased").unwrap_or(false)
}

pub struct Select {
    pub n: usize,
}
impl Select {
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let v = arms(m.tokens.clone())?;
        if v.len() < 2 || v.len() > 4 {
            return None;
        }
        let k = self.n;
        self.n += 1;
        let sel = Ident::new(&format!("vp_sel{}", k), proc_macro2::Span::call_site());
        let f = Ident::new(&format!("vp_select{}", v.len()), proc_macro2::Span::call_site());
        let ty = Ident::new(&format!("Sel{}", v.len()), proc_macro2::Span::call_site());
        let mut futs = vec![];
        let mut ms = vec![];
        for (i, a) in v.iter().enumerate() {
            let (fut, pat, body) = (&a.fut, &a.pat, &a.body);
            futs.push(match fut {
                Expr::Path(_) => quote!(&mut #fut),
                _ => quote!(&mut (#fut)),
            });
            let c = Ident::new(&format!("A{}", i), proc_macro2::Span::call_site());
            ms.push(quote!(#ty::#c(#pat) => #body,));
        }
        let (pre, post) = (Ident::new(&format!("presel{}", k), proc_macro2::Span::call_site()), Ident::new(&format!("sel{}", k), proc_macro2::Span::call_site()));
        syn::parse2(quote!({ vp_marker!{#pre} let #sel = #f(#(#futs),*).await; vp_marker!{#post} match #sel { #(#ms)* } })).ok()
    }
}
impl VisitMut for Select {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if is_select(&m.mac) {
                if let Some(e) = self.expand(&m.mac) {
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if is_select(&m.mac) {
                if let Some(n) = self.expand(&m.mac) {
                    *e = Expr::Paren(parse_quote!((#n)));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// awaiting a value of a library's future type: a call of its own
pub struct Waits;
impl VisitMut for Waits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Await(a) = e {
            let lib = match &*a.base {
                Expr::MethodCall(m) => m.method == "next" || m.method == "fuse",
                Expr::Path(_) | Expr::Field(_) => true,
                _ => false,
            };
            if lib {
                let b = &a.base;
                *e = parse_quote!(#b.vp_wait().await);
            }
        }
    }
}

struct Bound<'x>(&'x mut BTreeSet<String>);
impl<'x, 'a> Visit<'a> for Bound<'x> {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
}
struct Used(BTreeSet<String>);
impl<'a> Visit<'a> for Used {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.insert(i.to_string());
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn walk(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
            for t in t {
                match t {
                    proc_macro2::TokenTree::Ident(i) => {
                        out.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                    _ => {}
                }
            }
        }
        // formatting of log messages is dropped, so it captures nothing
        if m.path.segments.first().map(|s| s.ident == "log").unwrap_or(false) {
            return;
        }
        walk(m.tokens.clone(), &mut self.0);
    }
}

pub struct Lifted {
    pub name: String,
    pub params: Vec<String>,
    pub block: Block,
}

pub struct Lift<'x> {
    pub base: String,
    pub names: BTreeSet<String>,
    pub out: &'x mut Vec<Lifted>,
}
impl<'x> VisitMut for Lift<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Async(a) = e {
            let mut u = Used(BTreeSet::new());
            u.visit_block(&a.block);
            let caps: Vec<String> = u.0.intersection(&self.names).cloned().collect();
            let name = format!("{}_async{}", self.base, self.out.len());
            self.out.push(Lifted { name: name.clone(), params: caps.clone(), block: a.block.clone() });
            let f = Ident::new(&format!("{}_task", name), proc_macro2::Span::call_site());
            let c: Vec<Ident> = caps.iter().map(|c| Ident::new(c, proc_macro2::Span::call_site())).collect();
            *e = parse_quote!(#f(#(#c),*));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn bound(b: &Block, params: &[String]) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = params.iter().cloned().collect();
    Bound(&mut s).visit_block(b);
    s
}
