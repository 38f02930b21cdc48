//! Inlines helper functions that have no contract of their own into their callers (same module only), so that the
//! callers' contracts are still decided by the code that runs.  A call is replaced only where that cannot change what
//! happens: the helper has no early exits, or its early exits are exits of the caller too, or they can be turned into
//! branches.
use crate::load::text;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub name: String,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

/// method names too common to be told apart without types
const COMMON: &[&str] = &[
    "new", "len", "get", "get_mut", "push", "pop", "insert", "remove", "is_empty", "iter", "clone", "next", "take", "add", "send", "close",
    "contains", "clear", "finish", "from", "into", "map", "set", "call", "drain", "extend", "find", "first", "last", "replace", "write", "read",
];

pub fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn mentions(t: &impl ToTokens, n: &str) -> bool {
    let mut s = BTreeSet::new();
    idents(t.to_token_stream(), &mut s);
    s.contains(n)
}

/// refers to nothing but its parameters, its own locals and the language: it can be moved to any module
pub fn movable(h: &Helper) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_path(&mut self, p: &'a Path) {
            let n = match p.segments.len() {
                1 => p.segments[0].ident.to_string(),
                _ => {
                    self.0 = false;
                    return;
                }
            };
            let known = ["Some", "None", "Ok", "Err", "String", "Vec", "Option", "Result", "Box", "Range"];
            self.0 &= known.contains(&n.as_str()) || n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false);
            visit::visit_path(self, p)
        }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0 &= ["Some", "Ok", "Err"].iter().any(|n| p.path.is_ident(n));
            }
            visit::visit_expr_call(self, c)
        }
        fn visit_macro(&mut self, _: &'a Macro) {
            self.0 = false
        }
    }
    let mut v = V(true);
    v.visit_block(&h.block);
    v.0
}

struct Exits {
    tries: usize,
    returns: Vec<Option<Expr>>,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.returns.push(r.expr.as_ref().map(|e| (**e).clone()));
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, t)
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn exits_block(b: &Block) -> Exits {
    let mut x = Exits { tries: 0, returns: vec![] };
    x.visit_block(b);
    x
}
fn exits_expr(b: &Expr) -> bool {
    let mut x = Exits { tries: 0, returns: vec![] };
    x.visit_expr(b);
    x.tries > 0 || !x.returns.is_empty()
}
fn exits_stmt(b: &Stmt) -> bool {
    let mut x = Exits { tries: 0, returns: vec![] };
    x.visit_stmt(b);
    x.tries > 0 || !x.returns.is_empty()
}

/// the error type of `Result<_, E>`; "None" for an Option
fn err_type(r: &ReturnType) -> Option<String> {
    if let ReturnType::Type(_, t) = r {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last()?;
            if s.ident == "Option" {
                return Some("None".into());
            }
            if s.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    return a.args.iter().nth(1).map(text).or(Some("Result".into()));
                }
                return Some(text(&p.path));
            }
        }
    }
    None
}

// ------------------------------------------------------------------ early exits as branches
fn as_block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => parse_quote!({ #e }),
    }
}
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::Block(x), _)) => diverges(&x.block),
        Some(Stmt::Expr(Expr::If(i), _)) => {
            diverges(&i.then_branch) && i.else_branch.as_ref().map(|(_, e)| diverges(&as_block(e))).unwrap_or(false)
        }
        Some(Stmt::Expr(Expr::Match(m), _)) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges(&as_block(&a.body))),
        _ => false,
    }
}
/// the value of the block as an expression without `return`
fn elim(stmts: &[Stmt]) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !exits_stmt(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    if exits_expr(e) {
                        return None;
                    }
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(Expr::If(f), semi) => {
                if exits_expr(&f.cond) {
                    return None;
                }
                let last = rest.is_empty() && semi.is_none();
                let then = if diverges(&f.then_branch) || last { elim(&f.then_branch.stmts)? } else { return with_rest(out, f, rest) };
                let els = match &f.else_branch {
                    None => elim(rest)?,
                    Some((_, e)) => {
                        let b = as_block(e);
                        let mut v = b.stmts.clone();
                        if !diverges(&b) && !last {
                            if matches!(v.last(), Some(Stmt::Expr(_, None))) {
                                return None;
                            }
                            v.extend(rest.iter().cloned());
                        }
                        elim(&v)?
                    }
                };
                let c = &f.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #then else #els), None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(Expr::Match(m), None) if rest.is_empty() => {
                let mut m = m.clone();
                if exits_expr(&m.expr) {
                    return None;
                }
                for a in &mut m.arms {
                    let b = elim(&as_block(&a.body).stmts)?;
                    a.body = parse_quote!(#b);
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Expr(Expr::Block(b), None) if rest.is_empty() && b.label.is_none() => {
                let b = elim(&b.block.stmts)?;
                out.push(Stmt::Expr(parse_quote!(#b), None));
                return Some(Block { brace_token: Default::default(), stmts: out });
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let e = &init.expr;
                let p = &l.pat;
                if let Some((_, d)) = &init.diverge {
                    if exits_expr(e) {
                        return None;
                    }
                    let d = elim(&as_block(d).stmts)?;
                    let r = elim(rest)?;
                    out.push(Stmt::Expr(parse_quote!(match #e { #p => #r, _ => #d }), None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                if let Expr::Match(m) = &**e {
                    if exits_expr(&m.expr) {
                        return None;
                    }
                    let mut m = m.clone();
                    let live = m.arms.iter().filter(|a| !diverges_expr(&a.body)).count();
                    if live != 1 {
                        return None;
                    }
                    for a in &mut m.arms {
                        let b = if diverges_expr(&a.body) {
                            elim(&as_block(&a.body).stmts)?
                        } else {
                            let v = &a.body;
                            let mut st: Vec<Stmt> = vec![parse_quote!(let #p = #v;)];
                            st.extend(rest.iter().cloned());
                            elim(&st)?
                        };
                        a.body = parse_quote!(#b);
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                return None;
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}
fn diverges_expr(e: &Expr) -> bool {
    matches!(e, Expr::Return(_)) || matches!(e, Expr::Block(b) if diverges(&b.block))
}
/// `if c { .. may return .. } rest` where the branch falls through: the rest is copied into both branches
fn with_rest(mut out: Vec<Stmt>, f: &ExprIf, rest: &[Stmt]) -> Option<Block> {
    if rest.len() > 6 {
        return None;
    }
    let mut a = f.then_branch.stmts.clone();
    if matches!(a.last(), Some(Stmt::Expr(_, None))) {
        return None;
    }
    a.extend(rest.iter().cloned());
    let a = elim(&a)?;
    let mut b = match &f.else_branch {
        None => vec![],
        Some((_, e)) => as_block(e).stmts,
    };
    b.extend(rest.iter().cloned());
    let b = elim(&b)?;
    let c = &f.cond;
    out.push(Stmt::Expr(parse_quote!(if #c #a else #b), None));
    Some(Block { brace_token: Default::default(), stmts: out })
}

// ------------------------------------------------------------------ the calls
struct SelfTo(Ident);
impl VisitMut for SelfTo {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = self.0.clone().into();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn sub(t: TokenStream, n: &Ident) -> TokenStream {
            t.into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) if i == "self" => n.clone().into(),
                    TokenTree::Group(g) => proc_macro2::Group::new(g.delimiter(), sub(g.stream(), n)).into(),
                    t => t,
                })
                .collect()
        }
        m.tokens = sub(m.tokens.clone(), &self.0);
    }
}
struct NoLifetimes;
impl VisitMut for NoLifetimes {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime = None;
        visit_mut::visit_type_reference_mut(self, t)
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident != "static" {
            l.ident = Ident::new("_", l.ident.span());
        }
    }
}
/// the type as it can be written in another function, if it can
fn portable(t: &Type, h: &Helper) -> Option<Type> {
    let mut t = t.clone();
    if matches!(t, Type::ImplTrait(_)) || t.to_token_stream().to_string().contains("impl ") {
        return None;
    }
    for p in &h.sig.generics.params {
        if let GenericParam::Type(p) = p {
            if mentions(&t, &p.ident.to_string()) {
                return None;
            }
        }
    }
    NoLifetimes.visit_type_mut(&mut t);
    Some(t)
}

#[derive(Clone, Copy, PartialEq)]
enum At {
    Tail,
    Try,
    Inner,
}

pub struct Inl<'h> {
    pub helpers: &'h [Helper],
    pub self_ty: Option<String>,
    pub name: String,
    pub ret: ReturnType,
    pub depth: usize,
    pub n: usize,
    /// helpers that were inlined
    pub done: BTreeSet<String>,
}

impl<'h> Inl<'h> {
    /// the helper called, with its receiver and its arguments
    fn target(&self, e: &Expr) -> Option<(&'h Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let h = self.by_path(p)?;
                let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if h.sig.receiver().is_some() { if a.is_empty() { return None } else { Some(a.remove(0)) } } else { None };
                // `f(&mut x)` as a method call: the receiver is the place itself
                let recv = match recv {
                    Some(Expr::Reference(r)) => Some(*r.expr),
                    r => r,
                };
                Some((h, recv, a))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let mut c = self.helpers.iter().filter(|h| h.name == n && h.sig.receiver().is_some());
                let h = c.next()?;
                let on_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                if c.next().is_some() && !on_self {
                    return None;
                }
                let h = if on_self {
                    self.helpers.iter().find(|h| h.name == n && h.sig.receiver().is_some() && h.self_ty == self.self_ty)?
                } else {
                    if COMMON.contains(&n.as_str()) {
                        return None;
                    }
                    h
                };
                Some((h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn by_path(&self, p: &Path) -> Option<&'h Helper> {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let (ty, n) = match s.len() {
            1 => (None, s[0].clone()),
            2 if s[0] == "Self" => (Some(self.self_ty.clone()?), s[1].clone()),
            2 if s[0] == "self" || s[0] == "super" => (None, s[1].clone()),
            2 if s[0].starts_with(|c: char| c.is_uppercase()) => (Some(s[0].clone()), s[1].clone()),
            k => (None, s[k - 1].clone()),
        };
        self.helpers.iter().find(|h| h.name == n && h.self_ty == ty)
    }

    fn expand(&mut self, e: &Expr, at: At, awaited: bool) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        let (h, recv, args) = self.target(e)?;
        if h.name == self.name && h.self_ty == self.self_ty {
            return None;
        }
        if h.sig.asyncness.is_some() != awaited || h.sig.unsafety.is_some() {
            return None;
        }
        // a helper that calls itself stays a call
        struct Rec<'x>(&'x str, bool);
        impl<'x, 'a> Visit<'a> for Rec<'x> {
            fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                self.1 |= m.method == self.0;
                visit::visit_expr_method_call(self, m)
            }
            fn visit_expr_path(&mut self, p: &'a ExprPath) {
                self.1 |= p.path.segments.last().map(|s| s.ident == self.0).unwrap_or(false);
            }
        }
        let mut rec = Rec(&h.name, false);
        rec.visit_block(&h.block);
        if rec.1 {
            return None;
        }
        if h.self_ty != self.self_ty && mentions(&h.block, "Self") {
            return None;
        }
        let x = exits_block(&h.block);
        let any = x.tries > 0 || !x.returns.is_empty();
        let mut block = h.block.clone();
        let same_ret = match (&h.sig.output, &self.ret) {
            (ReturnType::Default, ReturnType::Default) => true,
            (ReturnType::Type(_, a), ReturnType::Type(_, b)) => text(a) == text(b),
            _ => false,
        };
        if any {
            let only_failures = x.returns.iter().all(|r| match r {
                Some(Expr::Call(c)) => c.func.to_token_stream().to_string() == "Err",
                Some(Expr::Path(p)) => p.path.is_ident("None"),
                _ => false,
            });
            let et = err_type(&h.sig.output);
            if at == At::Tail && same_ret {
            } else if at == At::Try && only_failures && et.is_some() && et == err_type(&self.ret) {
            } else {
                block = elim(&block.stmts)?;
            }
        }
        // parameters
        let mut pre: Vec<Stmt> = vec![];
        let mut pats: Vec<(Pat, Type)> = vec![];
        for a in &h.sig.inputs {
            if let FnArg::Typed(t) = a {
                pats.push(((*t.pat).clone(), (*t.ty).clone()));
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        if let Some(r) = &recv {
            let rc = h.sig.receiver()?;
            let on_self = matches!(r, Expr::Path(p) if p.path.is_ident("self"));
            if rc.colon_token.is_some() {
                return None;
            }
            if !on_self || (rc.reference.is_none() && rc.mutability.is_some()) {
                let v = quote::format_ident!("vp_r{}", self.n);
                self.n += 1;
                SelfTo(v.clone()).visit_block_mut(&mut block);
                pre.push(match (&rc.reference, rc.mutability.is_some()) {
                    (Some(_), true) => parse_quote!(let #v = &mut #r;),
                    (Some(_), false) => parse_quote!(let #v = &#r;),
                    (None, true) => parse_quote!(let mut #v = #r;),
                    (None, false) => parse_quote!(let #v = #r;),
                });
            }
        }
        let same = |p: &Pat, a: &Expr| match (p, a) {
            (Pat::Ident(i), Expr::Path(q)) => i.mutability.is_none() && i.by_ref.is_none() && q.path.is_ident(&i.ident),
            _ => false,
        };
        let mut clash = false;
        for (i, (p, _)) in pats.iter().enumerate() {
            let mut s = BTreeSet::new();
            idents(p.to_token_stream(), &mut s);
            for a in args.iter().skip(i + 1) {
                clash |= s.iter().any(|n| n != "mut" && n != "ref" && mentions(a, n)) && !same(p, &args[i]);
            }
        }
        let bind = |p: &Pat, t: &Type, a: &Expr| -> Stmt {
            match portable(t, h) {
                Some(t) => parse_quote!(let #p: #t = #a;),
                None => parse_quote!(let #p = #a;),
            }
        };
        if !clash {
            for ((p, t), a) in pats.iter().zip(&args) {
                if !same(p, a) {
                    pre.push(bind(p, t, a));
                }
            }
        } else {
            let mut post = vec![];
            for ((p, t), a) in pats.iter().zip(&args) {
                let v = quote::format_ident!("vp_a{}", self.n);
                self.n += 1;
                pre.push(bind(&parse_quote!(#v), t, a));
                post.push(parse_quote!(let #p = #v;));
            }
            pre.extend(post);
        }
        // helpers that call helpers
        let mut inner = Inl {
            helpers: self.helpers,
            self_ty: self.self_ty.clone(),
            name: self.name.clone(),
            ret: if at == At::Tail && same_ret { self.ret.clone() } else { ReturnType::Default },
            depth: self.depth + 1,
            n: self.n,
            done: BTreeSet::new(),
        };
        if at == At::Tail && same_ret {
            inner.run(&mut block);
        } else {
            inner.visit_block_mut(&mut block);
        }
        self.n = inner.n;
        self.done.extend(inner.done);
        self.done.insert(h.name.clone());
        let bs = &block.stmts;
        if at != At::Tail {
            if let ReturnType::Type(_, t) = &h.sig.output {
                if let (Some(t), true) = (portable(t, h), !mentions(t, "_")) {
                    if !pre.is_empty() || bs.len() > 1 || any {
                        let v = quote::format_ident!("vp_ret{}", self.n);
                        self.n += 1;
                        return Some(parse_quote!({ #(#pre)* let #v: #t = { #(#bs)* }; #v }));
                    }
                }
            }
        }
        Some(parse_quote!({ #(#pre)* #(#bs)* }))
    }

    /// the expression whose value is the function's
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x)
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.tail(&mut a.body)
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x)
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(n) = self.expand(e, At::Tail, false) {
                    *e = n;
                }
            }
            Expr::Await(a) => {
                if let Some(n) = self.expand(&a.base, At::Tail, true) {
                    *e = n;
                }
            }
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        match b.stmts.last_mut() {
            Some(Stmt::Expr(e, None)) => self.tail(e),
            Some(Stmt::Expr(e @ Expr::Return(_), Some(_))) => self.tail(e),
            // a unit function's last statement
            Some(Stmt::Expr(e @ (Expr::Call(_) | Expr::MethodCall(_) | Expr::If(_) | Expr::Match(_)), Some(_))) if matches!(self.ret, ReturnType::Default) => self.tail(e),
            _ => {}
        }
    }
    pub fn run(&mut self, b: &mut Block) {
        struct Rets<'x, 'h>(&'x mut Inl<'h>);
        impl<'x, 'h> VisitMut for Rets<'x, 'h> {
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                if let Some(e) = &mut r.expr {
                    self.0.tail(e);
                }
                visit_mut::visit_expr_return_mut(self, r);
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_async_mut(&mut self, _: &mut ExprAsync) {}
        }
        self.tail_block(b);
        Rets(self).visit_block_mut(b);
        self.visit_block_mut(b);
    }
}
impl<'h> VisitMut for Inl<'h> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let r = std::mem::replace(&mut self.ret, ReturnType::Default);
        visit_mut::visit_expr_closure_mut(self, c);
        self.ret = r;
    }
    fn visit_expr_async_mut(&mut self, c: &mut ExprAsync) {
        let r = std::mem::replace(&mut self.ret, ReturnType::Default);
        visit_mut::visit_expr_async_mut(self, c);
        self.ret = r;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let n = match &*t.expr {
                Expr::Await(a) => self.expand(&a.base, At::Try, true),
                x => self.expand(x, At::Try, false),
            };
            if let Some(n) = n {
                t.expr = parse_quote!((#n));
            }
        }
        // a helper given as a function value
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a {
                    if p.qself.is_none() {
                        if let Some(h) = self.by_path(&p.path) {
                            let n = h.sig.inputs.len();
                            let v: Vec<Ident> = (0..n).map(|i| quote::format_ident!("vp_x{}", i)).collect();
                            let f = p.clone();
                            *a = parse_quote!(|#(#v),*| #f(#(#v),*));
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let n = match e {
            Expr::Await(a) => self.expand(&a.base, At::Inner, true),
            Expr::Call(_) | Expr::MethodCall(_) => self.expand(e, At::Inner, false),
            _ => None,
        };
        if let Some(n) = n {
            *e = parse_quote!((#n));
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        // `(block);` as a statement
        if let Stmt::Expr(Expr::Paren(p), _) = s {
            if matches!(&*p.expr, Expr::Block(_)) {
                if let Stmt::Expr(Expr::Paren(p), semi) = s {
                    *s = Stmt::Expr((*p.expr).clone(), *semi);
                }
            }
        }
    }
}
