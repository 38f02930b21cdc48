//! Rewrites function bodies into the subset of Rust that Verus accepts.  Every rewrite is
//! semantics-preserving Rust-to-Rust except those recorded in `notes` as dropped.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Opt,
    Res,
    Iter,
    Vec,
    Named(String),
    Unknown,
}

#[derive(Default)]
pub struct Db {
    /// simple fn name -> return kinds of all crate functions with that name
    pub rets: HashMap<String, Vec<K>>,
    /// struct name -> field -> kind
    pub fields: HashMap<String, HashMap<String, K>>,
    /// tuple-like constructors (enum variants with exactly one unnamed field, tuple structs)
    pub ctors: BTreeSet<String>,
}

#[derive(Default, Clone)]
pub struct Cfg {
    pub effects: BTreeSet<String>,
    /// effects known in one module only
    pub mod_effects: BTreeMap<String, BTreeSet<String>>,
    pub path_map: BTreeMap<String, String>,
    pub externs: BTreeSet<String>,
    pub krates: BTreeSet<String>,
}

pub fn kind_of_type(t: &Type) -> K {
    match t {
        Type::Reference(r) => kind_of_type(&r.elem),
        Type::Paren(p) => kind_of_type(&p.elem),
        Type::Group(p) => kind_of_type(&p.elem),
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap().ident.to_string();
            match s.as_str() {
                "Option" => K::Opt,
                "Result" => K::Res,
                "Vec" => K::Vec,
                _ => K::Named(s),
            }
        }
        Type::ImplTrait(t) => {
            let s = t.to_token_stream().to_string();
            if s.contains("Iterator") {
                K::Iter
            } else {
                K::Unknown
            }
        }
        Type::Slice(_) | Type::Array(_) => K::Vec,
        _ => K::Unknown,
    }
}

pub struct X<'a> {
    pub db: &'a Db,
    pub cfg: &'a Cfg,
    pub env: HashMap<String, K>,
    pub self_ty: Option<String>,
    pub notes: BTreeSet<String>,
    pub unsupported: BTreeSet<String>,
    pub tmp: HashMap<String, usize>,
    pub world: bool,
    pub module: String,
}

fn pat_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

fn strip_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

pub fn is_block_like(e: &Expr) -> bool {
    matches!(
        e,
        Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Unsafe(_)
    )
}

/// contains `return` or `?` (outside nested closures)
pub fn escapes(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

impl<'a> X<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        let n = self.tmp.entry(p.to_string()).or_insert(0);
        let k = *n;
        *n += 1;
        Ident::new(&format!("vp_{}{}", p, k), proc_macro2::Span::call_site())
    }

    pub fn kind(&self, e: &Expr) -> K {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Group(p) => self.kind(&p.expr),
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.kind(&u.expr),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if s == "None" {
                        return K::Opt;
                    }
                    if s == "self" {
                        return match &self.self_ty {
                            Some(t) => K::Named(t.clone()),
                            None => K::Unknown,
                        };
                    }
                    return self.env.get(&s).cloned().unwrap_or(K::Unknown);
                }
                K::Unknown
            }
            Expr::Field(f) => {
                if let K::Named(t) = self.kind(&f.base) {
                    if let Some(fs) = self.db.fields.get(&t) {
                        let n = match &f.member {
                            Member::Named(n) => n.to_string(),
                            Member::Unnamed(i) => i.index.to_string(),
                        };
                        return fs.get(&n).cloned().unwrap_or(K::Unknown);
                    }
                }
                // unique field name
                if let Member::Named(n) = &f.member {
                    let n = n.to_string();
                    let c: Vec<K> =
                        self.db.fields.values().filter_map(|f| f.get(&n).cloned()).collect();
                    if !c.is_empty() && c.iter().all(|k| *k == c[0]) {
                        return c[0].clone();
                    }
                }
                K::Unknown
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = self.kind(&m.receiver);
                match n.as_str() {
                    "clone" | "as_mut" | "to_owned" | "by_ref" => r,
                    "as_ref" | "as_deref" | "map" | "and_then" | "cloned" | "copied" | "filter"
                    | "or_else" | "or" | "inspect" => {
                        if r == K::Unknown || matches!(r, K::Named(_)) {
                            if n == "as_ref" || n == "as_deref" {
                                return r;
                            }
                            K::Unknown
                        } else {
                            r
                        }
                    }
                    "transpose" => match r {
                        K::Opt => K::Res,
                        K::Res => K::Opt,
                        _ => K::Unknown,
                    },
                    "ok_or" | "ok_or_else" | "map_err" | "parse" | "lock" | "try_into"
                    | "serialize" | "deserialize" => K::Res,
                    "first" | "last" | "take" | "next" | "pop" | "ok" | "err" | "find" | "as_u64"
                    | "as_str" | "checked_add" | "checked_sub" | "find_map" | "strip_prefix"
                    | "as_i64" | "host_str" | "host" | "position" | "split_first" | "nth"
                    | "get_mut" | "captures" | "find_iter" => K::Opt,
                    "get" => K::Opt,
                    "remove" => match r {
                        K::Vec => K::Unknown,
                        _ => K::Opt,
                    },
                    "iter" | "iter_mut" | "into_iter" | "values" | "values_mut" | "keys" | "chars"
                    | "bytes" | "drain" | "char_indices" | "skip" | "zip" | "enumerate" | "rev"
                    | "chain" | "split" => K::Iter,
                    _ => match self.db.rets.get(&n) {
                        Some(v) if v.iter().all(|k| *k == v[0]) => v[0].clone(),
                        _ => K::Unknown,
                    },
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    match n.as_str() {
                        "Some" => return K::Opt,
                        "Ok" | "Err" => return K::Res,
                        "from_str" | "to_writer" | "to_string" if p.path.segments.len() > 1 => {
                            return K::Res
                        }
                        _ => {}
                    }
                    if let Some(v) = self.db.rets.get(&n) {
                        if v.iter().all(|k| *k == v[0]) {
                            return v[0].clone();
                        }
                    }
                }
                K::Unknown
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    let k = self.kind(&a.body);
                    if k != K::Unknown {
                        return k;
                    }
                }
                K::Unknown
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last() {
                    let k = self.kind(e);
                    if k != K::Unknown {
                        return k;
                    }
                }
                match &i.else_branch {
                    Some((_, e)) => self.kind(e),
                    None => K::Unknown,
                }
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => K::Unknown,
            },
            Expr::Await(a) => self.kind(&a.base),
            // serde's accesses yield Result<Option<_>, _>
            Expr::Try(t) => match &*t.expr {
                Expr::MethodCall(m)
                    if matches!(m.method.to_string().as_str(), "next_key" | "next_key_seed" | "next_element" | "next_element_seed" | "next_entry") =>
                {
                    K::Opt
                }
                _ => K::Unknown,
            },
            _ => K::Unknown,
        }
    }

    /// kinds of the names a pattern binds (fields of known structs and enum variants; others are unknown)
    pub fn pat_kinds(&self, p: &Pat, k: K, out: &mut Vec<(String, K)>) {
        let fields = |path: &Path| {
            let s: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = s.len();
            let two = if n >= 2 { format!("{}::{}", s[n - 2], s[n - 1]) } else { s[0].clone() };
            self.db.fields.get(&two)
        };
        let of = |fs: Option<&HashMap<String, K>>, n: &str| fs.and_then(|f| f.get(n)).cloned().unwrap_or(K::Unknown);
        match p {
            Pat::Ident(i) => {
                if i.ident != "None" {
                    out.push((i.ident.to_string(), k))
                }
            }
            Pat::Reference(r) => self.pat_kinds(&r.pat, k, out),
            Pat::Paren(r) => self.pat_kinds(&r.pat, k, out),
            Pat::Struct(s) => {
                let fs = fields(&s.path);
                for f in &s.fields {
                    let n = match &f.member {
                        Member::Named(n) => n.to_string(),
                        Member::Unnamed(i) => i.index.to_string(),
                    };
                    self.pat_kinds(&f.pat, of(fs, &n), out);
                }
            }
            Pat::TupleStruct(t) => {
                let fs = fields(&t.path);
                for (i, q) in t.elems.iter().enumerate() {
                    self.pat_kinds(q, of(fs, &i.to_string()), out);
                }
            }
            Pat::Tuple(t) => t.elems.iter().for_each(|q| self.pat_kinds(q, K::Unknown, out)),
            Pat::Or(o) => o.cases.iter().for_each(|q| self.pat_kinds(q, k.clone(), out)),
            Pat::Slice(t) => t.elems.iter().for_each(|q| self.pat_kinds(q, K::Unknown, out)),
            _ => {}
        }
    }

    /// collects kinds of let-bound names
    pub fn collect_env(&mut self, b: &Block) {
        struct V<'x, 'y>(&'x mut X<'y>);
        impl<'x, 'y, 'a> Visit<'a> for V<'x, 'y> {
            fn visit_local(&mut self, l: &'a Local) {
                visit::visit_local(self, l);
                if let Some(n) = pat_ident(&l.pat) {
                    let mut k = match &l.init {
                        Some(i) => self.0.kind(&i.expr),
                        None => K::Unknown,
                    };
                    if let Pat::Type(t) = &l.pat {
                        k = kind_of_type(&t.ty);
                    }
                    if let Some(i) = &l.init {
                        if let Expr::Try(_) = &*i.expr {
                            if !matches!(&l.pat, Pat::Type(_)) {
                                k = self.0.kind(&i.expr);
                            }
                        }
                    }
                    self.0.env.insert(n, k);
                }
            }
        }
        V(self).visit_block(b);
    }

    pub fn run(&mut self, b: &mut Block) {
        Strip { x: self }.visit_block_mut(b);
        Mac { x: self }.visit_block_mut(b);
        inline_closures(b, self);
        self.collect_env(b);
        Comb { x: self }.visit_block_mut(b);
        self.collect_env(b);
        Comb { x: self }.visit_block_mut(b);
        Pats { x: self }.visit_block_mut(b);
        Idx { x: self }.visit_block_mut(b);
        locks(b, self);
        if !self.cfg.effects.is_empty() {
            World { x: self }.visit_block_mut(b);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// attributes, logging

struct Strip<'x, 'a> {
    x: &'x mut X<'a>,
}
impl<'x, 'a> VisitMut for Strip<'x, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mac = match &s {
                Stmt::Macro(m) => Some(&m.mac),
                Stmt::Expr(Expr::Macro(m), _) => Some(&m.mac),
                _ => None,
            };
            if let Some(m) = mac {
                let p = m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
                if p.first().map(|s| s.as_str()) == Some("log") {
                    self.x.notes.insert("dropped: log macro statements (formatting of their arguments is not modelled)".into());
                    continue;
                }
                if p.len() == 1 && p[0].starts_with("debug_assert") {
                    self.x.notes.insert("dropped: debug_assert".into());
                    continue;
                }
                if p.len() == 1 && p[0] == "pin_mut" {
                    // pinned to the stack: the name now stands for a mutable borrow
                    self.x.notes.insert("dropped: pin_mut".into());
                    if let Ok(i) = syn::parse2::<Ident>(m.tokens.clone()) {
                        out.push(parse_quote!(let mut #i = #i;));
                    }
                    continue;
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------------------------------------
// macros

struct Mac<'x, 'a> {
    x: &'x mut X<'a>,
}

fn args_of(t: &TokenStream) -> Option<Vec<Expr>> {
    Punctuated::<Expr, Token![,]>::parse_terminated
        .parse2(t.clone())
        .ok()
        .map(|p| p.into_iter().collect())
}

#[derive(Debug)]
enum Piece {
    Lit(String),
    Disp(Expr),
    Any,
}

fn pieces(args: &[Expr]) -> Option<Vec<Piece>> {
    let s = match args.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut named: HashMap<String, Expr> = HashMap::new();
    let mut rest: Vec<Expr> = vec![];
    for a in &args[1..] {
        if let Expr::Assign(x) = a {
            if let Expr::Path(p) = &*x.left {
                if let Some(i) = p.path.get_ident() {
                    named.insert(i.to_string(), (*x.right).clone());
                    continue;
                }
            }
        }
        rest.push(a.clone());
    }
    let mut out = vec![];
    let mut lit = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut pos = 0;
    while i < c.len() {
        if c[i] == '{' && c.get(i + 1) == Some(&'{') {
            lit.push('{');
            i += 2;
        } else if c[i] == '}' && c.get(i + 1) == Some(&'}') {
            lit.push('}');
            i += 2;
        } else if c[i] == '{' {
            let mut j = i + 1;
            while j < c.len() && c[j] != '}' {
                j += 1;
            }
            let spec: String = c[i + 1..j].iter().collect();
            i = j + 1;
            if !lit.is_empty() {
                out.push(Piece::Lit(std::mem::take(&mut lit)));
            }
            let (name, fmt) = match spec.find(':') {
                Some(k) => (spec[..k].to_string(), spec[k + 1..].to_string()),
                None => (spec.clone(), String::new()),
            };
            let e = if name.is_empty() {
                pos += 1;
                rest.get(pos - 1)?.clone()
            } else if let Ok(n) = name.parse::<usize>() {
                rest.get(n)?.clone()
            } else if let Some(e) = named.get(&name) {
                e.clone()
            } else {
                syn::parse_str::<Expr>(&name).ok()?
            };
            if fmt.is_empty() {
                out.push(Piece::Disp(e));
            } else {
                out.push(Piece::Any);
            }
        } else {
            lit.push(c[i]);
            i += 1;
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}

impl<'x, 'a> Mac<'x, 'a> {
    fn rewrite(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = args_of(&m.tokens);
        let r: TokenStream = match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => quote!(vp_panic()),
            "assert" => {
                let a = args?;
                let c = a.first()?;
                quote!(if !(#c) { vp_panic() })
            }
            "assert_eq" => {
                let a = args?;
                let (l, r) = (a.get(0)?, a.get(1)?);
                quote!(if !(#l == #r) { vp_panic() })
            }
            "assert_ne" => {
                let a = args?;
                let (l, r) = (a.get(0)?, a.get(1)?);
                quote!(if #l == #r { vp_panic() })
            }
            "matches" => {
                let r = (|i: parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<Expr> = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = i.parse()?;
                    Ok((e, p, g))
                })
                .parse2(m.tokens.clone())
                .ok()?;
                let (e, p, g) = r;
                let g = g.map(|g| quote!(if #g));
                quote!(match #e { #p #g => true, _ => false })
            }
            "vec" => {
                if m.tokens.is_empty() {
                    quote!(Vec::new())
                } else {
                    let a = args?;
                    match a.len() {
                        1 => quote!(vp_vec1(#(#a),*)),
                        2 => quote!(vp_vec2(#(#a),*)),
                        3 => quote!(vp_vec3(#(#a),*)),
                        _ => quote!(vec![#(#a),*]),
                    }
                }
            }
            "format" => {
                let p = pieces(&args?)?;
                let s = self.x.fresh("s");
                let mut st = vec![];
                for q in p {
                    st.push(match q {
                        Piece::Lit(l) => quote!(vp_put_str(&mut #s, #l);),
                        Piece::Disp(e) => quote!(vp_put_disp(&mut #s, &#e);),
                        Piece::Any => quote!(vp_put_any(&mut #s);),
                    });
                }
                quote!({ let mut #s = String::new(); #(#st)* #s })
            }
            "write" | "writeln" => {
                let a = args?;
                let w = a.first()?.clone();
                let mut p = pieces(&a[1..])?;
                if name == "writeln" {
                    p.push(Piece::Lit("\n".into()));
                }
                let mut acc: Option<TokenStream> = None;
                for q in p.into_iter().rev() {
                    let c = match q {
                        Piece::Lit(l) => quote!(#w.vp_write_str(#l)),
                        Piece::Disp(e) => quote!(#w.vp_write_disp(&#e)),
                        Piece::Any => quote!(#w.vp_write_any()),
                    };
                    acc = Some(match acc {
                        None => c,
                        Some(n) => {
                            let e = self.x.fresh("e");
                            quote!(match #c { Ok(_) => #n, Err(#e) => Err(#e) })
                        }
                    });
                }
                acc.unwrap_or(quote!(Ok(())))
            }
            "vp_marker" | "vp_forit" => return None,
            _ => {
                self.x.unsupported.insert(format!("macro {}!", name));
                return None;
            }
        };
        self.x.notes.insert(format!("expanded: {}!", name));
        syn::parse2(r).ok()
    }
}

impl<'x, 'a> VisitMut for Mac<'x, 'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.rewrite(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token.or(None));
                if let Stmt::Expr(e, semi) = s {
                    if semi.is_none() && !is_block_like(e) {
                        // tail expression
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.rewrite(&m.mac) {
                *e = if matches!(n, Expr::Match(_)) { Expr::Paren(parse_quote!((#n))) } else { n };
            }
            if let Expr::Macro(m) = e {
                if m.mac.path.is_ident("vec") {
                    // already normalised; visit arguments
                    if let Some(mut a) = args_of(&m.mac.tokens) {
                        for x in a.iter_mut() {
                            self.visit_expr_mut(x)
                        }
                        m.mac.tokens = quote!(#(#a),*);
                    }
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------------------------------------
// let-bound closures that are only called or passed to a combinator: beta-reduce

fn count_uses(b: &Block, name: &str) -> (usize, usize, usize) {
    // (all uses, direct calls, used as sole method argument)
    struct V<'a>(&'a str, usize, usize, usize);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr_path(&mut self, p: &'b ExprPath) {
            if p.path.is_ident(self.0) {
                self.1 += 1
            }
        }
        fn visit_macro(&mut self, m: &'b Macro) {
            if m.path.is_ident("vec") {
                if let Some(a) = args_of(&m.tokens) {
                    for x in &a {
                        let mut v = V(self.0, 0, 0, 0);
                        v.visit_expr(x);
                        self.1 += v.1;
                        self.2 += v.2;
                        self.3 += v.3;
                    }
                }
            }
        }
        fn visit_expr_call(&mut self, c: &'b ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.0) {
                    self.2 += 1;
                }
            }
            visit::visit_expr_call(self, c)
        }
        fn visit_expr_method_call(&mut self, c: &'b ExprMethodCall) {
            for a in &c.args {
                if let Expr::Path(p) = a {
                    if p.path.is_ident(self.0) && COMBS.contains(&c.method.to_string().as_str()) {
                        self.3 += 1;
                    }
                }
            }
            visit::visit_expr_method_call(self, c)
        }
    }
    let mut v = V(name, 0, 0, 0);
    v.visit_block(b);
    (v.1, v.2, v.3)
}

const COMBS: &[&str] = &[
    "map", "map_err", "and_then", "or_else", "ok_or_else", "unwrap_or_else", "map_or", "map_or_else",
    "filter", "for_each", "is_some_and", "then",
];

fn beta(cl: &ExprClosure, args: &[Expr]) -> Option<Expr> {
    if cl.inputs.len() != args.len() || escapes(&cl.body) {
        return None;
    }
    let body = &cl.body;
    if args.is_empty() {
        return Some(match &**body {
            b @ Expr::Block(_) => b.clone(),
            b => parse_quote!((#b)),
        });
    }
    let lets: Vec<Stmt> = cl
        .inputs
        .iter()
        .zip(args)
        .map(|(p, a)| {
            let p = strip_pat(p);
            parse_quote!(let #p = #a;)
        })
        .collect();
    Some(parse_quote!({ #(#lets)* #body }))
}

fn inline_closures(b: &mut Block, x: &mut X) {
    struct Find(Vec<(String, ExprClosure)>);
    impl<'a> Visit<'a> for Find {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Some(n), Some(i)) = (pat_ident(&l.pat), &l.init) {
                if let Expr::Closure(c) = &*i.expr {
                    self.0.push((n, c.clone()));
                }
            }
            visit::visit_local(self, l)
        }
    }
    let mut f = Find(vec![]);
    f.visit_block(b);
    for (n, c) in f.0 {
        let (all, calls, comb) = count_uses(b, &n);
        if all != calls + comb || escapes(&c.body) {
            continue;
        }
        struct Sub<'s>(&'s str, ExprClosure);
        impl<'s> VisitMut for Sub<'s> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| match s {
                    Stmt::Local(l) => !(pat_ident(&l.pat).as_deref() == Some(self.0)
                        && matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Closure(_)))),
                    _ => true,
                });
                visit_mut::visit_block_mut(self, b);
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                if m.path.is_ident("vec") {
                    if let Some(mut a) = args_of(&m.tokens) {
                        for x in a.iter_mut() {
                            self.visit_expr_mut(x)
                        }
                        m.tokens = quote!(#(#a),*);
                    }
                }
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let new = match e {
                    Expr::Call(c) => match &*c.func {
                        Expr::Path(p) if p.path.is_ident(self.0) => {
                            let a: Vec<Expr> = c.args.iter().cloned().collect();
                            beta(&self.1, &a)
                        }
                        _ => None,
                    },
                    Expr::MethodCall(m) => {
                        for a in m.args.iter_mut() {
                            if let Expr::Path(p) = a {
                                if p.path.is_ident(self.0) {
                                    *a = Expr::Closure(self.1.clone());
                                }
                            }
                        }
                        None
                    }
                    _ => None,
                };
                if let Some(n) = new {
                    *e = n;
                }
            }
        }
        Sub(&n, c).visit_block_mut(b);
        x.notes.insert("inlined: local closure".into());
    }
}

// ---------------------------------------------------------------------------------------------
// Option / Result combinators and iterator chains

struct Comb<'x, 'a> {
    x: &'x mut X<'a>,
}

/// applies a closure literal or a path to `arg`
fn apply(f: &Expr, args: &[(Pat, Expr)]) -> Option<(Vec<Pat>, Expr)> {
    match f {
        Expr::Closure(c) => {
            if c.inputs.len() != args.len() || escapes(&c.body) || c.asyncness.is_some() {
                return None;
            }
            Some((c.inputs.iter().map(strip_pat).collect(), (*c.body).clone()))
        }
        Expr::Path(p) => {
            let a: Vec<&Expr> = args.iter().map(|x| &x.1).collect();
            Some((
                args.iter().map(|x| x.0.clone()).collect(),
                parse_quote!(#p(#(#a),*)),
            ))
        }
        Expr::Paren(p) => apply(&p.expr, args),
        _ => None,
    }
}

impl<'x, 'a> Comb<'x, 'a> {
    fn app1(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        let v = self.x.fresh("x");
        let (p, e) = apply(f, &[(parse_quote!(#v), parse_quote!(#v))])?;
        Some((p[0].clone(), e))
    }
    fn app0(&mut self, f: &Expr) -> Option<Expr> {
        Some(apply(f, &[])?.1)
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let k = self.x.kind(&m.receiver);
        let r = &m.receiver;
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let v = self.x.fresh("v");
        let out: Expr = match (k.clone(), n.as_str()) {
            (K::Opt, "map") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Some(#p) => Some(#e), None => None })
            }
            (K::Opt, "and_then") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Some(#p) => #e, None => None })
            }
            (K::Opt, "map_or") => {
                let (p, e) = self.app1(&a[1])?;
                let d = &a[0];
                parse_quote!(match #r { Some(#p) => #e, None => #d })
            }
            (K::Opt, "map_or_else") => {
                let (p, e) = self.app1(&a[1])?;
                let d = self.app0(&a[0])?;
                parse_quote!(match #r { Some(#p) => #e, None => #d })
            }
            (K::Opt, "is_some_and") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Some(#p) => #e, None => false })
            }
            (K::Opt, "ok_or_else") => {
                let e = self.app0(&a[0])?;
                parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#e) })
            }
            (K::Opt, "unwrap_or_else") => {
                let e = self.app0(&a[0])?;
                parse_quote!(match #r { Some(#v) => #v, None => #e })
            }
            (K::Opt, "unwrap_or") => {
                let e = &a[0];
                parse_quote!(match #r { Some(#v) => #v, None => #e })
            }
            (K::Opt, "or_else") => {
                let e = self.app0(&a[0])?;
                parse_quote!(match #r { Some(#v) => Some(#v), None => #e })
            }
            (K::Opt, "transpose") => parse_quote!(match #r {
                Some(Ok(#v)) => Ok(Some(#v)), Some(Err(#v)) => Err(#v), None => Ok(None) }),
            (K::Res, "transpose") => parse_quote!(match #r {
                Ok(Some(#v)) => Some(Ok(#v)), Ok(None) => None, Err(#v) => Some(Err(#v)) }),
            (K::Opt, "copied") => parse_quote!(match #r { Some(#v) => Some(*#v), None => None }),
            (K::Opt, "cloned") => {
                parse_quote!(match #r { Some(#v) => Some(#v.clone()), None => None })
            }
            (K::Opt, "as_deref") => {
                parse_quote!(match &#r { Some(#v) => Some(&**#v), None => None })
            }
            (K::Res, "map") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Ok(#p) => Ok(#e), Err(#v) => Err(#v) })
            }
            (K::Res, "map_err") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#e) })
            }
            (K::Res, "and_then") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Ok(#p) => #e, Err(#v) => Err(#v) })
            }
            (K::Res, "or_else") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => #e })
            }
            (K::Res, "unwrap_or_else") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(match #r { Ok(#v) => #v, Err(#p) => #e })
            }
            (K::Opt, "expect") | (K::Res, "expect") => parse_quote!(#r.unwrap()),
            (K::Iter, "for_each") => {
                let (p, e) = self.app1(&a[0])?;
                parse_quote!(for #v in #r { let #p = #v; #e; })
            }
            (K::Iter, "collect") => return self.collect(m),
            // str functions with a pattern argument: the contracts are on an extension trait, as the verifier
            // has no notion of `Pattern` (a renaming only; closures as patterns are left as they are)
            (_, "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "trim_matches"
                | "trim_start_matches" | "trim_end_matches" | "split_once" | "rsplit_once") if a.len() == 1 && plain_pattern(&a[0]) => {
                let mut m2 = m.clone();
                m2.method = quote::format_ident!("vp_{}", n);
                Expr::MethodCall(m2)
            }
            (_, "contains" | "find" | "rfind" | "replace") if matches!(a.first(), Some(Expr::Lit(_))) => {
                let mut m2 = m.clone();
                m2.method = quote::format_ident!("vp_{}", n);
                Expr::MethodCall(m2)
            }
            // a function that only builds a value, given as a closure
            (_, "or_insert_with") if a.len() == 1 => match &a[0] {
                Expr::Closure(c) if c.inputs.is_empty() && builds(&c.body) => {
                    let e = &c.body;
                    parse_quote!(#r.or_insert(#e))
                }
                _ => return None,
            },
            (_, "resize_with") if a.len() == 2 => {
                if let Expr::Closure(c) = &a[1] {
                    if c.body.to_token_stream().to_string().replace(' ', "").contains("vp_panic()")
                    {
                        let nn = &a[0];
                        return Some(parse_quote!(#r.vp_resize_with_panic(#nn)));
                    }
                }
                return None;
            }
            _ => return None,
        };
        self.x.notes.insert(format!("desugared: {}", n));
        Some(out)
    }

    /// `I.map(f).collect()` into a Vec or a Result<Vec, _>
    fn collect(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let is_res = m
            .turbofish
            .as_ref()
            .map(|t| t.to_token_stream().to_string().contains("Result"))
            .unwrap_or(false);
        // peel maps
        let mut src = (*m.receiver).clone();
        let mut fs = vec![];
        loop {
            match src.clone() {
                Expr::MethodCall(mm)
                    if mm.method == "map" && self.x.kind(&mm.receiver) == K::Iter =>
                {
                    fs.push(mm.args[0].clone());
                    src = (*mm.receiver).clone();
                }
                Expr::MethodCall(mm)
                    if (mm.method == "copied" || mm.method == "cloned")
                        && self.x.kind(&mm.receiver) == K::Iter =>
                {
                    fs.push(if mm.method == "copied" {
                        parse_quote!(|vp_c| *vp_c)
                    } else {
                        parse_quote!(|vp_c| vp_c.clone())
                    });
                    src = (*mm.receiver).clone();
                }
                _ => break,
            }
        }
        if fs.is_empty() {
            return None;
        }
        fs.reverse();
        let v = self.x.fresh("i");
        let o = self.x.fresh("o");
        let mut cur: Expr = parse_quote!(#v);
        let mut lets: Vec<Stmt> = vec![];
        for f in &fs {
            let (p, e) = self.app1(f)?;
            lets.push(parse_quote!(let #p = #cur;));
            cur = e;
        }
        // result-ness of the element
        let res = is_res || self.x.kind(&cur) == K::Res;
        self.x.notes.insert("desugared: map..collect".into());
        if res {
            let er = self.x.fresh("e");
            let q = self.x.fresh("q");
            Some(parse_quote!({
                let mut #o = Vec::new();
                let mut #er = None;
                for #v in #src {
                    #(#lets)*
                    match #cur { Ok(#q) => { #o.push(#q); } Err(#q) => { #er = Some(#q); break; } }
                }
                match #er { Some(#q) => Err(#q), None => Ok(vp_coll(#o)) }
            }))
        } else {
            Some(parse_quote!({
                let mut #o = Vec::new();
                for #v in #src {
                    #(#lets)*
                    #o.push(#cur);
                }
                #o
            }))
        }
    }

    fn eq_some(&mut self, b: &ExprBinary) -> Option<Expr> {
        let neg = match b.op {
            BinOp::Eq(_) => false,
            BinOp::Ne(_) => true,
            _ => return None,
        };
        let unpar = |e: &Expr| -> Expr {
            let mut e = e.clone();
            loop {
                match e {
                    Expr::Paren(p) => e = *p.expr,
                    Expr::Group(p) => e = *p.expr,
                    x => return x,
                }
            }
        };
        let (l, r) = (unpar(&b.left), unpar(&b.right));
        let some = |e: &Expr| -> Option<Expr> {
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident("Some") && c.args.len() == 1 {
                        return Some(c.args[0].clone());
                    }
                }
            }
            None
        };
        let (scrut, inner) = if let Some(i) = some(&r) {
            (l, i)
        } else if let Some(i) = some(&l) {
            (r, i)
        } else {
            return None;
        };
        let v = self.x.fresh("c");
        let cmp: Expr = match &inner {
            Expr::Reference(rf) => {
                let i = &rf.expr;
                parse_quote!(*#v == #i)
            }
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => parse_quote!(vp_str_eq(#v, #inner)),
            i => parse_quote!(#v == #i),
        };
        self.x.notes.insert("desugared: == Some(..)".into());
        Some(if neg {
            parse_quote!((match #scrut { Some(#v) => !(#cmp), None => true }))
        } else {
            parse_quote!((match #scrut { Some(#v) => #cmp, None => false }))
        })
    }
}

impl<'x, 'a> VisitMut for Comb<'x, 'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("vec") {
            if let Some(mut a) = args_of(&m.tokens) {
                for x in a.iter_mut() {
                    self.visit_expr_mut(x)
                }
                m.tokens = quote!(#(#a),*);
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let old = self.x.env.clone();
        let mut b = vec![];
        self.x.pat_kinds(&a.pat, K::Unknown, &mut b);
        self.x.env.extend(b);
        visit_mut::visit_arm_mut(self, a);
        self.x.env = old;
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let old = self.x.env.clone();
        if let Expr::Let(l) = &*i.cond {
            let mut b = vec![];
            self.x.pat_kinds(&l.pat, K::Unknown, &mut b);
            self.visit_expr_mut(&mut i.cond);
            self.x.env.extend(b);
            self.visit_block_mut(&mut i.then_branch);
            self.x.env = old;
        } else {
            self.visit_expr_mut(&mut i.cond);
            self.visit_block_mut(&mut i.then_branch);
        }
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // only a Result has map_err, so what is mapped before it is one too
        let mut root = None;
        if let Expr::MethodCall(m) = &*e {
            if m.method == "map_err" {
                let mut r = &*m.receiver;
                while let Expr::MethodCall(n) = r {
                    if n.method != "map" && n.method != "and_then" {
                        break;
                    }
                    r = &n.receiver;
                }
                if let Expr::Path(p) = r {
                    root = p.path.get_ident().map(|i| i.to_string());
                }
            }
        }
        if let Some(n) = root {
            let k = self.x.env.entry(n).or_insert(K::Unknown);
            if *k == K::Unknown {
                *k = K::Res;
            }
        }
        // `x.map(|..| a result).transpose()`: x is an Option
        if let Expr::MethodCall(m) = &*e {
            if let ("transpose", Expr::MethodCall(i)) = (m.method.to_string().as_str(), &*m.receiver) {
                if let ("map", Expr::Path(p), Some(Expr::Closure(c))) = (i.method.to_string().as_str(), &*i.receiver, i.args.first()) {
                    if let Some(n) = p.path.get_ident().map(|i| i.to_string()) {
                        if self.x.kind(&i.receiver) == K::Unknown && self.x.kind(&c.body) == K::Res {
                            self.x.env.insert(n, K::Opt);
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => self.method(m),
            Expr::Binary(b) => self.eq_some(b),
            _ => None,
        };
        if let Some(n) = new {
            *e = if is_block_like(&n) { Expr::Paren(parse_quote!((#n))) } else { n };
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        unparen_stmt(s);
    }
}

/// a pattern argument that is a character or a text (not a function of characters)
fn plain_pattern(e: &Expr) -> bool {
    match e {
        Expr::Closure(_) => false,
        Expr::Path(p) => p.path.segments.len() == 1,
        _ => true,
    }
}

/// an expression that only builds a value (no effects, cannot fail): evaluating it too often changes nothing
fn builds(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => builds(&p.expr),
        Expr::Block(b) => matches!(&b.block.stmts[..], [Stmt::Expr(e, None)] if builds(e)),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| builds(&f.expr)),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                c.args.iter().all(builds) && (n == "new" || n == "default" || n == "Some") && (n == "Some" || c.args.is_empty())
            }
            _ => false,
        },
        _ => false,
    }
}

/// `&lit`, `&CONST` and `&name` patterns: a name and a guard, or a name and a copy
struct Pats<'x, 'a> {
    x: &'x mut X<'a>,
}
struct RefPats<'x, 'y, 'a> {
    x: &'x mut X<'a>,
    guards: Vec<Expr>,
    lets: Vec<(Ident, Ident)>,
    bad: bool,
    y: core::marker::PhantomData<&'y ()>,
}
impl<'x, 'y, 'a> VisitMut for RefPats<'x, 'y, 'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Or(_) = p {
            let n = self.guards.len() + self.lets.len();
            visit_mut::visit_pat_mut(self, p);
            self.bad |= n != self.guards.len() + self.lets.len();
            return;
        }
        if let Pat::Reference(r) = p {
            let v = self.x.fresh("p");
            match &*r.pat {
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                    if i.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                        let c = &i.ident;
                        self.guards.push(parse_quote!(*#v == #c));
                    } else {
                        self.lets.push((i.ident.clone(), v.clone()));
                    }
                }
                Pat::Path(c) => self.guards.push(parse_quote!(*#v == #c)),
                Pat::Lit(c) => self.guards.push(parse_quote!(*#v == #c)),
                Pat::Wild(_) => {}
                _ => {
                    self.bad = true;
                    return;
                }
            }
            *p = parse_quote!(#v);
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
impl<'x, 'a> Pats<'x, 'a> {
    fn refs(&mut self, p: &mut Pat) -> Option<(Vec<Expr>, Vec<(Ident, Ident)>)> {
        let mut q = p.clone();
        let mut v = RefPats { x: self.x, guards: vec![], lets: vec![], bad: false, y: core::marker::PhantomData };
        v.visit_pat_mut(&mut q);
        if v.bad || (v.guards.is_empty() && v.lets.is_empty()) {
            return None;
        }
        let r = (v.guards, v.lets);
        *p = q;
        Some(r)
    }
}
impl<'x, 'a> VisitMut for Pats<'x, 'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let mut p = &mut l.pat;
        if let Pat::Type(_) = p {
            return;
        }
        if let (Pat::Reference(r), Some(i)) = (&mut p, &mut l.init) {
            if let (Pat::Ident(_), None) = (&*r.pat, &i.diverge) {
                let q = (*r.pat).clone();
                let e = &i.expr;
                i.expr = parse_quote!(*#e);
                l.pat = q;
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let has_guard_name = |g: &Expr, n: &Ident| g.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| n == w);
        let mut p = a.pat.clone();
        if let Some((guards, lets)) = self.refs(&mut p) {
            if let Some((_, g)) = &a.guard {
                if lets.iter().any(|(n, _)| has_guard_name(g, n)) {
                    return;
                }
            }
            a.pat = p;
            let mut g: Option<Expr> = None;
            for x in guards {
                g = Some(match g {
                    None => x,
                    Some(y) => parse_quote!(#y && #x),
                });
            }
            if let Some(g) = g {
                a.guard = match a.guard.take() {
                    None => Some((Default::default(), Box::new(g))),
                    Some((i, o)) => Some((i, Box::new(parse_quote!(#g && (#o))))),
                };
            }
            if !lets.is_empty() {
                let ls: Vec<Stmt> = lets.iter().map(|(n, v)| parse_quote!(let #n = *#v;)).collect();
                let b = &a.body;
                a.body = parse_quote!({ #(#ls)* #b });
            }
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        if let Expr::Let(l) = &mut *i.cond {
            let mut p = (*l.pat).clone();
            if let Some((guards, lets)) = self.refs(&mut p) {
                if !guards.is_empty() {
                    return;
                }
                *l.pat = p;
                for (n, v) in lets.iter().rev() {
                    i.then_branch.stmts.insert(0, parse_quote!(let #n = *#v;));
                }
            }
        }
    }
}

/// `(for ..)` as a statement: drop the parentheses added around desugared expressions
fn unparen_stmt(s: &mut Stmt) {
    if let Stmt::Expr(e, semi) = s {
        if let Expr::Paren(p) = e {
            if matches!(&*p.expr, Expr::ForLoop(_) | Expr::While(_)) {
                *e = (*p.expr).clone();
                *semi = None;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// mutex guards: make acquisition and release explicit

fn is_lock(e: &Expr) -> Option<Expr> {
    // E.lock().unwrap()
    if let Expr::MethodCall(u) = e {
        if u.method == "unwrap" {
            if let Expr::MethodCall(l) = &*u.receiver {
                if l.method == "lock" && l.args.is_empty() {
                    return Some((*l.receiver).clone());
                }
            }
        }
        // E.borrow_mut()
        if u.method == "borrow_mut" && u.args.is_empty() {
            return Some((*u.receiver).clone());
        }
    }
    if let Expr::Paren(p) = e {
        return is_lock(&p.expr);
    }
    None
}

struct HasLock(usize);
impl<'a> Visit<'a> for HasLock {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if (m.method == "lock" || m.method == "borrow_mut") && m.args.is_empty() {
            self.0 += 1;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_arm(&mut self, a: &'a Arm) {
        if let Some((_, g)) = &a.guard {
            self.visit_expr(g)
        }
        if !matches!(&*a.body, Expr::Block(_)) {
            // an expression arm: temporaries inside it live until the end of the arm
        }
    }
}
fn locks_in(e: &Expr) -> usize {
    let mut v = HasLock(0);
    v.visit_expr(e);
    v.0
}

/// replaces `E.lock().unwrap().m(args)` and returns the number of replacements
struct RepLock<'x, 'a> {
    x: &'x mut X<'a>,
    n: usize,
}
impl<'x, 'a> VisitMut for RepLock<'x, 'a> {
    fn visit_block_mut(&mut self, _: &mut Block) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_arm_mut(&mut self, _: &mut Arm) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if let Some(r) = is_lock(&m.receiver) {
                let g = self.x.fresh("g");
                let q = self.x.fresh("r");
                let meth = &m.method;
                let args = &m.args;
                let tf = &m.turbofish;
                self.n += 1;
                let mut args2: Vec<Expr> = args.iter().cloned().collect();
                for a in args2.iter_mut() {
                    self.visit_expr_mut(a)
                }
                *e = parse_quote!({
                    let mut #g = #r.vp_lock();
                    let #q = #g.v.#meth #tf(#(#args2),*);
                    #g.vp_store();
                    #q
                });
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn locks(b: &mut Block, x: &mut X) {
    let mut h = TotalLocks(0);
    h.visit_block(b);
    if h.0 == 0 {
        return;
    }
    x.notes.insert("made explicit: guard lifetimes".into());
    Locks { x }.visit_block_mut(b);
    let mut h = TotalLocks(0);
    h.visit_block(b);
    if h.0 > 0 {
        x.unsupported.insert("mutex lock in an unsupported position".into());
    }
}
struct TotalLocks(usize);
impl<'a> Visit<'a> for TotalLocks {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if (m.method == "lock" || m.method == "borrow_mut") && m.args.is_empty() {
            self.0 += 1;
        }
        visit::visit_expr_method_call(self, m);
    }
}

struct Locks<'x, 'a> {
    x: &'x mut X<'a>,
}

/// inserts a release before every `return`, and rewrites `?`, in code executed while locked
struct Exits;
impl VisitMut for Exits {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Return(r) => {
                let v: Expr = match &r.expr {
                    Some(v) => (**v).clone(),
                    None => parse_quote!(()),
                };
                *e = parse_quote!({ let vp_ret = #v; vp_release(); return vp_ret; });
            }
            Expr::Try(t) => {
                let i = &t.expr;
                *e = parse_quote!((match #i { Ok(vp_ok) => vp_ok, Err(vp_er) => {
                    vp_release(); return Err(core::convert::From::from(vp_er)); } }));
            }
            _ => {}
        }
    }
}

impl<'x, 'a> Locks<'x, 'a> {
    /// handles the temporaries of one expression used as a whole statement / initialiser
    fn expr(&mut self, e: &mut Expr) -> usize {
        let n = locks_in(e);
        if n == 0 {
            return 0;
        }
        let mut r = RepLock { x: self.x, n: 0 };
        r.visit_expr_mut(e);
        let k = r.n;
        if k > 0 {
            Exits.visit_expr_mut(e);
        }
        k
    }
}

impl<'x, 'a> VisitMut for Locks<'x, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let mut named: Vec<String> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let last = stmts.len().wrapping_sub(1);
        for (idx, mut s) in stmts.into_iter().enumerate() {
            // uses of named guards
            for g in &named {
                GuardUse(g.clone()).visit_stmt_mut(&mut s);
            }
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        if let Some(r) = is_lock(&i.expr) {
                            if let Some(n) = pat_ident(&l.pat) {
                                let id = Ident::new(&n, proc_macro2::Span::call_site());
                                out.push(parse_quote!(let mut #id = #r.vp_lock();));
                                named.push(n);
                                continue;
                            }
                        }
                        visit_mut::visit_expr_mut(self, &mut i.expr);
                        let k = self.expr(&mut i.expr);
                        out.push(s);
                        for _ in 0..k {
                            out.push(parse_quote!(vp_release();));
                        }
                        continue;
                    }
                    out.push(s);
                }
                Stmt::Expr(e, semi) => {
                    // drop(guard)
                    if let Expr::Call(c) = e {
                        if let (Expr::Path(p), Some(Expr::Path(a))) = (&*c.func, c.args.first()) {
                            if p.path.segments.last().unwrap().ident == "drop" {
                                if let Some(i) = a.path.get_ident() {
                                    if let Some(pos) = named.iter().position(|x| i == x) {
                                        named.remove(pos);
                                        out.push(parse_quote!(#i.vp_store();));
                                        out.push(parse_quote!(vp_release();));
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    // nested blocks first
                    let plain_if = matches!(e, Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)));
                    visit_mut::visit_expr_mut(self, e);
                    if plain_if {
                        if let Expr::If(i) = e {
                            let k = self.expr(&mut i.cond);
                            if k > 0 {
                                let c = &i.cond;
                                let rel: Vec<Stmt> =
                                    (0..k).map(|_| parse_quote!(vp_release();)).collect();
                                i.cond = parse_quote!({ let vp_cond = #c; #(#rel)* vp_cond });
                            }
                        }
                        out.push(s);
                        continue;
                    }
                    let had = locks_in(e) > 0;
                    let k = self.expr(e);
                    if k > 0 {
                        let tail = idx == last && semi.is_none();
                        let rel: Vec<Stmt> = (0..k).map(|_| parse_quote!(vp_release();)).collect();
                        let ee = e.clone();
                        if tail {
                            out.push(parse_quote!(let vp_tail = #ee;));
                            out.extend(rel);
                            out.push(Stmt::Expr(parse_quote!(vp_tail), None));
                        } else {
                            if is_block_like(&ee) {
                                out.push(Stmt::Expr(ee, None));
                            } else {
                                out.push(parse_quote!(#ee;));
                            }
                            out.extend(rel);
                        }
                    } else {
                        let _ = had;
                        out.push(s);
                    }
                }
                _ => out.push(s),
            }
        }
        if !named.is_empty() {
            // guards live to the end of the block
            let rel = |out: &mut Vec<Stmt>| {
                for g in named.iter().rev() {
                    let id = Ident::new(g, proc_macro2::Span::call_site());
                    out.push(parse_quote!(#id.vp_store();));
                    out.push(parse_quote!(vp_release();));
                }
            };
            if let Some(Stmt::Expr(e, None)) = out.last().cloned() {
                if matches!(e, Expr::ForLoop(_) | Expr::While(_)) {
                    rel(&mut out);
                } else {
                    out.pop();
                    out.push(parse_quote!(let vp_tail = #e;));
                    rel(&mut out);
                    out.push(Stmt::Expr(parse_quote!(vp_tail), None));
                }
            } else {
                rel(&mut out);
            }
            let mut f = HasExit(false);
            for s in &out {
                f.visit_stmt(s);
            }
            if f.0 {
                self.x.unsupported.insert("early exit while a named mutex guard is live".into());
            }
        }
        b.stmts = out;
    }
}
struct HasExit(bool);
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct GuardUse(String);
impl VisitMut for GuardUse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let base = match e {
            Expr::MethodCall(m) => Some(&mut m.receiver),
            Expr::Field(f) => Some(&mut f.base),
            _ => None,
        };
        if let Some(r) = base {
            if let Expr::Path(p) = &**r {
                if p.path.is_ident(&self.0) {
                    let n = p.clone();
                    **r = parse_quote!(#n.v);
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// ghost world token

impl<'a> X<'a> {
    fn effect(&self, n: &str) -> bool {
        self.cfg.effects.contains(n) || self.cfg.mod_effects.get(&self.module).map_or(false, |e| e.contains(n))
    }
}

struct World<'x, 'a> {
    x: &'x mut X<'a>,
}
impl<'x, 'a> VisitMut for World<'x, 'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("vec") {
            if let Some(mut a) = args_of(&m.tokens) {
                for x in a.iter_mut() {
                    self.visit_expr_mut(x)
                }
                m.tokens = quote!(#(#a),*);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                if self.x.effect(&format!(".{}/{}", m.method, m.args.len())) {
                    m.args.push(parse_quote!(Tracked(&mut *vp_w)));
                    self.x.world = true;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    // free functions by name, associated functions by type and name
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = s[s.len() - 1].clone();
                    let t = match s.len() {
                        1 => None,
                        k => match (s[k - 2].as_str(), &self.x.self_ty) {
                            ("Self", Some(t)) => Some(t.clone()),
                            (t, _) => Some(t.to_string()),
                        },
                    };
                    let typed = matches!(&t, Some(t) if t.starts_with(|c: char| c.is_uppercase()));
                    let hit = if typed {
                        self.x.effect(&format!("{}::{}/{}", t.unwrap(), n, c.args.len()))
                    } else {
                        self.x.effect(&format!("{}/{}", n, c.args.len()))
                    };
                    if hit {
                        c.args.push(parse_quote!(Tracked(&mut *vp_w)));
                        self.x.world = true;
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
// range indexing and conversions become calls with explicit contracts

struct Idx<'x, 'a> {
    x: &'x mut X<'a>,
}
impl<'x, 'a> Idx<'x, 'a> {
    fn is_range(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_range(&p.expr),
            Expr::Range(_) => true,
            Expr::MethodCall(m) => m.method == "clone",
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if n.contains("range") {
                        return true;
                    }
                }
                matches!(self.x.kind(e), K::Named(n) if n.starts_with("Range"))
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    if n.to_string().contains("range") {
                        return true;
                    }
                }
                matches!(self.x.kind(e), K::Named(n) if n.starts_with("Range"))
            }
            _ => false,
        }
    }
}
impl<'x, 'a> VisitMut for Idx<'x, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `&mut e[i]` stays, `&mut e[range]` does not
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(i) = &mut *r.expr {
                    if self.is_range(&i.index) {
                        self.visit_expr_mut(&mut i.expr);
                        let (a, b) = (&i.expr, &i.index);
                        *e = parse_quote!(#a.vp_index_mut(#b));
                        return;
                    }
                    self.visit_expr_mut(&mut i.expr);
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
            } else if let Expr::Index(i) = &mut *r.expr {
                if self.is_range(&i.index) {
                    self.visit_expr_mut(&mut i.expr);
                    let (a, b) = (&i.expr, &i.index);
                    *e = parse_quote!(#a.vp_index(#b));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(i) = e {
            if self.is_range(&i.index) {
                let (a, b) = (&i.expr, &i.index);
                *e = parse_quote!((*#a.vp_index(#b)));
                return;
            }
        }
        if let Expr::Cast(c) = e {
            if let (Expr::MethodCall(m), true) = (&*c.expr, c.ty.to_token_stream().to_string() == "usize") {
                if m.method == "as_ptr" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!(#r.vp_addr());
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.args.is_empty() {
                let n = match m.method.to_string().as_str() {
                    "to_string" => Some("vp_to_string"),
                    "parse" => Some("vp_parse"),
                    _ => None,
                };
                if let Some(n) = n {
                    m.method = Ident::new(n, m.method.span());
                }
            }
        }
    }
}
