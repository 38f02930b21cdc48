//! A small `macro_rules!` and `paste!` expander, for the item-level macros of the code under test.
use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
pub struct Rule {
    pat: Vec<TokenTree>,
    body: Vec<TokenTree>,
}
#[derive(Clone, Debug, Default)]
pub struct Macros {
    pub rules: HashMap<String, Vec<Rule>>,
}

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Rep(Vec<HashMap<String, Bind>>),
}
type Binds = HashMap<String, Bind>;

pub fn parse_rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < t.len() {
        let pat = match &t[i] {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => return None,
        };
        i += 1;
        if !(is_p(t.get(i), '=') && is_p(t.get(i + 1), '>')) {
            return None;
        }
        i += 2;
        let body = match t.get(i)? {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => return None,
        };
        i += 1;
        if is_p(t.get(i), ';') {
            i += 1;
        }
        out.push(Rule { pat, body });
    }
    Some(out)
}

fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

fn ts(v: &[TokenTree]) -> TokenStream {
    v.iter().cloned().collect()
}

fn frag(kind: &str, input: &[TokenTree]) -> Option<(TokenStream, usize)> {
    if input.is_empty() {
        return None;
    }
    macro_rules! p {
        ($t:ty) => {{
            let all = ts(input);
            let r = (|i: ParseStream| {
                let v: $t = i.parse()?;
                let rest: TokenStream = i.parse()?;
                Ok((quote::ToTokens::to_token_stream(&v), rest))
            })
            .parse2(all)
            .ok()?;
            let rest = r.1.into_iter().count();
            Some((r.0, input.len() - rest))
        }};
    }
    match kind {
        "tt" => {
            if is_p(input.first(), '\'') && input.len() > 1 {
                Some((ts(&input[..2]), 2))
            } else {
                Some((ts(&input[..1]), 1))
            }
        }
        "ident" => match &input[0] {
            TokenTree::Ident(_) => Some((ts(&input[..1]), 1)),
            _ => None,
        },
        "literal" => p!(syn::Lit),
        "ty" => p!(syn::Type),
        "expr" => p!(syn::Expr),
        "path" => p!(syn::Path),
        "block" => p!(syn::Block),
        "lifetime" => p!(syn::Lifetime),
        "item" => p!(syn::Item),
        "vis" => {
            let all = ts(input);
            let r = (|i: ParseStream| {
                let v: syn::Visibility = i.parse()?;
                let rest: TokenStream = i.parse()?;
                Ok((quote::ToTokens::to_token_stream(&v), rest))
            })
            .parse2(all)
            .ok()?;
            let rest = r.1.into_iter().count();
            Some((r.0, input.len() - rest))
        }
        "meta" => p!(syn::Meta),
        "pat" => {
            let all = ts(input);
            let r = (|i: ParseStream| {
                let v = syn::Pat::parse_multi(i)?;
                let rest: TokenStream = i.parse()?;
                Ok((quote::ToTokens::to_token_stream(&v), rest))
            })
            .parse2(all)
            .ok()?;
            let rest = r.1.into_iter().count();
            Some((r.0, input.len() - rest))
        }
        _ => None,
    }
}

/// Matches `pat` against `input`, returning the number of tokens consumed.
fn matches(pat: &[TokenTree], input: &[TokenTree], binds: &mut Binds) -> Option<usize> {
    let mut i = 0;
    let mut j = 0;
    while i < pat.len() {
        if is_p(pat.get(i), '$') {
            match pat.get(i + 1)? {
                TokenTree::Ident(name) => {
                    let kind = match pat.get(i + 3)? {
                        TokenTree::Ident(k) => k.to_string(),
                        _ => return None,
                    };
                    let (t, n) = frag(&kind, &input[j..])?;
                    // keep parsed fragments atomic
                    let t = if kind == "expr" || kind == "ty" {
                        let mut g = Group::new(Delimiter::None, t);
                        g.set_span(proc_macro2::Span::call_site());
                        TokenStream::from(TokenTree::Group(g))
                    } else {
                        t
                    };
                    binds.insert(name.to_string(), Bind::One(t));
                    j += n;
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let sub: Vec<TokenTree> = g.stream().into_iter().collect();
                    // separator and operator
                    let (sep, op, adv) = match pat.get(i + 2)? {
                        TokenTree::Punct(p) if "*+?".contains(p.as_char()) => {
                            (None, p.as_char(), 3)
                        }
                        s => match pat.get(i + 3)? {
                            TokenTree::Punct(p) if "*+".contains(p.as_char()) => {
                                (Some(s.clone()), p.as_char(), 4)
                            }
                            _ => return None,
                        },
                    };
                    let mut reps = vec![];
                    loop {
                        let mut b = Binds::new();
                        let mut k = j;
                        if !reps.is_empty() {
                            if let Some(s) = &sep {
                                if input.get(k).map(|t| t.to_string()) == Some(s.to_string()) {
                                    k += 1;
                                } else {
                                    break;
                                }
                            }
                        }
                        match matches(&sub, &input[k..], &mut b) {
                            Some(n) if n > 0 => {
                                reps.push(b);
                                j = k + n;
                            }
                            _ => break,
                        }
                        if op == '?' {
                            break;
                        }
                    }
                    if op == '+' && reps.is_empty() {
                        return None;
                    }
                    let mut names = vec![];
                    collect_names(&sub, &mut names);
                    for n in names {
                        binds.insert(n, Bind::Rep(reps.clone()));
                    }
                    i += adv;
                }
                _ => return None,
            }
        } else {
            match (&pat[i], input.get(j)?) {
                (TokenTree::Group(a), TokenTree::Group(b)) => {
                    if a.delimiter() != b.delimiter() {
                        return None;
                    }
                    let p: Vec<TokenTree> = a.stream().into_iter().collect();
                    let q: Vec<TokenTree> = b.stream().into_iter().collect();
                    let n = matches(&p, &q, binds)?;
                    if n != q.len() {
                        return None;
                    }
                }
                (a, b) => {
                    if a.to_string() != b.to_string() {
                        return None;
                    }
                }
            }
            i += 1;
            j += 1;
        }
    }
    Some(j)
}

fn collect_names(pat: &[TokenTree], out: &mut Vec<String>) {
    let mut i = 0;
    while i < pat.len() {
        if is_p(pat.get(i), '$') {
            match pat.get(i + 1) {
                Some(TokenTree::Ident(n)) => out.push(n.to_string()),
                Some(TokenTree::Group(g)) => {
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    collect_names(&v, out)
                }
                _ => {}
            }
            i += 2;
        } else {
            if let TokenTree::Group(g) = &pat[i] {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                collect_names(&v, out);
            }
            i += 1;
        }
    }
}

fn used_names(body: &[TokenTree], binds: &Binds, out: &mut Vec<String>) {
    let mut i = 0;
    while i < body.len() {
        if is_p(body.get(i), '$') {
            match body.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    if binds.contains_key(&n.to_string()) {
                        out.push(n.to_string())
                    }
                }
                Some(TokenTree::Group(g)) => {
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    used_names(&v, binds, out)
                }
                _ => {}
            }
            i += 2;
        } else {
            if let TokenTree::Group(g) = &body[i] {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                used_names(&v, binds, out);
            }
            i += 1;
        }
    }
}

fn transcribe(body: &[TokenTree], binds: &Binds) -> Option<TokenStream> {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < body.len() {
        if is_p(body.get(i), '$') {
            match body.get(i + 1)? {
                TokenTree::Ident(n) => {
                    match binds.get(&n.to_string()) {
                        Some(Bind::One(t)) => out.extend(t.clone()),
                        Some(Bind::Rep(_)) => return None,
                        None => {
                            out.push(body[i].clone());
                            out.push(body[i + 1].clone());
                        }
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let sub: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (sep, adv) = match body.get(i + 2)? {
                        TokenTree::Punct(p) if "*+?".contains(p.as_char()) => (None, 3),
                        s => (Some(s.clone()), 4),
                    };
                    let mut names = vec![];
                    used_names(&sub, binds, &mut names);
                    let reps = names.iter().find_map(|n| match binds.get(n) {
                        Some(Bind::Rep(r)) => Some(r.clone()),
                        _ => None,
                    })?;
                    for (k, b) in reps.iter().enumerate() {
                        let mut m = binds.clone();
                        for (n, v) in b {
                            m.insert(n.clone(), v.clone());
                        }
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.push(s.clone());
                            }
                        }
                        out.extend(transcribe(&sub, &m)?);
                    }
                    i += adv;
                }
                _ => return None,
            }
        } else {
            match &body[i] {
                TokenTree::Group(g) => {
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut ng = Group::new(g.delimiter(), transcribe(&v, binds)?);
                    ng.set_span(g.span());
                    out.push(TokenTree::Group(ng));
                }
                t => out.push(t.clone()),
            }
            i += 1;
        }
    }
    Some(out.into_iter().collect())
}

impl Macros {
    pub fn expand(&self, name: &str, input: TokenStream) -> Option<TokenStream> {
        if name == "paste" {
            return Some(paste(input));
        }
        if name == "forward_to_deserialize_any" {
            return forward_any(input);
        }
        let rules = self.rules.get(name)?;
        let input: Vec<TokenTree> = input.into_iter().collect();
        for r in rules {
            let mut b = Binds::new();
            if let Some(n) = matches(&r.pat, &input, &mut b) {
                if n == input.len() {
                    return transcribe(&r.body, &b);
                }
            }
            // a trailing comma or semicolon of the invocation may be left
        }
        None
    }
}

/// serde's `forward_to_deserialize_any! { name .. }`: each method asks for anything
fn forward_any(input: TokenStream) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    for t in input {
        let n = match &t {
            TokenTree::Ident(i) => i.to_string(),
            _ => return None,
        };
        let f = Ident::new(&format!("deserialize_{}", n), t.span());
        let st = quote::quote!(&'static str);
        let args: Vec<TokenStream> = match n.as_str() {
            "unit_struct" | "newtype_struct" => vec![quote::quote!(name: #st)],
            "tuple" => vec![quote::quote!(len: usize)],
            "tuple_struct" => vec![quote::quote!(name: #st), quote::quote!(len: usize)],
            "struct" => vec![quote::quote!(name: #st), quote::quote!(fields: &'static [#st])],
            "enum" => vec![quote::quote!(name: #st), quote::quote!(variants: &'static [#st])],
            _ => vec![],
        };
        out.extend(quote::quote! {
            fn #f<V>(self, #(#args,)* visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de> {
                self.deserialize_any(visitor)
            }
        });
    }
    Some(out)
}

/// `paste!`: concatenates the identifiers inside `[< .. >]`.
pub fn paste(t: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                if g.delimiter() == Delimiter::Bracket
                    && is_p(v.first(), '<')
                    && is_p(v.last(), '>')
                    && v.len() > 2
                {
                    let mut s = String::new();
                    let mut span = g.span();
                    let mut i = 1;
                    while i < v.len() - 1 {
                        if is_p(v.get(i), ':') {
                            // modifier
                            if let Some(TokenTree::Ident(m)) = v.get(i + 1) {
                                match m.to_string().as_str() {
                                    "lower" => s = s.to_lowercase(),
                                    "upper" => s = s.to_uppercase(),
                                    "snake" => s = snake(&s),
                                    "camel" => s = camel(&s),
                                    _ => {}
                                }
                            }
                            i += 2;
                            continue;
                        }
                        flat(&v[i], &mut s, &mut span);
                        i += 1;
                    }
                    out.push(TokenTree::Ident(Ident::new(&s, span)));
                } else {
                    let mut ng = Group::new(g.delimiter(), paste(g.stream()));
                    ng.set_span(g.span());
                    out.push(TokenTree::Group(ng));
                }
            }
            TokenTree::Punct(p) => {
                let mut q = Punct::new(p.as_char(), p.spacing());
                q.set_span(p.span());
                let _ = Spacing::Alone;
                out.push(TokenTree::Punct(q));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

fn flat(t: &TokenTree, s: &mut String, span: &mut proc_macro2::Span) {
    match t {
        TokenTree::Group(g) => {
            for x in g.stream() {
                flat(&x, s, span)
            }
        }
        TokenTree::Ident(i) => {
            let t = i.to_string();
            s.push_str(t.strip_prefix("r#").unwrap_or(&t));
            *span = i.span();
        }
        TokenTree::Literal(l) => s.push_str(l.to_string().trim_matches('"')),
        _ => {}
    }
}

fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('_');
        }
        o.extend(c.to_lowercase());
    }
    o
}
fn camel(s: &str) -> String {
    s.split('_')
        .map(|w| {
            let mut c = w.chars();
            match c.next() {
                Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
                None => String::new(),
            }
        })
        .collect()
}
