//! Prints token streams as Rust text, one statement per line, remembering source lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Default)]
pub struct Printer {
    pub lines: Vec<(String, usize)>,
    cur: String,
    src: usize,
    indent: usize,
    glue: bool,
}

impl Printer {
    fn nl(&mut self) {
        if !self.cur.trim().is_empty() {
            let l = format!("{}{}", "  ".repeat(self.indent), self.cur.trim());
            self.lines.push((l, self.src));
        }
        self.cur.clear();
        self.src = 0;
        self.glue = false;
    }
    fn put(&mut self, s: &str, line: usize) {
        if self.src == 0 && line > 0 {
            self.src = line;
        }
        if !self.glue && !self.cur.is_empty() {
            self.cur.push(' ');
        }
        self.glue = false;
        self.cur.push_str(s);
    }
    pub fn print(&mut self, t: TokenStream, braces: bool) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    let bang = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char()=='!');
                    if s == "vp_marker" && bang {
                        if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                            self.nl();
                            let n: String =
                                g.stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                            self.cur = format!("//@MARK {}", n);
                            self.nl();
                            i += 3;
                            if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char()==';') {
                                i += 1;
                            }
                            continue;
                        }
                    }
                    if s == "vp_forit" && bang {
                        if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            self.put(&format!("vp_it{} :", inner[0]), line(&v[i]));
                            self.print(inner[2..].iter().cloned().collect(), false);
                            i += 3;
                            continue;
                        }
                    }
                    self.put(&s, line(&v[i]));
                    i += 1;
                }
                TokenTree::Literal(l) => {
                    self.put(&l.to_string(), line(&v[i]));
                    i += 1;
                }
                TokenTree::Punct(p) => {
                    self.put(&p.as_char().to_string(), line(&v[i]));
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.glue = true;
                    }
                    if braces && p.as_char() == ';' {
                        self.nl();
                    }
                    if braces
                        && p.as_char() == ','
                        && matches!(v.get(i.wrapping_sub(1)), Some(TokenTree::Group(g)) if g.delimiter()==Delimiter::Brace)
                    {
                        self.nl();
                    }
                    i += 1;
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        self.put(o, g.span_open().start().line);
                        if g.stream().is_empty() {
                            self.put(c, 0);
                        } else {
                            self.nl();
                            self.indent += 1;
                            self.print(g.stream(), true);
                            self.nl();
                            self.indent -= 1;
                            self.put(c, g.span_close().start().line);
                        }
                        // statement end?
                        if braces {
                            let next_starts = match v.get(i + 1) {
                                None => true,
                                Some(TokenTree::Punct(p)) => {
                                    !";,.?=&|<>+-*/)!:".contains(p.as_char())
                                }
                                Some(TokenTree::Ident(id)) => id != "else",
                                Some(TokenTree::Group(_)) => false,
                                _ => true,
                            };
                            if next_starts {
                                self.nl();
                            }
                        }
                    } else {
                        if !o.is_empty() {
                            self.put(o, g.span_open().start().line);
                        }
                        self.print(g.stream(), false);
                        if !c.is_empty() {
                            self.put(c, 0);
                        }
                    }
                    i += 1;
                }
            }
        }
    }
    pub fn finish(mut self) -> Vec<(String, usize)> {
        self.nl();
        self.lines
    }
}

fn line(t: &TokenTree) -> usize {
    t.span().start().line
}

pub fn one_line(t: TokenStream) -> String {
    fn go(t: TokenStream, s: &mut String, glue: &mut bool) {
        for x in t {
            match x {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if !*glue && !o.is_empty() {
                        s.push(' ');
                    }
                    *glue = false;
                    s.push_str(o);
                    go(g.stream(), s, glue);
                    if !c.is_empty() {
                        s.push(' ');
                        s.push_str(c);
                    }
                    *glue = false;
                }
                TokenTree::Punct(p) => {
                    if !*glue {
                        s.push(' ');
                    }
                    s.push(p.as_char());
                    *glue = p.spacing() == Spacing::Joint || p.as_char() == '\'';
                }
                t => {
                    if !*glue {
                        s.push(' ');
                    }
                    *glue = false;
                    s.push_str(&t.to_string());
                }
            }
        }
    }
    let mut s = String::new();
    let mut g = true;
    go(t, &mut s, &mut g);
    s.trim().to_string()
}
