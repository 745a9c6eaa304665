//! Tokens to text with line breaks.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn show(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), depth: 0, fresh: true, last_joint: false };
    p.stream(ts);
    p.out
}

struct P {
    out: String,
    depth: usize,
    fresh: bool,
    last_joint: bool,
}

impl P {
    fn nl(&mut self) {
        if !self.fresh {
            self.out.push('\n');
            self.fresh = true;
        }
    }
    fn tok(&mut self, s: &str) {
        if self.fresh {
            for _ in 0..self.depth {
                self.out.push_str("  ");
            }
            self.fresh = false;
        } else if !self.last_joint {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.last_joint = false;
    }
    fn stream(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        self.tok("{");
                        self.depth += 1;
                        self.nl();
                        self.stream(g.stream());
                        self.nl();
                        self.depth -= 1;
                        self.tok("}");
                        self.nl();
                    }
                    d => {
                        let (a, b) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        if !a.is_empty() {
                            self.tok(a);
                        }
                        self.stream(g.stream());
                        if !b.is_empty() {
                            self.tok(b);
                        }
                    }
                },
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if s.starts_with("__VC_") {
                        self.nl();
                        self.tok(&s);
                        self.nl();
                    } else {
                        self.tok(&s)
                    }
                }
                TokenTree::Literal(l) => self.tok(&l.to_string()),
                TokenTree::Punct(p) => {
                    self.tok(&p.as_char().to_string());
                    self.last_joint = p.spacing() == Spacing::Joint || p.as_char() == '\'';
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
            }
        }
    }
}
