//! nom's combinators by their definition: `delimited(a, b, c)(i)` is `a(i)`, then `b` on what is left, then `c`, the
//! value being that of `b`; likewise the others. The leaves (`tag`, `take_while…`) stay calls with an assumed contract.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{
    visit_mut::{self, VisitMut},
    *,
};

#[derive(Default)]
pub struct Nom {
    n: usize,
    pub used: bool,
}

const COMBINATORS: &[&str] =
    &["delimited", "preceded", "terminated", "pair", "map_opt", "map", "alt", "tag", "take_while", "take_while1", "take_while_m_n", "take"];

/// the name and the arguments of a combinator
fn combinator(e: &Expr) -> Option<(String, Vec<Expr>)> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last()?.ident.to_string();
            if COMBINATORS.contains(&n.as_str()) {
                return Some((n, c.args.iter().cloned().collect()));
            }
        }
    }
    None
}

impl Nom {
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        format_ident!("__n{}", self.n)
    }
    /// the parser `p` run on `i`, an identifier
    fn run(&mut self, p: &Expr, i: &Ident) -> TokenStream {
        if let Expr::Paren(q) = p {
            return self.run(&q.expr, i);
        }
        if let Expr::Closure(c) = p {
            if let Some(x) = c.inputs.first() {
                let b = &c.body;
                let x = match x {
                    Pat::Type(t) => &t.pat,
                    x => x,
                };
                return quote!({ let #x = #i; #b });
            }
        }
        let Some((name, a)) = combinator(p) else { return quote!(#p(#i)) };
        match (name.as_str(), a.len()) {
            ("delimited", 3) => self.chain(&a, 1, i),
            ("preceded", 2) => self.chain(&a, 1, i),
            ("terminated", 2) => self.chain(&a, 0, i),
            ("pair", 2) => {
                let (o1, r1, o2, r2, e) = (self.fresh(), self.fresh(), self.fresh(), self.fresh(), self.fresh());
                let (p1, p2) = (self.run(&a[0], i), self.run(&a[1], &r1));
                quote!(match #p1 { Ok((#r1, #o1)) => match #p2 { Ok((#r2, #o2)) => Ok((#r2, (#o1, #o2))), Err(#e) => Err(#e) }, Err(#e) => Err(#e) })
            }
            ("map_opt", 2) => {
                let (o, r, v, e) = (self.fresh(), self.fresh(), self.fresh(), self.fresh());
                let p1 = self.run(&a[0], i);
                let f = &a[1];
                quote!(match #p1 {
                    Ok((#r, #o)) => match #f(#o) {
                        Some(#v) => Ok((#r, #v)),
                        None => Err(nom::Err::Error(nom::error::Error::new(#i, nom::error::ErrorKind::MapOpt))),
                    },
                    Err(#e) => Err(#e),
                })
            }
            ("map", 2) => {
                let (o, r, e) = (self.fresh(), self.fresh(), self.fresh());
                let p1 = self.run(&a[0], i);
                let f = &a[1];
                quote!(match #p1 { Ok((#r, #o)) => Ok((#r, #f(#o))), Err(#e) => Err(#e) })
            }
            ("alt", 1) => {
                let Expr::Tuple(t) = &a[0] else { return quote!(#p(#i)) };
                let mut res: Option<TokenStream> = None;
                for x in t.elems.iter().rev() {
                    let o = self.fresh();
                    let px = self.run(x, i);
                    res = Some(match res {
                        None => px,
                        Some(r) => quote!(match #px { Err(nom::Err::Error(_)) => #r, #o => #o }),
                    });
                }
                res.unwrap_or_default()
            }
            (n, _) => {
                let f = format_ident!("{n}");
                quote!(nom::#f(#(#a,)* #i))
            }
        }
    }
    /// one after the other, the value is that of number `k`
    fn chain(&mut self, ps: &[Expr], k: usize, i: &Ident) -> TokenStream {
        let names: Vec<(Ident, Ident)> = ps.iter().map(|_| (self.fresh(), self.fresh())).collect();
        let e = self.fresh();
        let v = &names[k].1;
        let last = &names.last().unwrap().0;
        let mut t = quote!(Ok((#last, #v)));
        for j in (0..ps.len()).rev() {
            let from = if j == 0 { i.clone() } else { names[j - 1].0.clone() };
            let p = self.run(&ps[j], &from);
            let (r, o) = &names[j];
            t = quote!(match #p { Ok((#r, #o)) => #t, Err(#e) => Err(#e) });
        }
        t
    }
}

impl VisitMut for Nom {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if c.args.len() == 1 && combinator(&c.func).is_some() {
                self.used = true;
                let i = self.fresh();
                let t = self.run(&c.func, &i);
                let x = &c.args[0];
                let mut b: Expr = parse2(quote!({ let #i = #x; #t })).unwrap();
                // closures inside may hold further ones
                visit_mut::visit_expr_mut(self, &mut b);
                *e = b;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// byte strings are arrays of their bytes, and so are the texts given to `tag`
pub struct Bytes(pub bool);
impl Bytes {
    fn lit(b: &[u8]) -> Expr {
        let b = b.iter().map(|x| LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site()));
        parse_quote!(&[#(#b),*])
    }
}
impl VisitMut for Bytes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                *e = Bytes::lit(&b.value());
                self.0 = true;
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "tag") => {
                for a in c.args.iter_mut() {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = a {
                        *a = Bytes::lit(s.value().as_bytes());
                        self.0 = true;
                    }
                }
            }
            _ => {}
        }
    }
}
