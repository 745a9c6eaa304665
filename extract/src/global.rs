//! State shared through a `static` behind a lock: `== global STATIC TYPE`. A function that mentions the static, or
//! that calls one that does, takes the state as a last parameter `__g: &mut TYPE`; `STATIC.write()`, `.read()` and
//! `.lock()` are a borrow of it. What is proved about the result is proved for one holder of the lock at a time: the
//! lock is held from that borrow to the end of its scope, and the code between is what is verified.
use std::collections::BTreeSet;

use syn::{
    visit_mut::{self, VisitMut},
    *,
};

pub struct Global<'a> {
    name: &'a str,
    ty: &'a str,
    /// functions that take the state
    fns: BTreeSet<String>,
    inside: bool,
    pub used: bool,
}

struct Mentions<'a, 'b> {
    g: &'b Global<'a>,
    found: bool,
}
impl VisitMut for Mentions<'_, '_> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if i == self.g.name || self.g.fns.contains(&i.to_string()) {
                self.found = true;
            }
        }
    }
}

/// rewrites all functions of a file that need the state
pub fn apply(name: &str, ty: &str, f: &mut File) -> bool {
    let mut g = Global { name, ty, fns: BTreeSet::new(), inside: false, used: false };
    loop {
        let n = g.fns.len();
        for i in &mut f.items {
            if let Item::Fn(x) = i {
                let mut m = Mentions { g: &g, found: false };
                m.visit_block_mut(&mut x.block);
                if m.found {
                    g.fns.insert(x.sig.ident.to_string());
                }
            }
        }
        if g.fns.len() == n {
            break;
        }
    }
    g.visit_file_mut(f);
    f.items.retain(|i| !matches!(i, Item::Static(s) if s.ident == name));
    g.used
}

impl VisitMut for Global<'_> {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if self.fns.contains(&f.sig.ident.to_string()) {
            let t: Type = parse_str(self.ty).unwrap();
            f.sig.inputs.push(parse_quote!(__g: &mut #t));
            self.inside = true;
            self.used = true;
            self.visit_block_mut(&mut f.block);
            self.inside = false;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if !self.inside {
            return;
        }
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "write" || m.method == "read" || m.method == "lock") => {
                if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(self.name)) {
                    *e = parse_quote!((&mut *__g));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.get_ident().map_or(false, |i| self.fns.contains(&i.to_string())) {
                        c.args.push(parse_quote!(&mut *__g));
                    }
                }
            }
            _ => {}
        }
    }
}
