//! Code that shares state behind locks, read as sequential code: `== unlock TYPE…` names the types that hold the
//! shared state. A mutex gives what it guards, so whoever can reach it needs `&mut`:
//!
//! * `&T` and `Arc<T>` of these types are `&mut T` and `T`, `&self` and `self: Arc<Self>` of their methods `&mut self`
//! * an `Arc<T>` parameter is `&mut T`, and its clone another borrow of the same `T`; `&x.f` of a field `f: Arc<T>`
//!   is `&mut x.f`
//! * the value of a function that gave `&T` is `&mut …`
//! * a loop over `&x.f`, where the field `f` is a `Vec<T>`, counts its elements
//! * `drop(x)` of a guard does nothing: the borrow ends at its last use
//! * spawned work is done at once: `spawn(…)`, `spawn_blocking(…)`
//! * `x.borrow_mut()` is `&mut x`
//!
//! What is proved about the result is proved for one command (or one task step) at a time, without interference.
use std::collections::BTreeSet;

use quote::quote;
use syn::{
    visit_mut::{self, VisitMut},
    *,
};

pub struct Unlock<'a> {
    pub types: &'a [String],
    /// fields that are vectors of these types
    pub vecs: BTreeSet<String>,
    /// fields that are one of these types, shared
    pub shared: BTreeSet<String>,
    pub used: bool,
    /// parameters of this function that were `Arc<T>` or `&Arc<T>`
    params: BTreeSet<String>,
    /// the receiver was `Arc<Self>`
    arc_self: bool,
}

impl<'a> Unlock<'a> {
    pub fn new(types: &'a [String]) -> Self {
        Unlock { types, vecs: BTreeSet::new(), shared: BTreeSet::new(), params: BTreeSet::new(), used: false, arc_self: false }
    }
    fn is(&self, t: &Type) -> bool {
        match t {
            Type::Path(p) => p.path.segments.last().map_or(false, |s| self.types.iter().any(|x| s.ident == x)),
            _ => false,
        }
    }
    fn arg<'t>(t: &'t Type, name: &str) -> Option<&'t Type> {
        if let Type::Path(p) = t {
            let s = p.path.segments.last()?;
            if s.ident == name {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        return Some(t);
                    }
                }
            }
        }
        None
    }
    /// `Arc<T>` or `&Arc<T>`
    fn shared_ref(&self, t: &Type) -> Option<Type> {
        let t = match t {
            Type::Reference(r) => &*r.elem,
            t => t,
        };
        Self::arg(t, "Arc").filter(|x| self.is(x)).cloned()
    }
    fn signature(&mut self, sig: &mut Signature, own: bool) -> (bool, bool) {
        let mut arc = false;
        self.params.clear();
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) if own => {
                    let byval = r.reference.is_none() && r.colon_token.is_none();
                    if !byval && r.mutability.is_none() {
                        arc = r.colon_token.is_some();
                        *r = parse_quote!(&mut self);
                        self.used = true;
                    }
                }
                FnArg::Receiver(_) => {}
                FnArg::Typed(t) => {
                    let before = (*t.ty).clone();
                    if let (Pat::Ident(i), Some(_)) = (&*t.pat, self.shared_ref(&t.ty)) {
                        self.params.insert(i.ident.to_string());
                    }
                    if let Some(x) = Self::arg(&t.ty, "Arc").filter(|x| self.is(x)).cloned() {
                        *t.ty = parse_quote!(&mut #x);
                        self.used = true;
                        continue;
                    }
                    self.visit_type_mut(&mut t.ty);
                    if before != *t.ty && !matches!(&*t.ty, Type::Reference(_)) || self.is(&t.ty) {
                        if let Pat::Ident(i) = &mut *t.pat {
                            i.mutability = Some(Default::default());
                        }
                    }
                }
            }
        }
        let mut ret = false;
        if let ReturnType::Type(_, t) = &mut sig.output {
            let before = (**t).clone();
            self.visit_type_mut(t);
            ret = matches!((&before, &**t), (Type::Reference(a), Type::Reference(b)) if a.mutability.is_none() && b.mutability.is_some());
        }
        (arc, ret)
    }
    fn body(&mut self, b: &mut Block, arc: bool, ret: bool) {
        let old = std::mem::replace(&mut self.arc_self, arc);
        if ret {
            if let Some(Stmt::Expr(Expr::Reference(r), None)) = b.stmts.last_mut() {
                r.mutability = Some(Default::default());
            }
        }
        self.visit_block_mut(b);
        self.arc_self = old;
    }
}

impl VisitMut for Unlock<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Some(x) = Self::arg(t, "Arc").cloned() {
            if self.is(&x) {
                *t = x;
                self.used = true;
                return;
            }
        }
        if let Type::Reference(r) = t {
            if self.is(&r.elem) && r.mutability.is_none() {
                r.mutability = Some(Default::default());
                self.used = true;
            }
        }
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        for f in &s.fields {
            if let (Some(n), Some(_)) = (&f.ident, Self::arg(&f.ty, "Arc").filter(|x| self.is(x))) {
                self.shared.insert(n.to_string());
            }
        }
        visit_mut::visit_item_struct_mut(self, s);
        for f in &s.fields {
            if let (Some(n), Some(x)) = (&f.ident, Self::arg(&f.ty, "Vec")) {
                if self.is(x) {
                    self.vecs.insert(n.to_string());
                }
            }
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        let (a, r) = self.signature(&mut f.sig, false);
        self.body(&mut f.block, a, r);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        let (a, r) = self.signature(&mut f.sig, false);
        if let Some(b) = &mut f.default {
            self.body(b, a, r);
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let own = self.is(&i.self_ty);
        for it in i.items.iter_mut() {
            if let ImplItem::Fn(f) = it {
                let (a, r) = self.signature(&mut f.sig, own);
                self.body(&mut f.block, a, r);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = e {
            if self.arc_self && matches!(&*r.expr, Expr::Path(p) if p.path.is_ident("self")) {
                *e = parse_quote!(self);
                return;
            }
        }
        if let Expr::Reference(r) = e {
            if let Expr::Field(x) = &*r.expr {
                if let Member::Named(n) = &x.member {
                    if self.shared.contains(&n.to_string()) && r.mutability.is_none() {
                        r.mutability = Some(Default::default());
                        self.used = true;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "clone" && m.args.is_empty() {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(i) = p.path.get_ident() {
                        if self.params.contains(&i.to_string()) {
                            *e = parse_quote!((&mut *#i));
                            self.used = true;
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Expr::Reference(r) = &*f.expr {
                if let Expr::Field(x) = &*r.expr {
                    if let Member::Named(n) = &x.member {
                        if self.vecs.contains(&n.to_string()) {
                            let (p, v, body) = (&f.pat, &r.expr, &mut f.body);
                            self.visit_block_mut(body);
                            let stmts = &body.stmts;
                            *e = parse_quote!({
                                let mut __i: usize = 0;
                                while __i < #v.len() {
                                    let #p = &mut #v[__i];
                                    #(#stmts)*
                                    __i = __i + 1;
                                }
                            });
                            self.used = true;
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                let f = quote!(#c).to_string();
                let name = match &*c.func {
                    Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => return,
                };
                let _ = f;
                let of_arc = matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Arc");
                if name == "new" && of_arc && c.args.len() == 1 {
                    // `Arc::new(T::new(..))` of an unlocked `T`
                    let x = c.args.first().unwrap().clone();
                    if let Expr::Call(k) = &x {
                        if let Expr::Path(p) = &*k.func {
                            let n = p.path.segments.len();
                            if n >= 2 && self.types.iter().any(|t| p.path.segments[n - 2].ident == t) {
                                *e = x;
                                self.used = true;
                            }
                        }
                    }
                } else if name == "drop" && c.args.len() == 1 {
                    *e = parse_quote!(());
                } else if (name == "spawn" || name == "spawn_blocking") && c.args.len() == 1 {
                    match c.args.first().unwrap() {
                        Expr::Closure(k) => {
                            let b = &k.body;
                            *e = parse_quote!(({ #b; }));
                        }
                        Expr::Async(k) => {
                            let b = &k.block;
                            *e = parse_quote!(({ #b; }));
                        }
                        x => *e = parse_quote!(({ #x; })),
                    }
                    self.used = true;
                }
            }
            Expr::MethodCall(m) if m.method == "borrow_mut" && m.args.is_empty() => {
                let r = &m.receiver;
                *e = parse_quote!((&mut #r));
                self.used = true;
            }
            _ => {}
        }
    }
}
