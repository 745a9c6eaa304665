//! `== byref TYPE`: values of this type are passed on through exclusive references instead of being moved, so that
//! contracts can speak about them after the call: `self` and `mut self` of its methods are `&mut self`, parameters
//! `x: TYPE` are `x: &mut TYPE`. When the value is dropped is not seen.
use syn::{
    visit_mut::{self, VisitMut},
    *,
};

pub struct ByRef<'a> {
    pub name: &'a str,
    pub used: bool,
    own: bool,
}

impl<'a> ByRef<'a> {
    pub fn new(name: &'a str) -> Self {
        ByRef { name, used: false, own: false }
    }
    fn is(&self, t: &Type) -> bool {
        matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == self.name))
    }
}

impl VisitMut for ByRef<'_> {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let own = self.is(&i.self_ty);
        let old = std::mem::replace(&mut self.own, own);
        visit_mut::visit_item_impl_mut(self, i);
        self.own = old;
    }
    fn visit_signature_mut(&mut self, sig: &mut Signature) {
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) if self.own && r.reference.is_none() && r.colon_token.is_none() => {
                    *r = parse_quote!(&mut self);
                    self.used = true;
                }
                FnArg::Typed(t) if self.is(&t.ty) => {
                    let x = (*t.ty).clone();
                    *t.ty = parse_quote!(&mut #x);
                    if let Pat::Ident(i) = &mut *t.pat {
                        i.mutability = None;
                    }
                    self.used = true;
                }
                _ => {}
            }
        }
    }
}
