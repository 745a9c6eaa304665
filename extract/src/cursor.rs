//! A cursor that moves through a shared reference (`UnsafeCell`) is read as one that moves through an exclusive one.
//!
//! `== cursor TYPE`: what the type holds in an `UnsafeCell` it holds itself; `&self` of its methods and `&TYPE`
//! elsewhere is `&mut`; references its methods give live as long as what the cursor walks over (the lifetime
//! parameter of the type), as its callers use them. Nothing else reads the cursor while a function holds it, so the
//! moves are the same.
//!
//! In the same files functions as arguments of `Result::map` and the like are written as closures, and
//! `Result::map` on what is known to be a Result as a match.
use quote::quote;
use syn::{
    parse_quote,
    visit_mut::{self, VisitMut},
    *,
};

pub struct Cursor<'a> {
    pub name: &'a str,
    pub used: bool,
    /// the lifetime parameter of the type, inside its impl
    life: Option<Lifetime>,
}

impl<'a> Cursor<'a> {
    pub fn new(name: &'a str) -> Self {
        Cursor { name, used: false, life: None }
    }
    fn is(&self, t: &Type) -> bool {
        matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == self.name))
    }
}

/// `UnsafeCell<T>` is `T`
fn inner(t: &Type) -> Option<Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != "UnsafeCell" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.first()? {
        GenericArgument::Type(t) => Some(t.clone()),
        _ => None,
    }
}

/// `unsafe { &mut *X.get() }`
fn cell(u: &ExprUnsafe) -> Option<Expr> {
    let [Stmt::Expr(Expr::Reference(r), None)] = &u.block.stmts[..] else { return None };
    let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr else { return None };
    let Expr::MethodCall(m) = &**expr else { return None };
    (m.method == "get" && m.args.is_empty()).then(|| (*m.receiver).clone())
}
/// `unsafe { &*std::ptr::addr_of!(X) }`
fn alias(u: &ExprUnsafe) -> Option<Expr> {
    let [Stmt::Expr(Expr::Reference(r), None)] = &u.block.stmts[..] else { return None };
    let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr else { return None };
    let Expr::Macro(m) = &**expr else { return None };
    if m.mac.path.segments.last()?.ident != "addr_of" {
        return None;
    }
    parse2(m.mac.tokens.clone()).ok()
}

/// known to be a Result
fn is_result(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => m.method.to_string().starts_with("next_") || (m.method == "map_err" && is_result(&m.receiver)),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "from_utf8" || s.ident.to_string().starts_with("next_"))),
        Expr::Match(m) => m.arms.iter().any(|a| matches!(&a.pat, Pat::TupleStruct(t) if t.path.is_ident("Ok"))),
        Expr::Paren(p) => is_result(&p.expr),
        _ => false,
    }
}

struct Lives(Lifetime);
impl VisitMut for Lives {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(self.0.clone());
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
}

impl VisitMut for Cursor<'_> {
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        if s.ident == self.name {
            for f in s.fields.iter_mut() {
                if let Some(t) = inner(&f.ty) {
                    f.ty = t;
                    self.used = true;
                }
            }
        }
        visit_mut::visit_item_struct_mut(self, s);
    }

    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        if i.trait_.is_none() && self.is(&i.self_ty) {
            self.life = i.generics.lifetimes().next().map(|l| l.lifetime.clone());
        }
        visit_mut::visit_item_impl_mut(self, i);
        self.life = None;
    }

    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if let Some(l) = self.life.clone() {
            if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
                if r.reference.is_some() && r.mutability.is_none() {
                    *r = parse_quote!(&mut self);
                }
            }
            if let ReturnType::Type(_, t) = &mut f.sig.output {
                Lives(l).visit_type_mut(t);
            }
        }
        visit_mut::visit_impl_item_fn_mut(self, f);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            if r.mutability.is_none() && self.is(&r.elem) {
                r.mutability = Some(Default::default());
                r.lifetime = None;
                self.used = true;
            }
        }
        // the iterator of a vector
        if let Type::Path(p) = t {
            let n = p.path.segments.len();
            if n >= 2 && p.path.segments[n - 1].ident == "IntoIter" && p.path.segments[n - 2].ident == "vec" {
                let a = p.path.segments[n - 1].arguments.clone();
                let mut q: Path = parse_quote!(crate::stub::SeqIter);
                q.segments.last_mut().unwrap().arguments = a;
                p.path = q;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // an alias of a local cursor moves it
        let mut names = vec![];
        for s in &b.stmts {
            if let Stmt::Local(Local { init: Some(i), .. }) = s {
                if let Expr::Unsafe(u) = &*i.expr {
                    if let Some(Expr::Path(p)) = alias(u) {
                        names.extend(p.path.get_ident().cloned());
                    }
                }
            }
        }
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(Local { pat: Pat::Ident(i), .. }) = s {
                if names.contains(&i.ident) && i.mutability.is_none() {
                    i.mutability = Some(Default::default());
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unsafe(u) => {
                if let Some(mut x) = cell(u).or_else(|| alias(u)) {
                    self.visit_expr_mut(&mut x);
                    self.used = true;
                    *e = parse_quote!((&mut #x));
                    return;
                }
            }
            Expr::Call(c) if c.args.len() == 1 => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s.ends_with(&["UnsafeCell".into(), "new".into()]) {
                        let mut x = c.args[0].clone();
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
            }
            Expr::Call(c) if c.args.is_empty() => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s == ["bool", "default"] {
                        *e = parse_quote!(false);
                        return;
                    }
                }
            }
            // a literal is compared with a text
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => {
                if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &*b.left {
                    let r = &b.right;
                    *e = parse_quote!(crate::stub::text_is(&#r, #l));
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if (m.method == "map" && is_result(&m.receiver)) || m.method == "map_or_else" {
                    let n = m.args.len();
                    for (i, a) in m.args.iter_mut().enumerate() {
                        if let Expr::Path(p) = a {
                            // the first of two takes nothing
                            *a = if n == 2 && i == 0 { parse_quote!(|| #p()) } else { parse_quote!(|__x| #p(__x)) };
                        }
                    }
                }
                if m.method == "map" && m.args.len() == 1 && is_result(&m.receiver) {
                    if let Expr::Closure(c) = &m.args[0] {
                        if let (Some(Pat::Ident(p)), 1) = (c.inputs.first(), c.inputs.len()) {
                            let (r, b) = (&m.receiver, &c.body);
                            let mut x: Expr = parse_quote!((match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }));
                            self.visit_expr_mut(&mut x);
                            *e = x;
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `use` items of a file, and the code the repository's derive macro writes for its structs
pub fn derived(bin: &str, file: &str, module: &str) -> std::result::Result<File, String> {
    let src = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    let ast = parse_file(&src).map_err(|e| format!("{file}: {e}"))?;
    let o = std::process::Command::new(bin).arg(file).output().map_err(|e| format!("{bin}: {e}"))?;
    if !o.status.success() {
        return Err(format!("derive {file}: {}", String::from_utf8_lossy(&o.stderr)));
    }
    let mut f: File = parse_str(&String::from_utf8_lossy(&o.stdout)).map_err(|e| format!("derive {file}: {e}"))?;
    let mut items: Vec<Item> = ast.items.into_iter().filter(|i| matches!(i, Item::Use(_))).collect();
    let m: Path = parse_str(module).map_err(|e| format!("{module}: {e}"))?;
    for i in &f.items {
        if let Item::Impl(ItemImpl { self_ty, .. }) = i {
            if let Type::Path(TypePath { path, .. }) = &**self_ty {
                let t = &path.segments.last().unwrap().ident;
                items.push(Item::Use(parse2(quote!(use #m::#t;)).unwrap()));
            }
        }
    }
    items.append(&mut f.items);
    f.items = items;
    Ok(f)
}
