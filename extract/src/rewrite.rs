//! The mechanical rewriting. Nothing here depends on what a particular function does.
use std::collections::{BTreeMap, BTreeSet};

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::{
    visit::Visit,
    visit_mut::{self, VisitMut},
    *,
};

use crate::{
    contracts::{Contract, Module, Unit},
    print::show,
    FnInfo,
};

pub struct Cx<'a> {
    unit: &'a Unit,
    canary: bool,
    pub fns: Vec<FnInfo>,
    texts: Vec<String>,
    used: BTreeSet<String>,
    used_impls: BTreeSet<String>,
    pub dropped: BTreeSet<String>,
    pub notes: BTreeSet<String>,
    crates: BTreeSet<String>,
    root: String,
    file: String,
    /// constants that are computed by a call
    inline: BTreeMap<String, Expr>,
}

const LOG: &[&str] = &["debug", "info", "error", "warn", "trace", "dbg", "println", "eprintln", "debug_assert", "debug_assert_eq", "debug_assert_ne"];
const ITER: &[&str] = &[
    "iter", "into_iter", "seq_iter", "into_seq", "range", "drain", "rev", "skip", "take", "enumerate", "chars", "bytes", "keys", "values",
    "iter_mut",
];

/// these give no iterator
const END: &[&str] = &[
    "next", "next_back", "position", "find", "find_map", "min", "max", "min_by_key", "max_by_key", "min_by", "max_by", "last", "nth", "get", "peek", "pop",
];

fn name_of(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => name_of(&r.elem),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t.contains("cfg(test)") || t.contains("#[test]") || t.contains("cfg(rudis_verif)")
    })
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn public() -> Visibility {
    parse_quote!(pub)
}

impl<'a> Cx<'a> {
    pub fn new(unit: &'a Unit, canary: bool) -> Self {
        let mut crates: BTreeSet<String> = ["common", "keys", "dict", "db", "server", "pd"].iter().map(|s| s.to_string()).collect();
        for m in &unit.modules {
            crates.insert(m.path.split("::").next().unwrap().into());
        }
        Cx {
            unit,
            canary,
            fns: vec![],
            texts: vec![],
            used: Default::default(),
            used_impls: Default::default(),
            dropped: Default::default(),
            notes: Default::default(),
            crates,
            root: String::new(),
            file: String::new(),
            inline: Default::default(),
        }
    }

    fn hole(&mut self, text: &str) -> Ident {
        self.texts.push(text.to_string());
        format_ident!("__VC_{}__", self.texts.len() - 1)
    }

    /// put the contract texts in
    pub fn fill(&self, s: &str) -> String {
        let mut out = String::new();
        for l in s.lines() {
            match l.trim().strip_prefix("__VC_").and_then(|r| r.strip_suffix("__")).and_then(|r| r.parse::<usize>().ok()) {
                Some(n) => {
                    // contract texts may themselves not have holes
                    out.push_str(self.texts[n].trim_end());
                    out.push('\n');
                }
                None => {
                    out.push_str(l);
                    out.push('\n');
                }
            }
        }
        out
    }

    /// contract entries without a function
    pub fn missing(&self) -> Vec<String> {
        let mut v: Vec<String> = self.unit.fns.keys().filter(|k| !self.used.contains(*k)).cloned().collect();
        v.extend(self.unit.from.keys().filter(|k| !self.used_impls.contains(*k)).map(|k| format!("from {k}")));
        v.extend(self.unit.impls.keys().filter(|k| !self.used_impls.contains(*k)).map(|k| format!("impl {k}")));
        v
    }

    fn wanted(&self, module: &str, name: &str) -> bool {
        if self.unit.drop.iter().any(|d| *d == format!("{module}::{name}")) {
            return false;
        }
        match self.unit.only.get(module) {
            Some(l) => l.iter().any(|n| n == name || name.starts_with(&format!("{n}@"))),
            None => true,
        }
    }

    pub fn module(&mut self, m: &Module, f: File) -> std::result::Result<String, String> {
        self.root = m.path.split("::").next().unwrap().to_string();
        self.file = m.file.clone();
        let mut out = String::new();
        for i in f.items {
            out.push_str(&self.item(&m.path, i));
        }
        Ok(out)
    }

    fn drop_note(&mut self, what: &str) {
        self.dropped.insert(what.to_string());
    }

    fn item(&mut self, module: &str, i: Item) -> String {
        match i {
            Item::Use(u) => {
                if is_test(&u.attrs) {
                    return String::new();
                }
                self.uses(&u)
            }
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    self.drop_note("test modules");
                }
                String::new()
            }
            Item::Fn(f) => {
                let name = f.sig.ident.to_string();
                if is_test(&f.attrs) || !self.wanted(module, &name) {
                    return String::new();
                }
                self.function(&format!("{module}::{name}"), public(), f.sig, Some(*f.block))
            }
            Item::Struct(mut s) => {
                if !self.wanted(module, &s.ident.to_string()) {
                    return String::new();
                }
                let d = derives(&s.attrs);
                s.attrs.clear();
                s.vis = public();
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = public();
                }
                Paths(self).visit_item_struct_mut(&mut s);
                let mut t = self.type_text(module, &d, &s.ident, &s.generics, s.to_token_stream());
                if d.iter().any(|x| x == "Default") {
                    let (ig, tg, w) = s.generics.split_for_impl();
                    let id = &s.ident;
                    let fs = s.fields.iter().map(|f| {
                        let n = &f.ident;
                        let ty = &f.ty;
                        quote!(#n: <#ty>::default())
                    });
                    let key = format!("{module}::{}@Default::default", s.ident);
                    let sig: Signature = parse_quote!(fn default() -> Self);
                    let body: Block = parse_quote!({ #id { #(#fs),* } });
                    let f = self.function(&key, Visibility::Inherited, sig, Some(body));
                    self.notes.insert("derive(Default) is written out: every field is its type's default".into());
                    t.push_str(&format!("{} {{\n{f}\n}}\n", show(quote!(impl #ig Default for #id #tg #w))));
                }
                for (tr, m) in [("PartialEq", "eq"), ("PartialOrd", "partial_cmp"), ("Ord", "cmp")] {
                    let key = format!("{module}::{}@{tr}::{m}", s.ident);
                    if !d.iter().any(|x| x == tr) || !self.unit.fns.contains_key(&key) {
                        continue;
                    }
                    self.notes.insert("derived comparisons are written out: field by field, in declaration order".into());
                    let names: Vec<Member> = s.fields.members().collect();
                    let last = names.len().saturating_sub(1);
                    let (sig, body): (Signature, TokenStream) = match tr {
                        "PartialEq" => (
                            parse_quote!(fn eq(&self, other: &Self) -> bool),
                            names.iter().fold(quote!(true), |a, n| quote!(#a && self.#n == other.#n)),
                        ),
                        _ => {
                            let meth = format_ident!("{m}");
                            let helper = format_ident!("field_{m}");
                            let eq = if tr == "Ord" { quote!(std::cmp::Ordering::Equal) } else { quote!(Some(std::cmp::Ordering::Equal)) };
                            let mut t = quote!(#eq);
                            for (i, n) in names.iter().enumerate().rev() {
                                let c = quote!(crate::stub::FieldCmp::#helper(&self.#n, &other.#n));
                                t = if i == last { c } else { quote!(match #c { #eq => #t, r => r }) };
                            }
                            let ret: Type = if tr == "Ord" { parse_quote!(std::cmp::Ordering) } else { parse_quote!(Option<std::cmp::Ordering>) };
                            (parse_quote!(fn #meth(&self, other: &Self) -> #ret), t)
                        }
                    };
                    let body: Block = parse_quote!({ #body });
                    let f = self.function(&key, Visibility::Inherited, sig, Some(body));
                    let (ig, tg, w) = s.generics.split_for_impl();
                    let (id, tr) = (&s.ident, format_ident!("{tr}"));
                    t.push_str(&format!("{} {{\n{f}\n}}\n", show(quote!(impl #ig #tr for #id #tg #w))));
                    if tr == "Ord" {
                        t.push_str(&format!("{} {{}}\n", show(quote!(impl #ig Eq for #id #tg #w))));
                    }
                }
                t
            }
            Item::Enum(mut e) => {
                if !self.wanted(module, &e.ident.to_string()) {
                    return String::new();
                }
                let d = derives(&e.attrs);
                e.attrs.clear();
                e.vis = public();
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                Paths(self).visit_item_enum_mut(&mut e);
                self.type_text(module, &d, &e.ident, &e.generics, e.to_token_stream())
            }
            Item::Type(mut t) => {
                if !self.wanted(module, &t.ident.to_string()) {
                    return String::new();
                }
                t.attrs.clear();
                t.vis = public();
                Paths(self).visit_item_type_mut(&mut t);
                show(t.to_token_stream()) + "\n"
            }
            Item::Const(mut c) => {
                if !self.wanted(module, &c.ident.to_string()) {
                    return String::new();
                }
                if matches!(&*c.expr, Expr::Call(_)) {
                    self.notes.insert("a constant that is computed by a call is computed where it is used".into());
                    self.inline.insert(c.ident.to_string(), (*c.expr).clone());
                    return String::new();
                }
                c.attrs.clear();
                c.vis = public();
                Paths(self).visit_item_const_mut(&mut c);
                Fold.visit_expr_mut(&mut c.expr);
                show(c.to_token_stream()) + "\n"
            }
            Item::Trait(mut t) => {
                if !self.wanted(module, &t.ident.to_string()) {
                    return String::new();
                }
                t.attrs.clear();
                t.vis = public();
                let key = format!("{module}::{}", t.ident);
                let items = std::mem::take(&mut t.items);
                Paths(self).visit_item_trait_mut(&mut t);
                let head = show(t.to_token_stream());
                let head = head.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
                let mut out = format!("{head} {{\n{}", self.impl_extra(&key));
                for i in items {
                    match i {
                        TraitItem::Fn(f) => {
                            let k = format!("{key}::{}", f.sig.ident);
                            if self.unit.drop.contains(&k) {
                                continue;
                            }
                            out.push_str(&self.function(&k, Visibility::Inherited, f.sig, f.default))
                        }
                        TraitItem::Type(mut t) => {
                            t.attrs.clear();
                            Paths(self).visit_trait_item_type_mut(&mut t);
                            out.push_str(&show(t.to_token_stream()));
                        }
                        TraitItem::Const(mut t) => {
                            t.attrs.clear();
                            Paths(self).visit_trait_item_const_mut(&mut t);
                            out.push_str(&show(t.to_token_stream()));
                        }
                        _ => {}
                    }
                }
                out + "}\n"
            }
            Item::Impl(mut im) => {
                if is_test(&im.attrs) {
                    return String::new();
                }
                let ty = name_of(&im.self_ty);
                let mut name = match &im.trait_ {
                    Some((_, p, _)) => format!("{ty}@{}", p.segments.last().unwrap().ident),
                    None => ty.clone(),
                };
                if let Some((_, p, _)) = &im.trait_ {
                    // one of several impls of a generic trait
                    let s = format!("{ty}@{}", p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                    let full = format!("{module}::{s}");
                    if self.unit.fns.keys().chain(self.unit.impls.keys()).chain(self.unit.from.keys()).chain(&self.unit.drop).any(|k| k.starts_with(&full)) {
                        name = s;
                    }
                }
                if !self.wanted(module, &name) {
                    return String::new();
                }
                im.attrs.clear();
                let key = format!("{module}::{name}");
                let is_trait = im.trait_.is_some();
                let items = std::mem::take(&mut im.items);
                Paths(self).visit_item_impl_mut(&mut im);
                let head = show(im.to_token_stream());
                let head = head.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
                let mut out = format!("{head} {{\n{}", self.impl_extra(&key));
                for i in items {
                    match i {
                        ImplItem::Fn(f) => {
                            let k = format!("{key}::{}", f.sig.ident);
                            if is_test(&f.attrs) || self.unit.drop.contains(&k) {
                                continue;
                            }
                            let vis = if is_trait { Visibility::Inherited } else { public() };
                            out.push_str(&self.function(&k, vis, f.sig, Some(f.block)))
                        }
                        ImplItem::Type(mut t) => {
                            t.attrs.clear();
                            Paths(self).visit_impl_item_type_mut(&mut t);
                            out.push_str(&show(t.to_token_stream()));
                        }
                        ImplItem::Const(mut t) => {
                            t.attrs.clear();
                            t.vis = if is_trait { Visibility::Inherited } else { public() };
                            Paths(self).visit_impl_item_const_mut(&mut t);
                            Fold.visit_expr_mut(&mut t.expr);
                            out.push_str(&show(t.to_token_stream()));
                        }
                        _ => {}
                    }
                }
                out.push_str("}\n");
                if let Some((_, p, _)) = &im.trait_ {
                    let last = p.segments.last().unwrap();
                    if last.ident == "From" || last.ident == "TryFrom" {
                        let (ig, _, w) = im.generics.split_for_impl();
                        let arg = match &last.arguments {
                            PathArguments::AngleBracketed(a) => a.args.first().map(|a| a.to_token_stream()).unwrap_or_default(),
                            _ => quote!(),
                        };
                        let (arg, st) = (show(arg), show(im.self_ty.to_token_stream()));
                        let gen = show(ig.to_token_stream());
                        let w = show(w.to_token_stream());
                        if let Some(t) = self.unit.from.get(&key) {
                            self.used_impls.insert(key.clone());
                            out.push_str(&format!("impl {gen} FromSpecImpl<{arg}> for {st} {w} {{\nopen spec fn obeys_from_spec() -> bool {{ true }}\nopen spec fn from_spec(v: {arg}) -> Self {{ {} }}\n}}\n", t.trim()));
                        } else if last.ident == "From" {
                            out.push_str(&format!("impl {gen} FromSpecImpl<{arg}> for {st} {w} {{\nopen spec fn obeys_from_spec() -> bool {{ false }}\nopen spec fn from_spec(v: {arg}) -> Self {{ arbitrary() }}\n}}\n"));
                        } else if last.ident == "TryFrom" && !self.unit.options.iter().any(|o| *o == format!("tryfrom {key}")) {
                            out.push_str(&format!("impl {gen} TryFromSpecImpl<{arg}> for {st} {w} {{\nopen spec fn obeys_try_from_spec() -> bool {{ false }}\nopen spec fn try_from_spec(v: {arg}) -> core::result::Result<Self, Self::Error> {{ arbitrary() }}\n}}\n"));
                        }
                    }
                }
                out
            }
            _ => String::new(),
        }
    }

    fn impl_extra(&mut self, key: &str) -> String {
        match self.unit.impls.get(key) {
            Some(t) => {
                self.used_impls.insert(key.into());
                t.clone() + "\n"
            }
            None => String::new(),
        }
    }

    fn type_text(&mut self, module: &str, d: &[String], id: &Ident, g: &Generics, ts: TokenStream) -> String {
        let has = |x: &str| d.iter().any(|y| y == x);
        let opt = |o: &str| self.unit.options.iter().any(|x| *x == format!("{o} {module}::{id}"));
        let mut out = String::new();
        let plain = opt("plain");
        let noclone = opt("noclone");
        if has("Copy") && has("Clone") && !plain {
            out.push_str("#[derive(Clone, Copy)]\n");
        }
        out.push_str(&show(ts));
        out.push('\n');
        let (ig, tg, w) = g.split_for_impl();
        if has("PartialEq") && opt("structural") {
            self.notes.insert("derive(PartialEq) is assumed to compare all fields".into());
            let pe = |t: &str| show(quote!(impl #ig)) + " " + t + " for " + &show(quote!(#id #tg #w));
            out.push_str(&format!(
                "{} {{\nopen spec fn obeys_eq_spec() -> bool {{ true }}\nopen spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }}\n}}\n",
                pe("vstd::std_specs::cmp::PartialEqSpecImpl")
            ));
            out.push_str(&format!("{} {{\n#[verifier::external_body]\nfn eq(&self, o: &Self) -> (r: bool) {{ loop {{}} }}\n}}\n", pe("PartialEq")));
        }
        if has("Clone") && !has("Copy") && !noclone {
            self.notes.insert("derive(Clone) is assumed to give an equal value".into());
            out.push_str(&format!(
                "{} {{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self {{ loop {{}} }}\n}}\n",
                show(quote!(impl #ig Clone for #id #tg #w))
            ));
        }
        out
    }

    fn uses(&mut self, u: &ItemUse) -> String {
        let mut flat = vec![];
        fn walk(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
            match t {
                UseTree::Path(p) => {
                    pre.push(p.ident.to_string());
                    walk(&p.tree, pre, out);
                    pre.pop();
                }
                UseTree::Name(n) => {
                    let mut v = pre.clone();
                    if n.ident != "self" {
                        v.push(n.ident.to_string());
                    }
                    out.push((v, None));
                }
                UseTree::Rename(n) => {
                    let mut v = pre.clone();
                    if n.ident != "self" {
                        v.push(n.ident.to_string());
                    }
                    out.push((v, Some(n.rename.to_string())));
                }
                UseTree::Glob(_) => {
                    let mut v = pre.clone();
                    v.push("*".into());
                    out.push((v, None));
                }
                UseTree::Group(g) => {
                    for t in &g.items {
                        walk(t, pre, out);
                    }
                }
            }
        }
        walk(&u.tree, &mut vec![], &mut flat);
        let mut out = String::new();
        for (p, alias) in flat {
            let s = p.join("::");
            if self.unit.dropuse.iter().any(|d| s == *d || s.starts_with(&format!("{d}::"))) && !self.unit.keepuse.contains(&s) {
                continue;
            }
            let s = self.map_path(&s);
            let alias = alias.map_or(String::new(), |a| format!(" as {a}"));
            out.push_str(&format!("pub use {s}{alias};\n"));
        }
        out
    }

    /// path of another crate, of this crate, renamed
    fn map_path(&self, s: &str) -> String {
        let mut best: Option<(&str, &str)> = None;
        let full = match s.strip_prefix("crate::") {
            // mapped already
            Some(r) if r.split("::").next().map_or(false, |f| self.crates.contains(f) || f == "stub" || f == "spec") => return s.to_string(),
            Some(r) => format!("{}::{r}", self.root),
            None => s.to_string(),
        };
        for (a, b) in &self.unit.renames {
            if (full == *a || full.starts_with(&format!("{a}::"))) && best.map_or(true, |x| x.0.len() < a.len()) {
                best = Some((a, b));
            }
        }
        if let Some((a, b)) = best {
            return format!("{b}{}", &full[a.len()..]);
        }
        let first = full.split("::").next().unwrap();
        if full.contains("::") && self.crates.contains(first) {
            return format!("crate::{full}");
        }
        s.to_string()
    }

    fn function(&mut self, path: &str, vis: Visibility, mut sig: Signature, block: Option<Block>) -> String {
        let c = self.unit.fns.get(path).cloned();
        if c.is_some() {
            self.used.insert(path.into());
        }
        let has = c.is_some();
        let c = c.unwrap_or_default();
        Paths(self).visit_signature_mut(&mut sig);
        sig.asyncness = None;
        let line = sig.ident.span().start().line;
        let marker = self.fns.len();
        let mut info = FnInfo {
            path: path.into(),
            file: self.file.clone(),
            src_line: line,
            contract: has,
            stub: c.stub,
            hinted: c.start.is_some()
                || c.end.is_some()
                || !c.before.is_empty()
                || !c.after.is_empty()
                || !c.loops.is_empty()
                || !c.loop_start.is_empty()
                || !c.loop_end.is_empty()
                || !c.loop_before.is_empty()
                || !c.closure_start.is_empty(),
            lost: vec![],
            anchors: vec![],
            calls: Default::default(),
            marker,
        };
        // keep the index
        self.fns.push(FnInfo {
            path: String::new(),
            file: String::new(),
            src_line: 0,
            contract: false,
            stub: false,
            hinted: false,
            lost: vec![],
            anchors: vec![],
            calls: Default::default(),
            marker,
        });
        // argument patterns
        let mut pre = vec![];
        let mut own_self = false;
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Receiver(r) = a {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    own_self = !c.stub;
                }
            }
            if let FnArg::Typed(t) = a {
                t.attrs.clear();
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let id = format_ident!("__arg{i}");
                    let p = t.pat.clone();
                    pre.push(quote!(let #p = #id;));
                    *t.pat = parse_quote!(#id);
                }
            }
        }
        let ret = c.ret.clone().unwrap_or("r".into());
        let mut s = String::new();
        let output = std::mem::replace(&mut sig.output, ReturnType::Default);
        let wher = sig.generics.where_clause.take();
        let mut head = show(quote!(#vis #sig));
        if let ReturnType::Type(_, t) = &output {
            head.push_str(&format!(" -> ({ret}: {})", show(quote!(#t))));
        }
        if let Some(w) = wher {
            head.push_str(&format!("\n  {}", show(quote!(#w))));
        }
        s.push_str(&format!("//@fn {marker}\n"));
        if !c.attr.trim().is_empty() {
            s.push_str(c.attr.trim());
            s.push('\n');
        }
        if c.stub {
            s.push_str("#[verifier::external_body]\n");
        }
        let mut text_body = String::new();
        match block {
            Some(_) if c.stub => text_body.push_str("{ loop {} }\n"),
            Some(mut b) => {
                if let Some(n) = marks(&b) {
                    self.notes.insert(n);
                }
                {
                    let mut calls = Calls(BTreeSet::new());
                    calls.visit_block(&b);
                    info.calls = calls.0;
                }
                let opt_ret = matches!(&output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Option")));
                let tail_is_ref = matches!(&output, ReturnType::Type(_, t) if matches!(**t, Type::Reference(_)) || t.to_token_stream().to_string().contains("& mut"));
                Fold.visit_block_mut(&mut b);
                if own_self {
                    // `mut self` is a local variable
                    Renamed("self", "__self").visit_block_mut(&mut b);
                    pre.push(quote!(let mut __self = self;));
                }
                let mut h = Hints { cx: self, c: &c, info: &mut info, seen: BTreeMap::new() };
                h.visit_block_mut(&mut b);
                for (n, call, _) in c.before.iter().chain(&c.after) {
                    if *n >= h.seen.get(call).copied().unwrap_or(0) {
                        let l = format!("no statement {n} that calls {call}");
                        h.info.lost.push(l);
                    }
                }
                let mut body = Body { cx: self, c: &c, info: &mut info, loops: 0, closures: 0, tmp: 0, tail: None, opt_ret };
                body.block(&mut b);
                let (nl, nc) = (body.loops, body.closures);
                for l in c.loops.keys().chain(c.loop_start.keys()).chain(c.loop_end.keys()).chain(c.loop_before.keys()) {
                    if *l >= nl {
                        info.lost.push(format!("no loop {l}"));
                    }
                }
                for l in c.closures.keys().chain(c.closure_start.keys()) {
                    if *l >= nc {
                        info.lost.push(format!("no closure {l}"));
                    }
                }
                if nl > 0 {
                    s.push_str("#[verifier::loop_isolation(false)]\n");
                }
                let mut stmts: Vec<TokenStream> = pre;
                if let Some(t) = &c.start {
                    let h = self.hole(t);
                    stmts.push(quote!(#h));
                }
                let n = b.stmts.len();
                let canary = self.canary && has && !tail_is_ref;
                for (i, st) in b.stmts.iter().enumerate() {
                    let tail = i + 1 == n && matches!(st, Stmt::Expr(_, None));
                    if tail {
                        if let Some(t) = &c.end {
                            let h = self.hole(t);
                            stmts.push(quote!(#h));
                        }
                        if canary && st.to_token_stream().to_string().starts_with("loop") {
                            // its end may be out of reach
                            stmts.push(quote!(assert(false); #st));
                            continue;
                        }
                        if canary {
                            stmts.push(quote!(let __canary = #st; assert(false); __canary));
                            continue;
                        }
                    }
                    stmts.push(st.to_token_stream());
                    if i + 1 == n && !tail {
                        if let Some(t) = &c.end {
                            let h = self.hole(t);
                            stmts.push(quote!(#h));
                        }
                        if canary {
                            stmts.push(quote!(assert(false);));
                        }
                    }
                }
                if n == 0 && canary {
                    stmts.push(quote!(assert(false);));
                }
                text_body.push_str(&show(quote!({ #(#stmts)* })));
                text_body.push('\n');
            }
            None => text_body.push_str(";\n"),
        }
        s.push_str(&head);
        s.push('\n');
        if !c.text.trim().is_empty() {
            let h = self.hole(&c.text);
            s.push_str(&format!("{h}\n"));
        }
        s.push_str(&text_body);
        s.push_str(&format!("//@end {marker}\n"));
        self.fns[marker] = info;
        s
    }
}

/// a variable under another name, in macro arguments too
struct Renamed(&'static str, &'static str);
impl VisitMut for Renamed {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(self.0) {
            let i = Ident::new(self.1, proc_macro2::Span::call_site());
            p.path = parse_quote!(#i);
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: TokenStream, a: &str, b: &str) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
                    TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), a, b))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(std::mem::take(&mut m.tokens), self.0, self.1);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn marks(b: &Block) -> Option<String> {
    let t = b.to_token_stream().to_string();
    LOG.iter().find(|l| t.contains(&format!("{l} !"))).map(|_| "log macros and debug assertions are left out".to_string())
}

/// every name that is called
struct Calls(BTreeSet<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, e: &'ast ExprCall) {
        if let Expr::Path(p) = &*e.func {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast ExprMethodCall) {
        self.0.insert(e.method.to_string());
        visit::visit_expr_method_call(self, e);
    }
}

/// paths only
struct Paths<'a, 'b>(&'a mut Cx<'b>);
impl VisitMut for Paths<'_, '_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_path_in(self.0, p);
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        let _ = v;
    }
}

fn map_path_in(cx: &Cx, p: &mut Path) {
    let n = p.segments.len();
    // the part before generic arguments is what is looked up
    let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let full = names.join("::");
    let mapped = cx.map_path(&full);
    // a module alone is neither a value nor a type
    let module = n == 1 && mapped.rsplit("::").next().map_or(false, |x| x.starts_with(|c: char| c.is_lowercase()));
    if mapped == full || module {
        return;
    }
    let last_args = p.segments.iter().map(|s| s.arguments.clone()).collect::<Vec<_>>();
    let mut q: Path = parse_str(&mapped).unwrap();
    let m = q.segments.len();
    for k in 0..n.min(m) {
        q.segments[m - 1 - k].arguments = last_args[n - 1 - k].clone();
    }
    *p = q;
}

/// proof texts before and after statements
struct Hints<'a, 'b> {
    cx: &'a mut Cx<'b>,
    c: &'a Contract,
    info: &'a mut FnInfo,
    seen: BTreeMap<String, usize>,
}

/// the statement calls `name` outside of the blocks in it
fn calls_here(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => g.delimiter() != Delimiter::Brace && calls_here(g.stream(), name),
        TokenTree::Ident(i) => i == name,
        _ => false,
    })
}

impl VisitMut for Hints<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let names: BTreeSet<String> = self.c.before.iter().chain(&self.c.after).map(|x| x.1.clone()).collect();
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut post = vec![];
            for n in &names {
                if calls_here(s.to_token_stream(), n) {
                    let k = self.seen.entry(n.clone()).or_insert(0);
                    let me = *k;
                    *k += 1;
                    for (i, name, text) in &self.c.before {
                        if *i == me && name == n {
                            let h = self.cx.hole(text);
                            out.push(Stmt::Expr(Expr::Verbatim(quote!(#h)), None));
                        }
                    }
                    for (i, name, text) in &self.c.after {
                        if *i == me && name == n {
                            if matches!(s, Stmt::Expr(_, None)) && !ends_block(&s) {
                                self.info.lost.push(format!("the statement that calls {n} is a tail expression"));
                                continue;
                            }
                            let h = self.cx.hole(text);
                            post.push(Stmt::Expr(Expr::Verbatim(quote!(#h)), None));
                        }
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
    }
}

fn ends_block(s: &Stmt) -> bool {
    matches!(s, Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_), _))
}

/// `if c { a; continue; } rest` is `if c { a; } else { rest }`
fn no_continue(stmts: &mut Vec<Stmt>) {
    for i in 0..stmts.len() {
        let Stmt::Expr(Expr::If(f), _) = &mut stmts[i] else { continue };
        if f.else_branch.is_some() || !matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()) {
            continue;
        }
        f.then_branch.stmts.pop();
        let mut f = f.clone();
        let mut rest = stmts.split_off(i + 1);
        no_continue(&mut rest);
        let rest: Block = parse_quote!({ #(#rest)* });
        f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
        stmts.pop();
        stmts.push(Stmt::Expr(Expr::If(f), None));
        return;
    }
}

struct Body<'a, 'b> {
    cx: &'a mut Cx<'b>,
    c: &'a Contract,
    info: &'a mut FnInfo,
    loops: usize,
    closures: usize,
    tmp: usize,
    tail: Option<String>,
    /// the function gives an Option
    opt_ret: bool,
}

fn has_return(e: &Expr) -> bool {
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_expr(e);
    r.0
}

fn is_log(m: &Macro) -> bool {
    LOG.iter().any(|l| m.path.segments.last().unwrap().ident == l)
}

fn idents(p: &Pat) -> Vec<String> {
    struct I(Vec<String>);
    impl<'ast> Visit<'ast> for I {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            self.0.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = I(vec![]);
    v.visit_pat(p);
    v.0
}
fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == name,
        TokenTree::Group(g) => mentions(g.stream(), name),
        _ => false,
    })
}

/// `let p = x` for a pattern, with the patterns the verifier has no support for written out
fn bind(p: &Pat, x: TokenStream) -> TokenStream {
    match p {
        Pat::Ident(i) if i.by_ref.is_some() => {
            let id = &i.ident;
            let m = &i.mutability;
            quote!(let #id = & #m #x;)
        }
        Pat::Reference(r) => {
            let q = &r.pat;
            quote!(let #q = *#x;)
        }
        Pat::Wild(_) => quote!(),
        Pat::Type(t) => {
            let p = &t.pat;
            let ty = &t.ty;
            quote!(let #p: #ty = #x;)
        }
        Pat::Tuple(t) if t.elems.iter().all(|e| matches!(e, Pat::Ident(_) | Pat::Wild(_) | Pat::Reference(_))) => {
            // through a reference: default binding modes are not needed for idents
            quote!(let #t = #x;)
        }
        p => quote!(let #p = #x;),
    }
}

/// integer constants are computed
struct Fold;
fn int(e: &Expr) -> Option<i128> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix().is_empty() => i.base10_parse().ok(),
        Expr::Paren(p) => int(&p.expr),
        _ => None,
    }
}
impl VisitMut for Fold {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            if let (Some(x), Some(y)) = (int(&b.left), int(&b.right)) {
                let v = match b.op {
                    BinOp::Shl(_) if y < 64 => x << y,
                    BinOp::Sub(_) if x >= y => x - y,
                    BinOp::Mul(_) if x < 1 << 40 && y < 1 << 40 => x * y,
                    _ => return,
                };
                if v < 1 << 63 {
                    let l = LitInt::new(&v.to_string(), proc_macro2::Span::call_site());
                    *e = parse_quote!(#l);
                }
            }
        }
    }
}

/// the alternatives of a pattern
fn alternatives(p: &Pat) -> Vec<Pat> {
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(alternatives).collect(),
        Pat::Paren(q) => alternatives(&q.pat),
        Pat::Tuple(t) => product(&t.elems).into_iter().map(|e| Pat::Tuple(PatTuple { elems: e, ..t.clone() })).collect(),
        Pat::TupleStruct(t) => {
            product(&t.elems).into_iter().map(|e| Pat::TupleStruct(PatTupleStruct { elems: e, ..t.clone() })).collect()
        }
        Pat::Reference(r) => {
            alternatives(&r.pat).into_iter().map(|q| Pat::Reference(PatReference { pat: Box::new(q), ..r.clone() })).collect()
        }
        p => vec![p.clone()],
    }
}
fn product(e: &punctuated::Punctuated<Pat, Token![,]>) -> Vec<punctuated::Punctuated<Pat, Token![,]>> {
    let mut res = vec![punctuated::Punctuated::new()];
    for p in e {
        let mut next = vec![];
        for a in alternatives(p) {
            for r in &res {
                let mut r = r.clone();
                r.push(a.clone());
                next.push(r);
            }
        }
        res = next;
    }
    res
}

impl Body<'_, '_> {
    fn block(&mut self, b: &mut Block) {
        // the tail expression of the function: `return` in a closure there is the same as in the function
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail = Some(e.to_token_stream().to_string());
        }
        self.visit_block_mut(b);
    }

    fn tmp(&mut self) -> Ident {
        self.tmp += 1;
        format_ident!("__t{}", self.tmp)
    }

    fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) if END.iter().any(|n| m.method == n) => false,
            Expr::MethodCall(m) => ITER.iter().any(|n| m.method == n) || self.is_iter(&m.receiver),
            Expr::Paren(p) => self.is_iter(&p.expr),
            Expr::Try(p) => self.is_iter(&p.expr),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.cx.unit.iter_roots.iter().any(|r| i == r)),
            _ => false,
        }
    }

    fn loop_before(&mut self, n: usize) -> TokenStream {
        self.c.loop_before.get(&n).cloned().map_or(quote!(), |t| {
            let h = self.cx.hole(&t);
            quote!(#h)
        })
    }

    fn loop_parts(&mut self, n: usize) -> (Option<Ident>, TokenStream, TokenStream) {
        let inv = self.c.loops.get(&n).map(|t| t.to_string());
        let inv = inv.map(|t| self.cx.hole(&t));
        let st = self.c.loop_start.get(&n).cloned().map(|t| self.cx.hole(&t));
        let en = self.c.loop_end.get(&n).cloned().map(|t| self.cx.hole(&t));
        (inv, st.map_or(quote!(), |h| quote!(#h)), en.map_or(quote!(), |h| quote!(#h)))
    }
}

impl VisitMut for Body<'_, '_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_path_in(self.cx, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            let r = match s {
                Stmt::Macro(m) => select(&m.mac),
                Stmt::Expr(Expr::Macro(m), _) => select(&m.mac),
                _ => None,
            };
            if let Some(r) = r {
                self.cx.notes.insert("select! runs one of its futures, whichever, to its end; what the others did until then is not seen".into());
                *s = r;
            }
        }
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !is_log(&m.mac),
            Stmt::Expr(Expr::Macro(m), _) => !is_log(&m.mac),
            Stmt::Item(Item::Use(_)) => true,
            _ => true,
        });
        // a local constant is a variable of the block
        let (consts, rest): (Vec<Stmt>, Vec<Stmt>) =
            std::mem::take(&mut b.stmts).into_iter().partition(|s| matches!(s, Stmt::Item(Item::Const(_))));
        b.stmts = consts
            .into_iter()
            .map(|s| match s {
                Stmt::Item(Item::Const(c)) => {
                    let (n, t, e) = (c.ident, c.ty, c.expr);
                    parse_quote!(let #n: #t = #e;)
                }
                s => s,
            })
            .chain(rest)
            .collect();
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_block_mut(&mut self, b: &mut ExprBlock) {
        b.attrs.clear();
        visit_mut::visit_expr_block_mut(self, b);
    }

    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // arguments of the macros that are kept are expressions
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n == "vec" || n == "matches" || n == "format" || n == "assert" || n == "write" {
            if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                m.tokens = args.to_token_stream();
            } else if n == "vec" {
                struct Rep(Expr, Expr);
                impl parse::Parse for Rep {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(mut a, mut b)) = m.parse_body_with(<Rep as syn::parse::Parse>::parse) {
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    m.tokens = quote!(#a; #b);
                }
            } else if n == "matches" {
                let mut t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                // paths in the pattern
                let _ = &mut t;
            }
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_ident_mut(&mut self, i: &mut Ident) {
        // names of the verifier's own types
        if *i == "int" || *i == "nat" {
            *i = format_ident!("{i}_");
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("format") {
                self.cx.notes.insert("format! gives some text, its arguments are only shown".into());
                // with a fixed part the text is not empty
                let fixed = match m.mac.tokens.clone().into_iter().next() {
                    Some(TokenTree::Literal(l)) => parse_str::<LitStr>(&l.to_string()).map_or(false, |l| {
                        l.value().chars().next().map_or(false, |c| c != '{' && c != '}')
                    }),
                    _ => false,
                };
                *e = if fixed { parse_quote!(crate::stub::some_words()) } else { parse_quote!(crate::stub::some_text()) };
                return;
            }
        }
        if let Expr::Path(p) = e {
            if let Some(x) = p.path.get_ident().and_then(|i| self.cx.inline.get(&i.to_string())) {
                *e = x.clone();
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                self.info.anchors.push((format!("loop {n}"), format!("for {} in {}", f.pat.to_token_stream(), f.expr.to_token_stream())));
                no_continue(&mut f.body.stmts);
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                let (inv, st, en) = self.loop_parts(n);
                if inv.is_none() && self.info.contract {
                    self.info.lost.push(format!("loop {n} has no invariant"));
                }
                let it = format_ident!("it{n}");
                let p = format_ident!("__p{n}");
                let b = bind(&f.pat, quote!(#p));
                let x = &f.expr;
                let stmts = &f.body.stmts;
                let label = &f.label;
                // a temporary the loop walks lives as long as the loop
                let mut x = (**x).clone();
                if let Expr::Reference(r) = &x {
                    if r.mutability.is_some() {
                        let y = &r.expr;
                        x = parse_quote!((#y).seq_iter_mut());
                    }
                }
                let mut held = quote!();
                {
                    let mut y: &mut Expr = &mut x;
                    while let Expr::MethodCall(m) = y {
                        y = &mut m.receiver;
                        if matches!(y, Expr::MethodCall(m) if m.method == "clone") {
                            let h = format_ident!("__h{n}");
                            held = quote!(let #h = #y;);
                            *y = parse_quote!(#h);
                        }
                    }
                }
                let (label, x) = (quote!(#label), quote!(crate::stub::for_items(#x)));
                let l = quote!(#label for #p in #it: #x #inv { #st #b #(#stmts)* #en });
                let pre = self.loop_before(n);
                *e = Expr::Verbatim(if held.is_empty() && pre.is_empty() { l } else { quote!({ #held #pre #l }) });
                return;
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                self.info.anchors.push((format!("loop {n}"), format!("while {}", w.cond.to_token_stream())));
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (inv, st, en) = self.loop_parts(n);
                if inv.is_none() && self.info.contract {
                    self.info.lost.push(format!("loop {n} has no invariant"));
                }
                let stmts = &w.body.stmts;
                let label = &w.label;
                let cond = &w.cond;
                let pre = self.loop_before(n);
                // `while let` as a loop with a match
                if let Expr::Let(l) = &**cond {
                    let (p, x) = (&l.pat, &l.expr);
                    *e = Expr::Verbatim(quote!(#label loop #inv { #st match #x { #p => { #(#stmts)* } _ => { break; } } #en }));
                } else {
                    *e = Expr::Verbatim(quote!(#label while #cond #inv { #st #(#stmts)* #en }));
                }
                if !pre.is_empty() {
                    *e = Expr::Verbatim(quote!({ #pre #e }));
                }
                return;
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                self.info.anchors.push((format!("loop {n}"), "loop".into()));
                // the value of a loop is kept in a variable
                let v = format_ident!("__brk{n}");
                let mut b = Breaks { v: &v, label: w.label.as_ref().map(|l| l.name.ident.clone()), depth: 0, used: false };
                b.visit_block_mut(&mut w.body);
                let valued = b.used;
                self.visit_block_mut(&mut w.body);
                let (inv, st, en) = self.loop_parts(n);
                if inv.is_none() && self.info.contract {
                    self.info.lost.push(format!("loop {n} has no invariant"));
                }
                let stmts = &w.body.stmts;
                let label = &w.label;
                if valued {
                    self.cx.notes.insert("the value a loop is left with is kept in a variable".into());
                    *e = Expr::Verbatim(quote!(({ let mut #v = None; #label loop #inv { #st #(#stmts)* #en } crate::stub::broken_with(#v) })));
                    return;
                }
                *e = Expr::Verbatim(quote!(#label loop #inv { #st #(#stmts)* #en }));
                return;
            }
            Expr::Cast(c)
                if matches!(*c.ty, Type::Infer(_))
                    && self.cx.unit.options.iter().any(|o| o.strip_prefix("cast ").map_or(false, |m| self.info.path.starts_with(m))) =>
            {
                self.visit_expr_mut(&mut c.expr);
                let x = &c.expr;
                *e = Expr::Verbatim(quote!((crate::stub::Cast::cast(#x))));
                return;
            }
            // a match on texts
            Expr::Match(m) if m.arms.len() > 1 && text_arms(m) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Match(m) = e else { unreachable!() };
                let x = match &*m.expr {
                    Expr::Reference(ExprReference { expr, mutability: None, .. }) => match &**expr {
                        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => quote!(#expr.as_str()),
                        _ => m.expr.to_token_stream(),
                    },
                    x => x.to_token_stream(),
                };
                let t = self.tmp();
                let mut chain = quote!();
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let tests: Vec<TokenStream> = alternatives(&a.pat)
                        .iter()
                        .filter_map(|p| match p {
                            Pat::Lit(l) => Some(quote!(crate::stub::text_is(&#t, #l))),
                            _ => None,
                        })
                        .collect();
                    chain = if tests.is_empty() { quote!({ #b }) } else { quote!(if #(#tests)||* { #b } else #chain) };
                }
                self.cx.notes.insert("a match on string literals is written as a chain of comparisons".into());
                *e = Expr::Verbatim(quote!(({ let #t = #x; #chain })));
                return;
            }
            // `ne` is never overridden here
            Expr::Binary(b) if matches!(b.op, BinOp::Ne(_)) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Binary(b) = e else { unreachable!() };
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!((!(#l == #r)));
                return;
            }
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some() && alternatives(&a.pat).len() > 1) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Match(m) = e else { unreachable!() };
                let mut arms = vec![];
                for a in &m.arms {
                    let alts = alternatives(&a.pat);
                    if a.guard.is_none() || alts.len() < 2 {
                        arms.push(a.clone());
                        continue;
                    }
                    for p in alts {
                        let mut b = a.clone();
                        b.pat = p;
                        b.comma = Some(Default::default());
                        arms.push(b);
                    }
                }
                m.arms = arms;
                self.cx.notes.insert("match arms with a guard and several patterns are written once per pattern".into());
                return;
            }
            // the arm does not use what its pattern binds: the test comes first
            Expr::Match(m)
                if m.arms.len() == 2
                    && m.arms[0].guard.is_some()
                    && matches!(m.arms[1].pat, Pat::Wild(_))
                    && m.arms[1].guard.is_none()
                    && idents(&m.arms[0].pat).iter().all(|i| !mentions(m.arms[0].body.to_token_stream(), i)) =>
            {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Match(m) = e else { unreachable!() };
                let (x, p, g, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].guard.as_ref().unwrap().1, &m.arms[0].body, &m.arms[1].body);
                let t = self.tmp();
                self.cx.notes.insert("a match with one guarded arm that does not use its bindings is written as a test and an if".into());
                *e = Expr::Verbatim(quote!(({ let #t = match #x { #p => #g, _ => false }; if #t { #a } else { #b } })));
                return;
            }
            Expr::Macro(m) if is_log(&m.mac) => {
                *e = parse_quote!(());
                return;
            }
            // `unsafe { &*std::ptr::addr_of_mut!(x) }`: a reference to x that is not tied to the borrow of x
            Expr::Unsafe(u) if raw_reborrow(u).is_some() => {
                let mut x = raw_reborrow(u).unwrap();
                self.visit_expr_mut(&mut x);
                self.cx.notes.insert("`unsafe { &*addr_of_mut!(x) }` is read as a reference to what x holds at that moment".into());
                *e = parse_quote!(crate::stub::detached(&#x));
                return;
            }
            Expr::Await(a) => {
                let mut b = (*a.base).clone();
                self.cx.notes.insert("async functions are read as sequential ones (`.await` is dropped)".into());
                self.visit_expr_mut(&mut b);
                *e = b;
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // a variant of an enumeration as a function, on the elements of a sequence
                if name == "map" && self.is_iter(&m.receiver) {
                    for a in m.args.iter_mut() {
                        if let Expr::Path(p) = a {
                            let up = |s: &PathSegment| s.ident.to_string().starts_with(char::is_uppercase);
                            if p.path.segments.len() > 1 && p.path.segments.iter().rev().take(2).all(up) {
                                let h = self.cx.hole(&format!("-> (__r: _) ensures crate::stub::same(__r, {}(__v))", p.to_token_stream().to_string().replace(' ', "")));
                                let p = p.clone();
                                *a = Expr::Verbatim(quote!(|__v| #h { #p(__v) }));
                            }
                        }
                    }
                }
                let closure_args = m.args.iter().any(|a| matches!(a, Expr::Closure(_)));
                let spec_next = {
                    // index of the closure of this call: the receiver's closures come first
                    struct C(usize);
                    impl<'ast> Visit<'ast> for C {
                        fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
                            self.0 += 1;
                            visit::visit_expr_closure(self, c);
                        }
                    }
                    let mut c = C(0);
                    c.visit_expr(&m.receiver);
                    for a in m.args.iter() {
                        if matches!(a, Expr::Closure(_)) {
                            break;
                        }
                        c.visit_expr(a);
                    }
                    self.closures + c.0
                };
                let has_spec = self.c.closures.contains_key(&spec_next);
                let opt = !self.is_iter(&m.receiver);
                const CL: &[&str] = &[
                    "map", "map_or", "filter", "and_then", "map_or_else", "ok_or_else", "unwrap_or_else", "map_err", "is_some_and",
                ];
                let whole = e.to_token_stream().to_string();
                let Expr::MethodCall(m) = e else { unreachable!() };
                if opt && !has_spec && ((closure_args && CL.contains(&name.as_str())) || name == "ok_or" || (name == "unwrap_or")) {
                    let is_tail = self.tail.as_deref() == Some(&whole);
                    // children first, in source order
                    self.visit_expr_mut(&mut m.receiver);
                    let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                    let mut closures = vec![];
                    for a in args.iter_mut() {
                        if let Expr::Closure(c) = a {
                            let n = self.closures;
                            self.closures += 1;
                            if has_return(&c.body) && !is_tail {
                                self.info.lost.push("a closure that returns early".into());
                            }
                            self.visit_expr_mut(&mut c.body);
                            if let Some(t) = self.c.closure_start.get(&n).cloned() {
                                let (h, b) = (self.cx.hole(&t), &c.body);
                                c.body = Box::new(Expr::Verbatim(quote!({ #h #b })));
                            }
                            closures.push((c.inputs.iter().cloned().collect::<Vec<Pat>>(), c.body.clone()));
                        } else {
                            self.visit_expr_mut(a);
                        }
                    }
                    let r = &m.receiver;
                    let x = self.tmp();
                    let arm = |c: &(Vec<Pat>, Box<Expr>), x: &Ident| -> TokenStream {
                        let body = &c.1;
                        match c.0.first() {
                            Some(p) => {
                                let b = bind(p, quote!(#x));
                                quote!({ #b #body })
                            }
                            None => quote!({ #body }),
                        }
                    };
                    let t = match (name.as_str(), closures.len()) {
                        ("map", 1) => {
                            let a = arm(&closures[0], &x);
                            quote!(match #r { Some(#x) => Some(#a), None => None })
                        }
                        ("map_or", 1) => {
                            let a = arm(&closures[0], &x);
                            let d = &args[0];
                            quote!(match #r { Some(#x) => #a, None => #d })
                        }
                        ("map_or_else", 2) => {
                            let a = arm(&closures[1], &x);
                            let d = &closures[0].1;
                            quote!(match #r { Some(#x) => #a, None => #d })
                        }
                        ("filter", 1) => {
                            let body = &closures[0].1;
                            let b = match closures[0].0.first() {
                                Some(Pat::Reference(p)) => {
                                    let q = &p.pat;
                                    quote!(let #q = #x;)
                                }
                                Some(p) => bind(p, quote!(&#x)),
                                None => quote!(),
                            };
                            quote!(match #r { Some(#x) => if { #b #body } { Some(#x) } else { None }, None => None })
                        }
                        ("and_then", 1) => {
                            let a = arm(&closures[0], &x);
                            quote!(match #r { Some(#x) => #a, None => None })
                        }
                        ("is_some_and", 1) => {
                            let a = arm(&closures[0], &x);
                            quote!(match #r { Some(#x) => #a, None => false })
                        }
                        ("ok_or", 0) => {
                            let d = &args[0];
                            quote!(match #r { Some(#x) => Ok(#x), None => Err(#d) })
                        }
                        ("ok_or_else", 1) => {
                            let d = &closures[0].1;
                            let err = match m.turbofish.as_ref().and_then(|t| t.args.first()) {
                                Some(GenericArgument::Type(t)) => quote!(#t),
                                _ => quote!(_),
                            };
                            quote!(match #r { Some(#x) => Ok::<_, #err>(#x), None => Err(#d) })
                        }
                        ("unwrap_or", 0) => {
                            let d = &args[0];
                            quote!(crate::stub::OrValue::or_value(#r, #d))
                        }
                        ("unwrap_or_else", 1) if !closures[0].0.is_empty() => {
                            let a = arm(&closures[0], &x);
                            quote!(match #r { Ok(#x) => #x, Err(#x) => #a })
                        }
                        ("unwrap_or_else", 1) => {
                            let d = &closures[0].1;
                            quote!(match #r { Some(#x) => #x, None => #d })
                        }
                        ("map_err", 1) => {
                            let a = arm(&closures[0], &x);
                            let err = match m.turbofish.as_ref().and_then(|t| t.args.first()) {
                                Some(GenericArgument::Type(t)) => quote!(#t),
                                _ => quote!(_),
                            };
                            quote!(match #r { Ok(#x) => Ok(#x), Err(#x) => Err::<_, #err>(#a) })
                        }
                        _ => {
                            self.info.lost.push(format!("call of {name} not understood"));
                            quote!(())
                        }
                    };
                    self.cx.notes.insert("Option/Result combinators with a closure are written out as match".into());
                    *e = Expr::Verbatim(quote!((#t)));
                    return;
                }
                if let Some(f) = self.cx.unit.methods.get(&name) {
                    let f: ExprPath = parse_str(f).unwrap();
                    visit_mut::visit_expr_mut(self, e);
                    let Expr::MethodCall(m) = e else { unreachable!() };
                    let (r, t, a) = (&m.receiver, &m.turbofish, &m.args);
                    *e = Expr::Verbatim(quote!((#f #t (#r, #a))));
                    return;
                }
                if name == "extend" {
                    m.method = format_ident!("seq_extend");
                } else if name == "iter" {
                    m.method = format_ident!("seq_iter");
                } else if name == "iter_mut" {
                    m.method = format_ident!("seq_iter_mut");
                } else if name == "into_iter" {
                    m.method = format_ident!("into_seq");
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Try(t) => {
                // `?` by its definition
                self.visit_expr_mut(&mut t.expr);
                if self.cx.unit.options.iter().any(|o| o == "try") {
                    let x = self.tmp();
                    let r = &t.expr;
                    if self.opt_ret {
                        let q = quote!((match #r { Some(#x) => #x, None => return None }));
                        self.cx.notes.insert("`?` is written out as a match that returns None".into());
                        *e = Expr::Verbatim(q);
                        return;
                    }
                    let q = quote!((match #r { Ok(#x) => #x, Err(#x) => return Err(crate::stub::from_err(#x)) }));
                    self.cx.notes.insert("`?` is written out as a match that returns the converted error".into());
                    *e = Expr::Verbatim(q);
                }
                return;
            }
            Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                self.info.anchors.push((format!("closure {n}"), c.to_token_stream().to_string()));
                let auto = self.cx.unit.auto.contains(&format!("{}#{n}", self.info.path)) && plain_expr(&c.body);
                self.visit_expr_mut(&mut c.body);
                let mut binds = vec![];
                let mut ins = vec![];
                let under = self.c.closures.contains_key(&n);
                for (i, p) in c.inputs.iter().enumerate() {
                    match p {
                        // a contract calls the parameters __a0, __a1, …
                        p if under => {
                            let id = format_ident!("__a{i}");
                            let p = match p { Pat::Type(t) => &t.pat, p => p };
                            binds.push(if matches!(p, Pat::Ident(_)) { quote!(let #p = #id;) } else { bind(p, quote!(#id)) });
                            ins.push(quote!(#id));
                        }
                        Pat::Ident(_) => ins.push(quote!(#p)),
                        Pat::Type(t) if matches!(*t.pat, Pat::Ident(_)) => ins.push(quote!(#p)),
                        p => {
                            let id = format_ident!("__c{n}_{i}");
                            binds.push(bind(p, quote!(#id)));
                            ins.push(quote!(#id));
                        }
                    }
                }
                let body = &c.body;
                let mv = &c.capture;
                if let Some(t) = self.c.closures.get(&n) {
                    // first line: `NAME: TYPE, ...` parameters if they need types; then `-> (r: T)` and so on
                    let (first, rest) = t.split_once('\n').unwrap_or((t, ""));
                    let (params, text) = match first.trim().strip_prefix("params ") {
                        Some(p) => (Some(p.trim().to_string()), rest.to_string()),
                        None => (None, t.clone()),
                    };
                    let mut text = text;
                    if auto {
                        // the closure was changed: what it does is said by its own text
                        if let (Some(i), Some(j), Some(k)) = (text.find("-> ("), text.find(':'), text.find("ensures")) {
                            let name = text[i + 4..j].trim().to_string();
                            let val = show(quote!({ #(#binds)* #body }));
                            text = format!("{}ensures /*auto*/ {name} == {}", &text[..k], val.replace('\n', " "));
                            self.info.anchors.push((format!("auto {n}"), String::new()));
                        }
                    }
                    let h = self.cx.hole(&text);
                    let ins = match params {
                        Some(p) => {
                            let types: Vec<TokenStream> = p.split(';').map(|s| s.parse().unwrap()).collect();
                            let v: Vec<TokenStream> = ins.iter().zip(types).map(|(i, t)| quote!(#i: #t)).collect();
                            quote!(#(#v),*)
                        }
                        None => quote!(#(#ins),*),
                    };
                    *e = Expr::Verbatim(quote!(#mv |#ins| #h { #(#binds)* #body }));
                } else {
                    *e = Expr::Verbatim(quote!(#mv |#(#ins),*| { #(#binds)* #body }));
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// literals, and a wildcard at the end
fn text_arms(m: &ExprMatch) -> bool {
    let n = m.arms.len();
    m.arms.iter().enumerate().all(|(i, a)| {
        a.guard.is_none()
            && if i + 1 == n {
                matches!(a.pat, Pat::Wild(_))
            } else {
                alternatives(&a.pat).iter().all(|p| matches!(p, Pat::Lit(l) if matches!(l.lit, Lit::Str(_))))
            }
    })
}

/// `break VALUE` of one loop
struct Breaks<'a> {
    v: &'a Ident,
    label: Option<Ident>,
    depth: usize,
    used: bool,
}
impl VisitMut for Breaks<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            // loops that are written out already
            Expr::Break(b) => {
                let ours = match &b.label {
                    Some(l) => self.label.as_ref() == Some(&l.ident),
                    None => self.depth == 0,
                };
                if let (true, Some(x)) = (ours, &b.expr) {
                    let (v, l) = (self.v, &b.label);
                    *e = parse_quote!({ #v = Some(#x); break #l; });
                    self.used = true;
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `tokio::select!`: one of its futures is run to its end, whichever
fn select(m: &Macro) -> Option<Stmt> {
    if m.path.segments.last()?.ident != "select" {
        return None;
    }
    struct Arms(Vec<(Pat, Expr, Expr)>);
    impl parse::Parse for Arms {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            let mut v = vec![];
            while !i.is_empty() {
                let p = Pat::parse_single(i)?;
                i.parse::<Token![=]>()?;
                let x = i.parse()?;
                i.parse::<Token![=>]>()?;
                let b = if i.peek(token::Brace) { Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.parse()? }) } else { i.parse()? };
                if i.peek(Token![,]) {
                    i.parse::<Token![,]>()?;
                }
                v.push((p, x, b));
            }
            Ok(Arms(v))
        }
    }
    let Arms(arms) = m.parse_body_with(<Arms as parse::Parse>::parse).ok()?;
    let mut e: Option<Expr> = None;
    for (p, x, b) in arms.iter().rev() {
        e = Some(match e {
            None => parse_quote!({ let #p = #x; #b }),
            Some(r) => parse_quote!(if crate::stub::some_choice() { let #p = #x; #b } else #r),
        });
        if let Some(Expr::If(_)) = &e {
            let r = e.take().unwrap();
            e = Some(parse_quote!({ #r }));
        }
    }
    Some(Stmt::Expr(e?, None))
}

fn raw_reborrow(u: &ExprUnsafe) -> Option<Expr> {
    let [Stmt::Expr(Expr::Reference(r), None)] = &u.block.stmts[..] else { return None };
    let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr else { return None };
    let Expr::Macro(m) = &**expr else { return None };
    if r.mutability.is_some() || m.mac.path.segments.last()?.ident != "addr_of_mut" {
        return None;
    }
    parse2(m.mac.tokens.clone()).ok()
}

/// comparisons and the like of variables, fields and literals: it can be read as a specification
fn plain_expr(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => plain_expr(&f.base),
        Expr::Paren(p) => plain_expr(&p.expr),
        Expr::Unary(u) => plain_expr(&u.expr),
        Expr::Reference(r) => r.mutability.is_none() && plain_expr(&r.expr),
        Expr::Binary(b) => {
            use BinOp::*;
            matches!(b.op, Add(_) | Sub(_) | Mul(_) | And(_) | Or(_) | Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_))
                && plain_expr(&b.left)
                && plain_expr(&b.right)
        }
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => {
            matches!(&b.block.stmts[0], Stmt::Expr(e, None) if plain_expr(e))
        }
        _ => false,
    }
}
