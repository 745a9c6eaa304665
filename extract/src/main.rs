//! extract UNIT_FILE REPO OUT.rs OUT.json [--canary] [--derive BIN] [--stub FN]...
//!
//! Reads the real source files a unit names, applies the mechanical rewriting described in DESIGN.md, attaches the
//! contracts of the unit file, and writes one Verus file.
mod byref;
mod contracts;
mod cursor;
mod global;
mod nom;
mod print;
mod rewrite;
mod unlock;

use std::collections::{BTreeMap, BTreeSet};

use contracts::Unit;

pub struct FnInfo {
    pub path: String,
    pub file: String,
    pub src_line: usize,
    /// has a contract entry
    pub contract: bool,
    /// body replaced: the contract is assumed
    pub stub: bool,
    pub hinted: bool,
    pub lost: Vec<String>,
    /// (kind, what was found in the source at that position)
    pub anchors: Vec<(String, String)>,
    pub calls: BTreeSet<String>,
    pub marker: usize,
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jl<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().map(|s| js(&s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let canary = args.iter().any(|a| a == "--canary");
    // functions whose body is left out because the verifier cannot read it; the caller of this program counts them as undecided
    let stubs = args.iter().zip(args.iter().skip(1)).filter(|(a, _)| *a == "--stub").map(|(_, b)| b.clone());
    // changed closures that are described by their own text
    let auto = args.iter().zip(args.iter().skip(1)).filter(|(a, _)| *a == "--auto").map(|(_, b)| b.clone()).collect();
    let unit = match Unit::read(&args[1]) {
        Ok(mut u) => {
            for s in stubs {
                u.fns.entry(s).or_default().stub = true;
            }
            u.auto = auto;
            if let Some(i) = args.iter().position(|a| a == "--derive") {
                u.derive_bin = args[i + 1].clone();
            }
            u
        }
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(3);
        }
    };
    match run(&unit, &args[2], canary) {
        Ok((text, json)) => {
            std::fs::write(&args[3], text).unwrap();
            std::fs::write(&args[4], json).unwrap();
        }
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(3);
        }
    }
}

#[derive(Default)]
struct Node {
    /// text of the items of this module
    text: String,
    children: BTreeMap<String, Node>,
}

fn run(unit: &Unit, repo: &str, canary: bool) -> Result<(String, String), String> {
    let mut root = Node::default();
    let mut cx = rewrite::Cx::new(unit, canary);
    // before the code: the order matters to the verifier for implementations of specification traits
    for (path, text) in &unit.extra {
        let mut n = &mut root;
        for p in path.split("::") {
            n = n.children.entry(p.into()).or_default();
        }
        n.text.push_str(text);
    }
    for m in &unit.modules {
        let file = format!("{repo}/{}", m.file);
        let mut ast = match &m.derived {
            Some(of) => {
                cx.notes.insert("derive(ParseFrames) is written out by the repository's own macro".into());
                cursor::derived(&unit.derive_bin, &file, of)?
            }
            None => {
                let src = std::fs::read_to_string(&file).map_err(|e| format!("{file}: {e}"))?;
                syn::parse_file(&src).map_err(|e| format!("{file}: {e}"))?
            }
        };
        // the verifier knows no destructors
        for item in &mut ast.items {
            if let syn::Item::Impl(i) = item {
                if i.trait_.as_ref().map_or(false, |t| t.1.segments.last().map_or(false, |s| s.ident == "Drop")) {
                    i.trait_ = None;
                    cx.notes.insert("drop of a Drop implementation is read as a method; that it runs once for each value is the language's".into());
                }
            }
        }
        for name in &unit.byref {
            let mut b = byref::ByRef::new(name);
            syn::visit_mut::VisitMut::visit_file_mut(&mut b, &mut ast);
            if b.used {
                cx.notes.insert(format!("{name} is passed on by exclusive reference instead of by value, see byref.rs"));
            }
        }
        for name in &unit.cursors {
            let mut c = cursor::Cursor::new(name);
            syn::visit_mut::VisitMut::visit_file_mut(&mut c, &mut ast);
            if c.used {
                cx.notes.insert(format!("{name} is moved through an exclusive reference, see cursor.rs"));
            }
        }
        for (name, ty) in &unit.globals {
            if global::apply(name, ty, &mut ast) {
                cx.notes.insert(format!("the static {name} is passed as a parameter to the functions that use it; see global.rs"));
            }
        }
        if !unit.unlock.is_empty() {
            let mut u = unlock::Unlock::new(&unit.unlock);
            syn::visit_mut::VisitMut::visit_file_mut(&mut u, &mut ast);
            if u.used {
                cx.notes.insert("locks are read as what they guard, for one command at a time; see unlock.rs".into());
            }
        }
        let on = |o: &str| unit.options.iter().any(|x| *x == format!("{o} {}", m.path));
        if on("nom") {
            let mut b = nom::Bytes(false);
            syn::visit_mut::VisitMut::visit_file_mut(&mut b, &mut ast);
            if b.0 {
                cx.notes.insert("byte strings are written as arrays of bytes".into());
            }
            let mut n = nom::Nom::default();
            syn::visit_mut::VisitMut::visit_file_mut(&mut n, &mut ast);
            if n.used {
                cx.notes.insert("nom's combinators are written out by their definition, see nom.rs".into());
            }
        }
        let text = cx.module(m, ast)?;
        let mut n = &mut root;
        for p in m.path.split("::") {
            n = n.children.entry(p.into()).or_default();
        }
        // a unit may import a name for its own use that the module imports itself
        let have: std::collections::BTreeSet<String> =
            n.text.lines().filter(|l| l.starts_with("pub use ")).map(|l| l.split_whitespace().collect()).collect();
        for l in text.lines() {
            let t: String = l.split_whitespace().collect();
            if !(t.starts_with("pubuse") && have.contains(&t)) {
                n.text.push_str(l);
                n.text.push('\n');
            }
        }
    }
    let mut out = String::new();
    out.push_str(&unit.header);
    out.push_str("\nverus! {\nglobal size_of usize == 8;\n");
    fn emit(name: &str, n: &Node, out: &mut String, prelude: &str) {
        if !name.is_empty() {
            let p = if name == "spec" { prelude.replace("use crate::spec::*;", "") } else { prelude.to_string() };
            out.push_str(&format!("pub mod {name} {{\n{p}\n"));
        }
        out.push_str(&n.text);
        for (c, m) in &n.children {
            emit(c, m, out, prelude);
        }
        if !name.is_empty() {
            out.push_str("}\n");
        }
    }
    emit("", &root, &mut out, &unit.mod_prelude);
    out.push_str("fn main() {}\n}\n");
    // contract texts
    let text = cx.fill(&out);
    // positions of functions
    let mut lines: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for (i, l) in text.lines().enumerate() {
        if let Some(r) = l.trim().strip_prefix("//@fn ") {
            lines.entry(r.trim().parse().unwrap()).or_insert((i + 1, i + 1)).0 = i + 1;
        }
        if let Some(r) = l.trim().strip_prefix("//@end ") {
            lines.get_mut(&r.trim().parse().unwrap()).unwrap().1 = i + 1;
        }
    }
    let mut fns = vec![];
    for f in &cx.fns {
        let (a, b) = lines.get(&f.marker).copied().unwrap_or((0, 0));
        fns.push(format!(
            "{{\"path\":{},\"file\":{},\"src_line\":{},\"contract\":{},\"stub\":{},\"hinted\":{},\"lost\":{},\"anchors\":{},\"calls\":{},\"from\":{a},\"to\":{b}}}",
            js(&f.path),
            js(&f.file),
            f.src_line,
            f.contract,
            f.stub,
            f.hinted,
            jl(f.lost.clone()),
            jl(f.anchors.iter().map(|(a, b)| format!("{a}: {b}"))),
            jl(f.calls.iter().cloned()),
        ));
    }
    let missing = cx.missing();
    let json = format!(
        "{{\"functions\":[\n{}\n],\n\"modules\":{},\"verify\":{},\"missing\":{},\"dropped\":{},\"notes\":{}}}\n",
        fns.join(",\n"),
        jl(unit.modules.iter().map(|m| m.path.clone())),
        jl(unit.verify.iter().cloned()),
        jl(missing),
        jl(cx.dropped.iter().cloned()),
        jl(cx.notes.iter().cloned()),
    );
    Ok((text, json))
}
