//! The unit file.
//!
//! ```text
//! == header                      raw text before verus!{}
//! == include FILE                another unit file, relative to this one
//! == prelude of modules          raw text at the start of each module
//! == source MODULE FILE          a source file of the repository and its module path
//! == extra MODULE                raw text put into a module
//! == rename PATH PATH            path prefix replaced
//! == dropuse PREFIX              imports left out
//! == drop ITEM                   item left out (module path of the item)
//! == keep ITEM / keepuse PATH    not left out after all
//! == cursor TYPE                 see cursor.rs
//! == derive MODULE SOURCE FILE   what the repository's own derive macro writes for the structs of a file
//! == stub FN                     as `fn`, and the body is left out: the contract is assumed
//! == fn FN                       contract of a function
//! == loop N                      (after fn) invariant of its N-th loop
//! == closure N [NAME]            (after fn) requires/ensures of its N-th closure; `-> (NAME: TYPE)` first line
//! == start / == end              (after fn) proof text at the start / before the tail expression
//! == before N CALL / == after N CALL   (after fn) proof text before/after the N-th statement that calls CALL
//! == loopstart N / == loopend N  (after fn) proof text in the N-th loop
//! == loopbefore N / == closurestart N  (after fn) proof text before the N-th loop, in the N-th closure
//! == impl IMPL                   raw text put into an impl or trait
//! == from TYPE@From               what `from(v)` is, a spec expression
//! == unlock TYPE…                a mutex is what it guards, the types hold it: `&self` of their methods is `&mut self`
//! == global STATIC TYPE         a static behind a lock is a parameter of the functions that use it
//! == method NAME FN              `x.NAME(args)` is `FN(x, args)`
//! == verify MODULE…              only these modules are verified in this unit
//! == attr FN                     attributes
//! ```
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct Contract {
    pub ret: Option<String>,
    pub text: String,
    pub stub: bool,
    pub attr: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub closure_start: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub start: Option<String>,
    pub end: Option<String>,
    pub before: Vec<(usize, String, String)>,
    pub after: Vec<(usize, String, String)>,
    pub noloopiso: bool,
}

#[derive(Debug, Clone)]
pub struct Module {
    pub path: String,
    pub file: String,
    /// the module of the structs, if this is derived code
    pub derived: Option<String>,
}

#[derive(Default, Debug)]
pub struct Unit {
    pub header: String,
    pub mod_prelude: String,
    pub modules: Vec<Module>,
    pub extra: Vec<(String, String)>,
    pub renames: Vec<(String, String)>,
    pub dropuse: Vec<String>,
    pub drop: Vec<String>,
    pub keep: Vec<String>,
    pub keepuse: Vec<String>,
    pub cursors: Vec<String>,
    /// types whose values are passed on by reference
    pub byref: Vec<String>,
    pub derive_bin: String,
    pub fns: BTreeMap<String, Contract>,
    pub impls: BTreeMap<String, String>,
    pub only: BTreeMap<String, Vec<String>>,
    pub iter_roots: Vec<String>,
    /// methods written as calls of a function
    pub methods: BTreeMap<String, String>,
    pub options: Vec<String>,
    pub unlock: Vec<String>,
    pub globals: Vec<(String, String)>,
    pub verify: Vec<String>,
    /// closures (FN#N) whose contract is their own text
    pub auto: Vec<String>,
    pub from: BTreeMap<String, String>,
    files: Vec<String>,
    depth: usize,
}

impl Unit {
    pub fn read(file: &str) -> Result<Unit, String> {
        let mut u = Unit::default();
        u.add(file)?;
        let keep = u.keep.clone();
        u.drop.retain(|d| !keep.contains(d));
        Ok(u)
    }
    fn add(&mut self, file: &str) -> Result<(), String> {
        // a file is included once
        let name = std::path::Path::new(file).file_name().unwrap().to_string_lossy().to_string();
        if self.files.contains(&name) {
            return Ok(());
        }
        self.files.push(name);
        let src = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
        self.depth += 1;
        let mut cur: Option<(String, String)> = None;
        let mut last_fn = String::new();
        let dir = std::path::Path::new(file).parent().unwrap().to_path_buf();
        for l in src.lines().chain(["== eof"]) {
            if let Some(d) = l.strip_prefix("== ") {
                if let Some((dir_, text)) = cur.take() {
                    self.section(&dir_, text, &mut last_fn, &dir)?;
                }
                cur = Some((d.trim().to_string(), String::new()));
            } else if let Some((_, t)) = &mut cur {
                t.push_str(l);
                t.push('\n');
            }
        }
        self.depth -= 1;
        Ok(())
    }
    fn section(&mut self, d: &str, text: String, last: &mut String, dir: &std::path::Path) -> Result<(), String> {
        let w: Vec<&str> = d.split_whitespace().collect();
        let rest = |n: usize| w[n..].join(" ");
        match w[0] {
            "eof" | "comment" => {}
            "header" => self.header.push_str(&text),
            "include" => self.add(dir.join(w[1]).to_str().unwrap())?,
            "prelude" => self.mod_prelude.push_str(&text),
            "source" => {
                if self.modules.iter().any(|m| m.path == w[1]) {
                    // more items of a module that is there already
                    match self.only.get_mut(w[1]) {
                        Some(o) if w.len() > 3 => o.extend(w[3..].iter().map(|s| s.to_string())),
                        _ => drop(self.only.remove(w[1])),
                    }
                    return Ok(());
                }
                self.modules.push(Module { path: w[1].into(), file: w[2].into(), derived: None });
                if w.len() > 3 {
                    // only these items
                    self.only.insert(w[1].into(), w[3..].iter().map(|s| s.to_string()).collect());
                }
            }
            "extra" => self.extra.push((w[1].into(), text)),
            "rename" => self.renames.push((w[1].into(), w[2].into())),
            "dropuse" => self.dropuse.extend(w[1..].iter().map(|s| s.to_string())),
            "drop" => self.drop.push(rest(1)),
            "keep" => self.keep.push(rest(1)),
            "keepuse" => self.keepuse.push(rest(1)),
            "byref" => self.byref.push(rest(1)),
            "cursor" => self.cursors.push(rest(1)),
            "derive" => self.modules.push(Module { path: w[1].into(), file: w[3].into(), derived: Some(w[2].into()) }),
            "method" => {
                self.methods.insert(w[1].to_string(), w[2].to_string());
            }
            "global" => self.globals.push((w[1].into(), w[2].into())),
            "iter" => self.iter_roots.extend(w[1..].iter().map(|s| s.to_string())),
            "option" => self.options.push(rest(1)),
            "unlock" => self.unlock.extend(w[1..].iter().map(|s| s.to_string())),
            // what an included unit verifies is verified there
            "verify" if self.depth > 1 => {}
            "verify" => self.verify.extend(w[1..].iter().map(|s| s.to_string())),
            "from" => drop(self.from.insert(rest(1), text)),
            "impl" => {
                self.impls.entry(rest(1)).or_default().push_str(&text);
            }
            "fn" | "stub" => {
                *last = rest(1);
                let c = self.fns.entry(last.clone()).or_default();
                c.stub = w[0] == "stub";
                let mut t = text;
                if let Some(l) = t.lines().next() {
                    if let Some(r) = l.trim().strip_prefix("ret ") {
                        c.ret = Some(r.trim().into());
                        t = t.splitn(2, '\n').nth(1).unwrap_or("").into();
                    }
                }
                c.text = t;
            }
            k => {
                let c = self.fns.get_mut(last).ok_or(format!("{d}: no function before"))?;
                let n = || w.get(1).and_then(|n| n.parse::<usize>().ok()).ok_or(format!("{d}: number"));
                match k {
                    "loop" => drop(c.loops.insert(n()?, text)),
                    "loopstart" => drop(c.loop_start.insert(n()?, text)),
                    "loopbefore" => drop(c.loop_before.insert(n()?, text)),
                    "closurestart" => drop(c.closure_start.insert(n()?, text)),
                    "loopend" => drop(c.loop_end.insert(n()?, text)),
                    "closure" => drop(c.closures.insert(n()?, text)),
                    "start" => c.start = Some(text),
                    "end" => c.end = Some(text),
                    "attr" => c.attr = text,
                    "before" => c.before.push((n()?, rest(2), text)),
                    "after" => c.after.push((n()?, rest(2), text)),
                    _ => return Err(format!("unknown directive: {d}")),
                }
            }
        }
        Ok(())
    }
}
