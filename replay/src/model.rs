//! Executable form of the contracts: what each command answers and does to the key space.
//! Written from the property statements (Redis semantics where they are silent), not from the code.
use std::collections::{BTreeMap, BTreeSet, VecDeque};

use crate::resp::{esc, Reply, B};

#[derive(Debug, Clone, PartialEq)]
pub enum Data {
    Str(B),
    List(VecDeque<B>),
    Hash(BTreeMap<B, B>),
    Set(BTreeSet<B>),
    ZSet(BTreeMap<B, f64>),
}

#[derive(Debug, Clone)]
pub struct Val {
    pub data: Data,
    /// 0: none
    pub deadline: u64,
    /// ms of the last access
    pub last: u64,
    pub freq: Option<u64>,
    /// whether the last command was an access is not specified
    pub unsure: bool,
}

#[derive(Debug, Clone)]
pub enum Exp {
    Ok,
    Pong,
    Null,
    Int(i64),
    Text(B),
    /// error reply, state unchanged
    Err,
    WrongType,
    /// error reply or connection closed, state unchanged
    Refused,
    Texts(Vec<Option<B>>),
    Members(BTreeSet<B>),
    Map(BTreeMap<B, B>),
    Nodes(Vec<(B, f64)>, bool),
    /// exactly one reply, whatever it is
    One,
    /// not specified: do not send
    Skip,
}

impl Exp {
    pub fn show(&self) -> String {
        match self {
            Exp::Text(b) => format!("text {}", esc(b)),
            Exp::Texts(v) => format!(
                "array [{}]",
                v.iter().map(|b| b.as_ref().map_or("null".into(), |b| esc(b))).collect::<Vec<_>>().join(", ")
            ),
            Exp::Members(v) => format!("members {{{}}}", v.iter().map(|b| esc(b)).collect::<Vec<_>>().join(", ")),
            Exp::Map(v) => format!(
                "mapping {{{}}}",
                v.iter().map(|(a, b)| esc(a) + ": " + &esc(b)).collect::<Vec<_>>().join(", ")
            ),
            Exp::Nodes(v, s) => format!(
                "members [{}]{}",
                v.iter().map(|(a, b)| format!("{} ({b})", esc(a))).collect::<Vec<_>>().join(", "),
                if *s { " with scores" } else { "" }
            ),
            e => format!("{e:?}"),
        }
    }
    pub fn matches(&self, r: &Reply) -> bool {
        match (self, r) {
            (Exp::Ok, Reply::Simple(s)) => s == b"OK",
            (Exp::Pong, Reply::Simple(s)) => s == b"PONG",
            (Exp::Null, Reply::Null) => true,
            (Exp::Int(i), Reply::Int(j)) => i == j,
            (Exp::Text(t), r) => r.text().as_ref() == Some(t),
            (Exp::Err, Reply::Error(_)) => true,
            (Exp::WrongType, Reply::Error(e)) => e.starts_with(b"WRONGTYPE"),
            (Exp::Refused, Reply::Error(_) | Reply::Closed) => true,
            (Exp::Texts(v), Reply::Array(a)) => {
                v.len() == a.len()
                    && v.iter().zip(a).all(|(x, y)| match x {
                        None => *y == Reply::Null,
                        Some(x) => y.text().as_ref() == Some(x),
                    })
            }
            (Exp::Members(v), Reply::Array(a)) => {
                v.len() == a.len() && a.iter().all(|y| y.text().map_or(false, |t| v.contains(&t))) && {
                    let s: BTreeSet<_> = a.iter().filter_map(Reply::text).collect();
                    s.len() == v.len()
                }
            }
            (Exp::Map(m), Reply::Array(a)) => {
                if a.len() != 2 * m.len() {
                    return false;
                }
                let mut got = BTreeMap::new();
                for p in a.chunks(2) {
                    match (p[0].text(), p[1].text()) {
                        (Some(k), Some(v)) => got.insert(k, v),
                        _ => return false,
                    };
                }
                got == *m
            }
            (Exp::Nodes(v, scores), Reply::Array(a)) => {
                let n = if *scores { 2 } else { 1 };
                a.len() == n * v.len()
                    && a.chunks(n).zip(v).all(|(p, (k, s))| {
                        p[0].text().as_ref() == Some(k)
                            && (!*scores
                                || p[1]
                                    .text()
                                    .and_then(|t| String::from_utf8(t).ok())
                                    .and_then(|t| t.parse::<f64>().ok())
                                    == Some(*s))
                    })
            }
            (Exp::One, Reply::Closed | Reply::Timeout | Reply::Garbage(_)) => false,
            (Exp::One, _) => true,
            _ => false,
        }
    }
}

/// outcome of reading an argument
enum No {
    Refused,
    Skip,
}
type Arg<T> = Result<T, No>;

pub fn int(b: &[u8]) -> Result<i64, bool> {
    // Err(true): not clearly specified
    let Ok(s) = std::str::from_utf8(b) else { return Err(false) };
    let d = s.strip_prefix('-').unwrap_or(s);
    let digits = !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit());
    if !digits {
        let odd = s.starts_with('+') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit());
        return Err(odd);
    }
    if (d.len() > 1 && d.starts_with('0')) || s == "-0" {
        return Err(true);
    }
    s.parse().map_err(|_| false)
}

fn arg_int(b: &[u8]) -> Arg<i64> {
    int(b).map_err(|odd| if odd { No::Skip } else { No::Refused })
}
fn arg_uint(b: &[u8]) -> Arg<u64> {
    match arg_int(b)? {
        i if i < 0 => Err(No::Refused),
        i => Ok(i as u64),
    }
}
fn arg_float(b: &[u8]) -> Arg<f64> {
    let Ok(s) = std::str::from_utf8(b) else { return Err(No::Refused) };
    match s.parse::<f64>() {
        Ok(f) if f.is_nan() => Err(No::Refused),
        Ok(f) => Ok(f),
        Err(_) if s.contains(['x', 'X', 'p', 'P', ' ', '\t', '\n', '(']) => Err(No::Skip),
        Err(_) => Err(No::Refused),
    }
}
#[derive(Debug, Clone, Copy)]
enum Bd<T> {
    In(T),
    Ex(T),
    NegInf,
    PosInf,
}
fn arg_score_bound(b: &[u8]) -> Arg<Bd<f64>> {
    match b.strip_prefix(b"(") {
        Some(r) => Ok(Bd::Ex(arg_float(r)?)),
        None => Ok(Bd::In(arg_float(b)?)),
    }
}
fn arg_lex_bound(b: &[u8]) -> Arg<Bd<B>> {
    if std::str::from_utf8(b).is_err() {
        return Err(No::Skip);
    }
    match b {
        b"-" => Ok(Bd::NegInf),
        b"+" => Ok(Bd::PosInf),
        [b'[', r @ ..] => Ok(Bd::In(r.to_vec())),
        [b'(', r @ ..] => Ok(Bd::Ex(r.to_vec())),
        _ => Err(No::Refused),
    }
}
fn above<T: PartialOrd>(x: &T, lo: &Bd<T>) -> bool {
    match lo {
        Bd::In(v) => x >= v,
        Bd::Ex(v) => x > v,
        Bd::NegInf => true,
        Bd::PosInf => false,
    }
}
fn below<T: PartialOrd>(x: &T, hi: &Bd<T>) -> bool {
    match hi {
        Bd::In(v) => x <= v,
        Bd::Ex(v) => x < v,
        Bd::NegInf => false,
        Bd::PosInf => true,
    }
}
fn limit<T>(v: Vec<T>, l: Option<(i64, i64)>) -> Arg<Vec<T>> {
    match l {
        None => Ok(v),
        Some((o, _)) if o < 0 => Err(No::Skip),
        Some((o, c)) => {
            let n = if c < 0 { usize::MAX } else { c as usize };
            Ok(v.into_iter().skip(o as usize).take(n).collect())
        }
    }
}
/// inclusive positions, negative from the end, clamped
fn slice(len: usize, start: i64, stop: i64) -> std::ops::Range<usize> {
    let n = len as i128;
    let fix = |i: i64| if i < 0 { i as i128 + n } else { i as i128 };
    let (a, b) = (fix(start).max(0), fix(stop).min(n - 1));
    if a > b {
        0..0
    } else {
        a as usize..b as usize + 1
    }
}

#[derive(Debug, Clone, Default)]
pub struct Model {
    pub now: u64,
    pub keys: BTreeMap<B, Val>,
    /// OBJECT FREQ is compared
    pub count_accesses: bool,
}

const OVERFLOW: Exp = Exp::Err;

impl Model {
    pub fn alive(&self, k: &[u8]) -> Option<&Val> {
        self.keys.get(k).filter(|v| v.deadline == 0 || v.deadline > self.now)
    }
    /// counts as an access
    fn touch(&mut self, k: &[u8]) -> Option<&mut Val> {
        let now = self.now;
        let v = self.keys.get_mut(k).filter(|v| v.deadline == 0 || v.deadline > now)?;
        let passed = (now / 60_000).saturating_sub(v.last / 60_000);
        if let Some(f) = &mut v.freq {
            *f = f.saturating_sub(passed);
            if *f < 65_535 {
                *f += 1;
            }
        }
        v.last = now;
        v.unsure = false;
        Some(v)
    }
    fn put(&mut self, k: &[u8], data: Data, deadline: u64) {
        let now = self.now;
        self.keys.insert(k.to_vec(), Val { data, deadline, last: now, freq: Some(5), unsure: false });
    }
    /// read-only or updating access of an expected type; creates nothing
    fn drop_if_empty(&mut self, k: &[u8]) {
        let empty = match self.keys.get(k).map(|v| &v.data) {
            Some(Data::List(l)) => l.is_empty(),
            Some(Data::Hash(l)) => l.is_empty(),
            Some(Data::Set(l)) => l.is_empty(),
            Some(Data::ZSet(l)) => l.is_empty(),
            _ => false,
        };
        if empty {
            self.keys.remove(k);
        }
    }

    pub fn apply(&mut self, cmd: &[B]) -> Exp {
        // dead keys never existed
        let now = self.now;
        self.keys.retain(|_, v| v.deadline == 0 || v.deadline > now);
        let backup = self.clone();
        let e = self.run_or_restore(cmd, backup);
        // whether a refused request counts as an access of the keys it names is not specified
        if matches!(e, Exp::Err | Exp::WrongType | Exp::Refused)
            && !cmd.first().is_some_and(|c| c.eq_ignore_ascii_case(b"object"))
        {
            for a in &cmd[1..] {
                if let Some(v) = self.keys.get_mut(a) {
                    v.freq = None;
                    v.unsure = true;
                }
            }
        }
        e
    }

    fn run_or_restore(&mut self, cmd: &[B], backup: Model) -> Exp {
        let now = self.now;
        match self.run(cmd) {
            Ok(e) => {
                self.keys.retain(|_, v| v.deadline == 0 || v.deadline > now);
                if matches!(e, Exp::Err | Exp::WrongType | Exp::Refused | Exp::Skip) {
                    *self = backup;
                }
                e
            }
            Err(no) => {
                *self = backup;
                match no {
                    No::Refused => Exp::Refused,
                    No::Skip => Exp::Skip,
                }
            }
        }
    }

    fn set_time(&self, base: u64, t: i64, unit: i64) -> Option<u64> {
        if t <= 0 {
            return None;
        }
        self.exp_time(base, t, unit)
    }
    fn exp_time(&self, base: u64, t: i64, unit: i64) -> Option<u64> {
        let at = t as i128 * unit as i128 + base as i128;
        // intermediate results have to fit as well
        if t as i128 * unit as i128 != (t as i128 * unit as i128) as i64 as i128 || at > i64::MAX as i128 || at < i64::MIN as i128
        {
            return None;
        }
        Some(at.max(1) as u64)
    }

    fn run(&mut self, cmd: &[B]) -> Arg<Exp> {
        let Some(name) = cmd.first() else { return Err(No::Skip) };
        let Ok(name) = std::str::from_utf8(name) else { return Ok(Exp::Refused) };
        let name = name.to_ascii_lowercase();
        let a = &cmd[1..];
        let want = |lo: usize, hi: usize| -> Arg<()> {
            if a.len() < lo || a.len() > hi {
                Err(No::Refused)
            } else {
                Ok(())
            }
        };
        const MANY: usize = usize::MAX;
        macro_rules! typed {
            ($k:expr, $t:ident, $none:expr) => {
                match self.touch($k) {
                    None => return Ok($none),
                    Some(Val { data: Data::$t(d), .. }) => d,
                    Some(_) => return Ok(Exp::WrongType),
                }
            };
        }
        macro_rules! create {
            ($k:expr, $t:ident, $new:expr) => {{
                if self.alive($k).is_none() {
                    self.put($k, Data::$t($new), 0);
                } else {
                    self.touch($k);
                }
                match &mut self.keys.get_mut($k).unwrap().data {
                    Data::$t(d) => d,
                    _ => return Ok(Exp::WrongType),
                }
            }};
        }
        Ok(match name.as_str() {
            "ping" => {
                want(0, 0)?;
                Exp::Pong
            }
            "get" => {
                want(1, 1)?;
                let d = typed!(&a[0], Str, Exp::Null);
                Exp::Text(d.clone())
            }
            "set" => {
                want(2, MANY)?;
                let (mut ex, mut cond, mut get) = (None, None, false);
                let mut i = 2;
                while i < a.len() {
                    let w = a[i].to_ascii_lowercase();
                    i += 1;
                    match &*w {
                        b"nx" | b"xx" => {
                            if cond.is_some() {
                                return Err(No::Skip);
                            }
                            cond = Some(w == b"nx");
                        }
                        b"get" => get = true,
                        b"keepttl" | b"ex" | b"px" | b"exat" | b"pxat" => {
                            let n = if w == b"keepttl" {
                                0
                            } else {
                                i += 1;
                                arg_int(a.get(i - 1).ok_or(No::Refused)?)?
                            };
                            if ex.is_some() {
                                return Err(No::Skip);
                            }
                            ex = Some((w, n));
                        }
                        _ => return Err(No::Refused),
                    }
                }
                let k = &a[0];
                if get && matches!(self.alive(k), Some(v) if !matches!(v.data, Data::Str(_))) {
                    self.touch(k);
                    return Ok(Exp::WrongType);
                }
                let keep = self.alive(k).map_or(0, |v| v.deadline);
                let deadline = match ex {
                    None => 0,
                    Some((w, n)) => {
                        let at = match &*w {
                            b"keepttl" => Some(keep),
                            b"ex" => self.set_time(self.now, n, 1000),
                            b"px" => self.set_time(self.now, n, 1),
                            b"exat" => self.set_time(0, n, 1000),
                            _ => self.set_time(0, n, 1),
                        };
                        match at {
                            Some(t) => t,
                            None => return Ok(OVERFLOW),
                        }
                    }
                };
                let old = match self.alive(k) {
                    Some(Val { data: Data::Str(s), .. }) => Some(s.clone()),
                    _ => None,
                };
                let exists = self.alive(k).is_some();
                let met = match cond {
                    None => true,
                    Some(nx) => nx != exists,
                };
                if met {
                    self.put(k, Data::Str(a[1].clone()), deadline);
                } else if let Some(v) = self.keys.get_mut(k) {
                    v.freq = None; // how often this counts as an access is not specified
                    v.unsure = true;
                }
                match (get, met) {
                    (true, _) => old.map_or(Exp::Null, Exp::Text),
                    (false, true) => Exp::Ok,
                    (false, false) => Exp::Null,
                }
            }
            "setex" | "psetex" => {
                want(3, 3)?;
                let n = arg_int(&a[1])?;
                let unit = if name == "setex" { 1000 } else { 1 };
                match self.set_time(self.now, n, unit) {
                    None => OVERFLOW,
                    Some(t) => {
                        self.put(&a[0], Data::Str(a[2].clone()), t);
                        Exp::Ok
                    }
                }
            }
            "incr" | "decr" | "incrby" | "decrby" => {
                let by = if name.ends_with("by") {
                    want(2, 2)?;
                    arg_int(&a[1])? as i128
                } else {
                    want(1, 1)?;
                    1
                };
                let by = if name.starts_with('d') { -by } else { by };
                let (old, deadline) = match self.touch(&a[0]) {
                    None => (0, None),
                    Some(Val { data: Data::Str(s), deadline, .. }) => match int(s) {
                        Ok(i) => (i as i128, Some(*deadline)),
                        Err(true) => return Err(No::Skip),
                        Err(false) => return Ok(Exp::Err),
                    },
                    // an operand that can't be negated may be refused first
                    Some(_) if i64::try_from(by).is_err() => return Ok(Exp::Err),
                    Some(_) => return Ok(Exp::WrongType),
                };
                // the operand has to be a 64-bit integer after negation as well
                match (i64::try_from(by), i64::try_from(old + by)) {
                    (Ok(_), Ok(n)) => {
                        let s = n.to_string().into_bytes();
                        if deadline.is_some() {
                            self.keys.get_mut(&a[0]).unwrap().data = Data::Str(s);
                        } else {
                            self.put(&a[0], Data::Str(s), 0);
                        }
                        Exp::Int(n)
                    }
                    (Err(_), Ok(_)) => return Err(No::Skip),
                    _ => Exp::Err,
                }
            }
            "expire" | "pexpire" | "expireat" | "pexpireat" => {
                want(2, MANY)?;
                let n = arg_int(&a[1])?;
                let (mut nx, mut xx, mut gt, mut lt) = (false, false, false, false);
                for w in &a[2..] {
                    match &*w.to_ascii_lowercase() {
                        b"nx" => nx = true,
                        b"xx" => xx = true,
                        b"gt" => gt = true,
                        b"lt" => lt = true,
                        _ => return Err(No::Refused),
                    }
                }
                if (nx && (xx || gt || lt)) || (gt && lt) {
                    return Err(No::Skip);
                }
                let base = if name.ends_with("at") { 0 } else { self.now };
                let unit = if name.starts_with('p') { 1 } else { 1000 };
                let Some(t) = self.exp_time(base, n, unit) else { return Ok(OVERFLOW) };
                match self.touch(&a[0]) {
                    None => Exp::Int(0),
                    Some(v) => {
                        let cur = if v.deadline == 0 { u64::MAX } else { v.deadline };
                        let ok = (!nx || v.deadline == 0)
                            && (!xx || v.deadline != 0)
                            && (!gt || t > cur)
                            && (!lt || t < cur);
                        if ok {
                            v.deadline = t;
                        }
                        Exp::Int(ok as i64)
                    }
                }
            }
            "ttl" | "pttl" => {
                want(1, 1)?;
                Exp::Int(match self.alive(&a[0]) {
                    None => -2,
                    Some(v) if v.deadline == 0 => -1,
                    Some(v) => {
                        let ms = v.deadline - self.now;
                        (if name == "pttl" { ms } else { ms / 1000 + (ms % 1000 >= 500) as u64 }) as i64
                    }
                })
            }
            "del" => {
                want(1, MANY)?;
                Exp::Int(a.iter().filter(|k| self.keys.remove(*k).is_some()).count() as i64)
            }
            "exists" => {
                want(1, MANY)?;
                Exp::Int(a.iter().filter(|k| self.touch(k).is_some()).count() as i64)
            }
            "flushall" => {
                if a.len() > 1 || (a.len() == 1 && !a[0].eq_ignore_ascii_case(b"sync")) {
                    return if a.len() == 1 && a[0].eq_ignore_ascii_case(b"async") {
                        Err(No::Skip)
                    } else {
                        Err(No::Refused)
                    };
                }
                self.keys.clear();
                Exp::Ok
            }
            "object" => {
                want(2, 2)?;
                match (&*a[0], self.alive(&a[1])) {
                    (b"FREQ" | b"freq" | b"IDLETIME" | b"idletime", None) => Exp::Err,
                    (b"FREQ" | b"freq", Some(v)) => match v.freq {
                        Some(_) if !self.count_accesses => Exp::One,
                        Some(f) => Exp::Int(f as i64),
                        None => Exp::Skip,
                    },
                    (b"IDLETIME" | b"idletime", Some(v)) if v.unsure => Exp::One,
                    (b"IDLETIME" | b"idletime", Some(v)) => {
                        Exp::Int((self.now / 1000).saturating_sub(v.last / 10_000 * 10) as i64)
                    }
                    _ => Exp::One,
                }
            }
            "lpush" | "rpush" | "lpushx" | "rpushx" => {
                want(2, MANY)?;
                if name.ends_with('x') && self.alive(&a[0]).is_none() {
                    return Ok(Exp::Int(0));
                }
                let l = create!(&a[0], List, VecDeque::new());
                for v in &a[1..] {
                    if name.starts_with('l') {
                        l.push_front(v.clone());
                    } else {
                        l.push_back(v.clone());
                    }
                }
                Exp::Int(l.len() as i64)
            }
            "lpop" | "rpop" => {
                want(1, 2)?;
                let n = if a.len() == 2 { arg_uint(&a[1])? } else { 1 };
                let l = typed!(&a[0], List, Exp::Texts(vec![]));
                let mut r = vec![];
                while (r.len() as u64) < n {
                    match if name == "lpop" { l.pop_front() } else { l.pop_back() } {
                        Some(x) => r.push(Some(x)),
                        None => break,
                    }
                }
                self.drop_if_empty(&a[0]);
                Exp::Texts(r)
            }
            "llen" => {
                want(1, 1)?;
                let l = typed!(&a[0], List, Exp::Int(0));
                Exp::Int(l.len() as i64)
            }
            "lrange" => {
                want(3, 3)?;
                let (s, e) = (arg_int(&a[1])?, arg_int(&a[2])?);
                let l = typed!(&a[0], List, Exp::Texts(vec![]));
                Exp::Texts(slice(l.len(), s, e).map(|i| Some(l[i].clone())).collect())
            }
            "hset" => {
                want(3, MANY)?;
                if a.len() % 2 == 0 {
                    return Err(No::Refused);
                }
                let h = create!(&a[0], Hash, BTreeMap::new());
                let old = h.len();
                for p in a[1..].chunks(2) {
                    h.insert(p[0].clone(), p[1].clone());
                }
                Exp::Int((h.len() - old) as i64)
            }
            "hsetnx" => {
                want(3, 3)?;
                let h = create!(&a[0], Hash, BTreeMap::new());
                if h.contains_key(&a[1]) {
                    Exp::Int(0)
                } else {
                    h.insert(a[1].clone(), a[2].clone());
                    Exp::Int(1)
                }
            }
            "hdel" => {
                want(2, MANY)?;
                let h = typed!(&a[0], Hash, Exp::Int(0));
                let n = a[1..].iter().filter(|f| h.remove(*f).is_some()).count();
                self.drop_if_empty(&a[0]);
                Exp::Int(n as i64)
            }
            "hget" => {
                want(2, 2)?;
                let h = typed!(&a[0], Hash, Exp::Null);
                h.get(&a[1]).map_or(Exp::Null, |v| Exp::Text(v.clone()))
            }
            "hmget" => {
                want(2, MANY)?;
                let none = Exp::Texts(vec![None; a.len() - 1]);
                let h = typed!(&a[0], Hash, none);
                Exp::Texts(a[1..].iter().map(|f| h.get(f).cloned()).collect())
            }
            "hexists" => {
                want(2, 2)?;
                let h = typed!(&a[0], Hash, Exp::Int(0));
                Exp::Int(h.contains_key(&a[1]) as i64)
            }
            "hgetall" => {
                want(1, 1)?;
                let h = typed!(&a[0], Hash, Exp::Map(BTreeMap::new()));
                Exp::Map(h.clone())
            }
            "hincrby" => {
                want(3, 3)?;
                let by = arg_int(&a[2])?;
                let h = create!(&a[0], Hash, BTreeMap::new());
                let old = match h.get(&a[1]) {
                    None => 0,
                    Some(s) => match int(s) {
                        Ok(i) => i,
                        Err(true) => return Err(No::Skip),
                        Err(false) => return Ok(Exp::Err),
                    },
                };
                match old.checked_add(by) {
                    None => Exp::Err,
                    Some(n) => {
                        h.insert(a[1].clone(), n.to_string().into_bytes());
                        Exp::Int(n)
                    }
                }
            }
            "sadd" => {
                want(2, MANY)?;
                let s = create!(&a[0], Set, BTreeSet::new());
                Exp::Int(a[1..].iter().filter(|m| s.insert((*m).clone())).count() as i64)
            }
            "srem" => {
                want(2, MANY)?;
                let s = typed!(&a[0], Set, Exp::Int(0));
                let n = a[1..].iter().filter(|m| s.remove(*m)).count();
                self.drop_if_empty(&a[0]);
                Exp::Int(n as i64)
            }
            "smembers" => {
                want(1, 1)?;
                let s = typed!(&a[0], Set, Exp::Members(BTreeSet::new()));
                Exp::Members(s.clone())
            }
            "sismember" => {
                want(2, 2)?;
                let s = typed!(&a[0], Set, Exp::Int(0));
                Exp::Int(s.contains(&a[1]) as i64)
            }
            "smismember" => {
                want(2, MANY)?;
                let zeros = Exp::Texts(vec![Some(b"0".to_vec()); a.len() - 1]);
                let s = typed!(&a[0], Set, zeros);
                Exp::Texts(a[1..].iter().map(|m| Some((s.contains(m) as u8).to_string().into_bytes())).collect())
            }
            "zadd" => return self.zadd(a),
            "zrem" => {
                want(2, MANY)?;
                let z = typed!(&a[0], ZSet, Exp::Int(0));
                let n = a[1..].iter().filter(|m| z.remove(*m).is_some()).count();
                self.drop_if_empty(&a[0]);
                Exp::Int(n as i64)
            }
            "zrank" | "zrevrank" => {
                want(2, 2)?;
                let z = typed!(&a[0], ZSet, Exp::Null);
                let mut o = ordered(z);
                if name == "zrevrank" {
                    o.reverse();
                }
                o.iter().position(|n| n.0 == a[1]).map_or(Exp::Null, |p| Exp::Int(p as i64))
            }
            "zrange" | "zrevrange" | "zrangebyscore" | "zrevrangebyscore" | "zrangebylex" | "zrevrangebylex" => {
                want(3, MANY)?;
                let (mut by, mut rev, mut lim, mut ws) = (0, name.contains("rev"), None, false);
                if name.ends_with("score") {
                    by = 1;
                }
                if name.ends_with("lex") {
                    by = 2;
                }
                if std::str::from_utf8(&a[1]).is_err() || std::str::from_utf8(&a[2]).is_err() {
                    return Err(No::Refused);
                }
                let mut i = 3;
                let mut seen = BTreeSet::new();
                while i < a.len() {
                    let w = a[i].to_ascii_lowercase();
                    if !seen.insert(w.clone()) {
                        return Err(No::Skip);
                    }
                    i += 1;
                    match (&*w, name.as_str()) {
                        (b"byscore", "zrange") => {
                            if by != 0 {
                                return Err(No::Skip);
                            }
                            by = 1
                        }
                        (b"bylex", "zrange") => {
                            if by != 0 {
                                return Err(No::Skip);
                            }
                            by = 2
                        }
                        (b"rev", "zrange") => rev = true,
                        (b"limit", n) if n != "zrevrange" => {
                            let o = arg_int(a.get(i).ok_or(No::Refused)?)?;
                            let c = arg_int(a.get(i + 1).ok_or(No::Refused)?)?;
                            lim = Some((o, c));
                            i += 2;
                        }
                        (b"withscores", n) if !n.ends_with("lex") => ws = true,
                        _ => return Err(No::Refused),
                    }
                }
                let (lo, hi) = if rev { (&a[2], &a[1]) } else { (&a[1], &a[2]) };
                // arguments are checked before the key
                match by {
                    0 => {
                        if lim.is_some() {
                            return Err(No::Skip);
                        }
                        let (s, e) = match (arg_int(&a[1]), arg_int(&a[2])) {
                            (Err(No::Skip), _) | (_, Err(No::Skip)) => return Err(No::Skip),
                            (Ok(s), Ok(e)) => (s, e),
                            _ => return Err(No::Refused),
                        };
                        let z = typed!(&a[0], ZSet, Exp::Nodes(vec![], ws));
                        let mut o = ordered(z);
                        if rev {
                            o.reverse();
                        }
                        Exp::Nodes(slice(o.len(), s, e).map(|i| o[i].clone()).collect(), ws)
                    }
                    1 => {
                        let (l, h) = (arg_score_bound(lo)?, arg_score_bound(hi)?);
                        let z = typed!(&a[0], ZSet, Exp::Nodes(vec![], ws));
                        let mut o: Vec<_> =
                            ordered(z).into_iter().filter(|n| above(&n.1, &l) && below(&n.1, &h)).collect();
                        if rev {
                            o.reverse();
                        }
                        Exp::Nodes(limit(o, lim)?, ws)
                    }
                    _ => {
                        let (l, h) = (arg_lex_bound(lo)?, arg_lex_bound(hi)?);
                        let z = typed!(&a[0], ZSet, Exp::Nodes(vec![], ws));
                        let mut o = ordered(z);
                        if o.iter().any(|n| n.1 != o[0].1) {
                            return Err(No::Skip);
                        }
                        o.retain(|n| above(&n.0, &l) && below(&n.0, &h));
                        if rev {
                            o.reverse();
                        }
                        Exp::Nodes(limit(o, lim)?, ws)
                    }
                }
            }
            "zremrangebyrank" | "zremrangebyscore" | "zremrangebylex" => {
                want(3, 3)?;
                let gone: Vec<B> = match name.as_str() {
                    "zremrangebyrank" => {
                        let (s, e) = (arg_int(&a[1])?, arg_int(&a[2])?);
                        let z = typed!(&a[0], ZSet, Exp::Int(0));
                        let o = ordered(z);
                        slice(o.len(), s, e).map(|i| o[i].0.clone()).collect()
                    }
                    "zremrangebyscore" => {
                        let (l, h) = (arg_score_bound(&a[1])?, arg_score_bound(&a[2])?);
                        let z = typed!(&a[0], ZSet, Exp::Int(0));
                        ordered(z).into_iter().filter(|n| above(&n.1, &l) && below(&n.1, &h)).map(|n| n.0).collect()
                    }
                    _ => {
                        let (l, h) = (arg_lex_bound(&a[1])?, arg_lex_bound(&a[2])?);
                        let z = typed!(&a[0], ZSet, Exp::Int(0));
                        let o = ordered(z);
                        if o.iter().any(|n| n.1 != o[0].1) {
                            return Err(No::Skip);
                        }
                        o.into_iter().filter(|n| above(&n.0, &l) && below(&n.0, &h)).map(|n| n.0).collect()
                    }
                };
                if let Some(Val { data: Data::ZSet(z), .. }) = self.keys.get_mut(&a[0]) {
                    for g in &gone {
                        z.remove(g);
                    }
                }
                self.drop_if_empty(&a[0]);
                Exp::Int(gone.len() as i64)
            }
            "dump" => {
                want(1, 1)?;
                match self.touch(&a[0]) {
                    None => Exp::Null,
                    Some(_) => Exp::One,
                }
            }
            "info" => {
                want(0, 0)?;
                Exp::One
            }
            "config" => {
                want(2, MANY)?;
                Exp::One
            }
            "debug" => {
                want(2, MANY)?;
                for k in &a[1..] {
                    if let Some(v) = self.keys.get_mut(k) {
                        v.freq = None;
                    }
                }
                Exp::One
            }
            "restore" | "syncsnapshot" => Exp::Skip,
            _ => Exp::Err,
        })
    }

    fn zadd(&mut self, a: &[B]) -> Arg<Exp> {
        if a.is_empty() {
            return Err(No::Refused);
        }
        let (mut nx, mut xx, mut gt, mut lt, mut ch, mut incr) = (false, false, false, false, false, false);
        let mut i = 1;
        while i < a.len() {
            match &*a[i].to_ascii_lowercase() {
                b"nx" => nx = true,
                b"xx" => xx = true,
                b"gt" => gt = true,
                b"lt" => lt = true,
                b"ch" => ch = true,
                b"incr" => incr = true,
                _ => break,
            }
            i += 1;
        }
        let pairs = &a[i..];
        if pairs.is_empty() || pairs.len() % 2 == 1 {
            return Err(No::Refused);
        }
        let mut nodes = vec![];
        for p in pairs.chunks(2) {
            nodes.push((arg_float(&p[0])?, p[1].clone()));
        }
        if (nx && (xx || gt || lt)) || (gt && lt) {
            return Err(No::Skip);
        }
        if incr && nodes.len() > 1 {
            return Ok(Exp::Err);
        }
        if self.alive(&a[0]).is_none() {
            if xx {
                return Ok(Exp::Int(0));
            }
            self.put(&a[0], Data::ZSet(BTreeMap::new()), 0);
        } else {
            self.touch(&a[0]);
        }
        let Data::ZSet(z) = &mut self.keys.get_mut(&a[0]).unwrap().data else { return Ok(Exp::WrongType) };
        let (mut new, mut changed) = (0, 0);
        for (s, m) in nodes {
            match z.get(&m).copied() {
                None => {
                    if !xx {
                        z.insert(m, s);
                        new += 1;
                    }
                }
                Some(old) => {
                    let s = if incr { old + s } else { s };
                    if s.is_nan() {
                        return Ok(Exp::Err);
                    }
                    if !nx && (!gt || s > old) && (!lt || s < old) && s != old {
                        z.insert(m, s);
                        changed += 1;
                    }
                }
            }
        }
        self.drop_if_empty(&a[0]);
        Ok(Exp::Int(if ch { new + changed } else { new }))
    }

    /// RESTORE of a payload that encodes `data`
    pub fn restore(
        &mut self,
        k: &[u8],
        ttl: i64,
        data: Option<Data>,
        replace: bool,
        abs: bool,
        idle: Option<u64>,
        freq: Option<u64>,
    ) -> Exp {
        let now = self.now;
        self.keys.retain(|_, v| v.deadline == 0 || v.deadline > now);
        let deadline = if ttl == 0 {
            Some(0)
        } else {
            self.set_time(if abs { 0 } else { now }, ttl, 1)
        };
        let (Some(deadline), Some(data)) = (deadline, data) else {
            if let Some(v) = self.keys.get_mut(k) {
                v.freq = None;
            }
            return Exp::Err;
        };
        if self.alive(k).is_some() && !replace {
            self.touch(k);
            return Exp::Err;
        }
        self.put(k, data, deadline);
        let v = self.keys.get_mut(k).unwrap();
        v.freq = freq.map(|f| f.min(65_535));
        v.last = now;
        if let Some(i) = idle {
            v.last = (now / 1000).saturating_sub(i) * 1000;
            v.restored_idle(now);
        }
        self.keys.retain(|_, v| v.deadline == 0 || v.deadline > now);
        Exp::Ok
    }
}

impl Val {
    fn restored_idle(&mut self, _now: u64) {
        // how a given idle time and the decay of a given frequency interact is not specified
        self.freq = None;
    }
}

pub fn ordered(z: &BTreeMap<B, f64>) -> Vec<(B, f64)> {
    let mut v: Vec<_> = z.iter().map(|(k, s)| (k.clone(), *s)).collect();
    v.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap().then_with(|| a.0.cmp(&b.0)));
    v
}
