//! Runs steps against the real server and compares replies and the physical key space with the model.
use std::{
    net::SocketAddr,
    os::unix::fs::FileExt,
    sync::Arc,
    time::{Duration, Instant},
};

use db::Db;

use crate::{
    clock,
    gen::G,
    model::{int, Exp, Model},
    phys,
    resp::{esc, show_cmd, Client, Reply, B},
    rng::Rng,
};

#[derive(Debug, Clone, PartialEq)]
pub enum A {
    K(usize),
    V(B),
    /// the scenario's start time plus this many ms, in this unit
    T(i64, i64),
}

#[derive(Debug, Clone)]
pub enum Step {
    Cmd(Vec<A>),
    Advance(u64),
    /// let the background removal run
    Purge,
    Restore {
        src: usize,
        dst: usize,
        t: A,
        abs: bool,
        replace: bool,
        idle: Option<u64>,
        freq: Option<u64>,
        /// damage the payload
        cut: Option<u64>,
    },
}

pub struct World {
    pub db: Arc<Db>,
    pub addr: SocketAddr,
    pub c: Client,
    pub salt: u64,
    pub run_id: u64,
    pub journal: Option<std::fs::File>,
    pub joff: u64,
    pub steps: u64,
    pub cmds: u64,
    pub align: u64,
    pub after: Option<Box<dyn FnMut(&World, &Model, &[B]) -> Option<String>>>,
    pub distinct: std::collections::HashSet<u64>,
    pub last_cmd: B,
}

pub const NKEYS: usize = 6;

pub struct Fail {
    pub steps: Vec<Step>,
    pub phase: u64,
    pub what: String,
    pub trace: Vec<String>,
    pub hang: bool,
}

impl World {
    pub fn key(&self, prop: &str, i: usize) -> B {
        let s = format!("{}.{}", self.run_id, self.salt);
        let k = match (prop, i) {
            ("C04", 0) => format!("{{{s}}}a"),
            ("C04", 1) => format!("b{{{s}}}"),
            ("C04", 2) => format!("c{{}}{s}"),
            ("C04", 3) => format!("}}{{{s}}}{{x}}"),
            ("C04", 4) => format!("d{{{s}"),
            ("C04", _) => format!("e}}{s}{{x{{y}}"),
            (_, 1) => format!("k1:{s}{{a"),
            (_, 2) => format!("\r\n:{s}"),
            (_, 3) => format!("K{{k}}{s}"),
            (_, i) => format!("k{i}:{s}"),
        };
        k.into_bytes()
    }

    fn render(&self, prop: &str, start: u64, a: &A) -> B {
        match a {
            A::K(i) => self.key(prop, *i),
            A::V(b) => b.clone(),
            A::T(off, unit) => ((start as i64 + off).div_euclid(*unit)).to_string().into_bytes(),
        }
    }

    fn note(&mut self, line: &str) {
        if let Some(f) = &self.journal {
            let l = format!("{line}\n");
            let _ = f.write_at(l.as_bytes(), self.joff);
            self.joff += l.len() as u64;
        }
    }

    /// start a scenario: fresh keys, aligned time
    fn begin(&mut self, phase: u64) -> u64 {
        self.salt += 1;
        let now = clock::get();
        let a = self.align;
        let mut start = now / a * a + phase % a;
        while start <= now {
            start += a;
        }
        clock::set(start);
        if let Some(f) = &self.journal {
            let _ = f.set_len(0);
        }
        self.joff = 0;
        self.note(&format!("# scenario salt {} phase {phase} start {start}", self.salt));
        start
    }

    /// Err: description of the mismatch
    fn exec(&mut self, prop: &str, start: u64, m: &mut Model, st: &Step, trace: &mut Vec<String>) -> Result<(), (String, bool)> {
        self.steps += 1;
        match st {
            Step::Advance(d) => {
                let mut d = *d;
                if prop == "C20" {
                    // the access log keeps 16 bits of minutes: longer gaps are outside the property
                    let oldest = m.keys.values().map(|v| v.last).min().unwrap_or(m.now);
                    d = d.min((65_534 * 60_000u64).saturating_sub(m.now - oldest));
                }
                m.now += d;
                clock::set(m.now);
                trace.push(format!("(+{d} ms)"));
                self.note(trace.last().unwrap().clone().as_str());
            }
            Step::Purge => {
                trace.push("(background removal)".into());
                return self.purge(prop, m).map_err(|e| (e, false));
            }
            Step::Cmd(c) => {
                let cmd: Vec<B> = c.iter().map(|a| self.render(prop, start, a)).collect();
                if !self.own_keys(prop, &cmd) {
                    return Ok(());
                }
                let exp = m.apply(&cmd);
                if let Exp::Skip = exp {
                    return Ok(());
                }
                self.send(&cmd, exp, trace)?;
            }
            Step::Restore { src, dst, t, abs, replace, idle, freq, cut } => {
                let (sk, dk) = (self.key(prop, *src), self.key(prop, *dst));
                let dump = vec![b"DUMP".to_vec(), sk.clone()];
                let exp = m.apply(&dump);
                let missing = matches!(exp, Exp::Null);
                let r = self.send(&dump, exp, trace)?;
                if missing {
                    return Ok(());
                }
                let Some(payload) = r.text() else {
                    return Err((format!("DUMP of an existing key answered {}", r.show()), false));
                };
                let mut data = Some(m.alive(&sk).unwrap().data.clone());
                let mut payload = payload;
                if let Some(c) = cut {
                    data = None;
                    match damage(&payload, *c) {
                        Some(p) => payload = p,
                        None => return Ok(()),
                    }
                }
                let tt = self.render(prop, start, t);
                let mut cmd = vec![b"RESTORE".to_vec(), dk.clone(), tt.clone(), payload];
                if *replace {
                    cmd.push(b"REPLACE".to_vec());
                }
                if *abs {
                    cmd.push(b"ABSTTL".to_vec());
                }
                if let Some(i) = idle {
                    cmd.extend([b"IDLETIME".to_vec(), i.to_string().into_bytes()]);
                }
                if let Some(i) = freq {
                    cmd.extend([b"FREQ".to_vec(), i.to_string().into_bytes()]);
                }
                let Ok(ttl) = int(&tt) else { return Ok(()) };
                let exp = m.restore(&dk, ttl, data, *replace, *abs, *idle, *freq);
                self.send(&cmd, exp, trace)?;
            }
        }
        let keys: Vec<B> = (0..NKEYS).map(|i| self.key(prop, i)).collect();
        self.compare(m, &keys).map_err(|e| (e, false))?;
        if let Some(mut f) = self.after.take() {
            let r = f(self, m, &keys);
            self.after = Some(f);
            if let Some(e) = r {
                return Err((e, false));
            }
        }
        Ok(())
    }

    /// every key the command names belongs to this scenario
    fn own_keys(&self, prop: &str, cmd: &[B]) -> bool {
        let own = |k: &B| (0..NKEYS).any(|i| self.key(prop, i) == *k);
        match cmd.first().map(|n| n.to_ascii_lowercase()).as_deref() {
            Some(b"del" | b"exists" | b"debug") => cmd[1..].iter().all(own),
            Some(b"object") => cmd[1..].iter().skip(1).all(own),
            Some(b"flushall" | b"ping" | b"info" | b"config") | None => true,
            _ => cmd[1..].iter().take(1).all(own),
        }
    }

    fn send(&mut self, cmd: &[B], exp: Exp, trace: &mut Vec<String>) -> Result<Reply, (String, bool)> {
        self.cmds += 1;
        let line = show_cmd(cmd);
        self.note(&line);
        self.last_cmd = cmd[0].clone();
        let r = self.c.call(cmd);
        trace.push(format!("{line}\n    -> {}", r.show()));
        if !exp.matches(&r) {
            return Err((
                format!("{line}\n  answered {}\n  the property requires {}", r.show(), exp.show()),
                r == Reply::Timeout,
            ));
        }
        if r == Reply::Closed {
            self.c.reconnect();
        }
        Ok(r)
    }

    pub fn compare(&self, m: &Model, keys: &[B]) -> Result<(), String> {
        for k in keys {
            let Some(raw) = phys::lookup(&self.db, k) else { return Ok(()) };
            match (m.alive(k), raw) {
                (None, None) => {}
                (None, Some(r)) => {
                    if r.expires_at == 0 || r.expires_at > m.now {
                        return Err(format!(
                            "key {} must not exist, but its slot holds {:?} with deadline {} (now {})",
                            esc(k),
                            r.data,
                            r.expires_at,
                            m.now
                        ));
                    }
                }
                (Some(v), None) => {
                    return Err(format!("key {} must exist with {:?}, but its slot does not have it", esc(k), v.data))
                }
                (Some(v), Some(r)) => {
                    if r.data.as_ref() != Ok(&v.data) || r.expires_at != v.deadline {
                        return Err(format!(
                            "key {}: value {:?} with deadline {} is stored, the property requires {:?} with deadline {} (now {})",
                            esc(k),
                            r.data,
                            r.expires_at,
                            v.data,
                            v.deadline,
                            m.now
                        ));
                    }
                }
            }
        }
        Ok(())
    }

    fn purge(&mut self, prop: &str, m: &mut Model) -> Result<(), String> {
        let now = m.now;
        let keys: Vec<B> = (0..NKEYS).map(|i| self.key(prop, i)).collect();
        let logs = |w: &World| -> Vec<Option<u64>> {
            keys.iter()
                .map(|k| match (m.alive(k), phys::lookup(&w.db, k)) {
                    (Some(_), Some(Some(r))) => Some(r.visit_log),
                    _ => None,
                })
                .collect()
        };
        let before = logs(self);
        // a deadline before all others wakes the background task
        let z = format!("z:{}.{}.{}", self.run_id, self.salt, self.steps).into_bytes();
        self.c.call(&[b"SET".to_vec(), z.clone(), b"1".to_vec()]);
        self.c.call(&[b"PEXPIREAT".to_vec(), z.clone(), b"1".to_vec()]);
        let t0 = Instant::now();
        loop {
            let mut left = vec![];
            for k in keys.iter().chain([&z]) {
                match phys::lookup(&self.db, k) {
                    None => return Ok(()),
                    Some(Some(r)) if r.expires_at != 0 && r.expires_at <= now => left.push(k.clone()),
                    _ => {}
                }
            }
            if left.is_empty() && phys::purged(&self.db, now) {
                break;
            }
            if t0.elapsed() > Duration::from_secs(4) {
                return Err(format!(
                    "the background removal has run, but expired keys are still there: {} (now {now})",
                    left.iter().map(|k| esc(k)).collect::<Vec<_>>().join(", ")
                ));
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        std::thread::sleep(Duration::from_micros(300));
        self.compare(m, &keys).map_err(|e| format!("after the background removal: {e}"))?;
        if logs(self) != before {
            return Err("the background removal changed the access bookkeeping of a live key".into());
        }
        Ok(())
    }

    pub fn attempt(&mut self, prop: &str, phase: u64, steps: &[Step]) -> Option<(String, Vec<String>, bool)> {
        let start = self.begin(phase);
        let mut m = Model { now: start, count_accesses: prop == "C20", ..Default::default() };
        let mut trace = vec![];
        for s in steps {
            if let Err((e, hang)) = self.exec(prop, start, &mut m, s, &mut trace) {
                self.c.reconnect();
                return Some((e, trace, hang));
            }
        }
        None
    }

    /// generate and run one scenario
    pub fn scenario(&mut self, prop: &str, r: &mut Rng, len: usize) -> Option<Fail> {
        let phase = r.below(self.align);
        let phase = if prop == "C20" { self.align - 1 - phase % (60_000 * 4) } else { phase };
        let start = self.begin(phase);
        let mut m = Model { now: start, count_accesses: prop == "C20", ..Default::default() };
        let mut trace = vec![];
        let mut steps = vec![];
        let nk = match prop {
            "C19" => 4,
            "C04" => 6,
            _ => 1 + r.below(3) as usize,
        };
        let keys: Vec<B> = (0..NKEYS).map(|i| self.key(prop, i)).collect();
        for _ in 0..len {
            let st = G { r, m: &m, keys: &keys, start, prop, nk }.step();
            steps.push(st.clone());
            if let Err((e, hang)) = self.exec(prop, start, &mut m, &st, &mut trace) {
                self.c.reconnect();
                return Some(Fail { steps, phase, what: e, trace, hang });
            }
        }
        if self.distinct.len() < 2_000_000 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            format!("{steps:?}").hash(&mut h);
            self.distinct.insert(h.finish());
        }
        None
    }

    /// delta debugging
    pub fn shrink(&mut self, prop: &str, mut f: Fail) -> Fail {
        if f.hang {
            return f;
        }
        let t0 = Instant::now();
        let mut n = 2;
        while f.steps.len() >= 2 && t0.elapsed() < Duration::from_secs(20) {
            let size = f.steps.len().div_ceil(n);
            let mut reduced = false;
            let mut i = 0;
            while i < f.steps.len() && t0.elapsed() < Duration::from_secs(20) {
                let mut c = f.steps.clone();
                c.drain(i..(i + size).min(f.steps.len()));
                if let Some((what, trace, hang)) = self.attempt(prop, f.phase, &c) {
                    if hang {
                        return f;
                    }
                    f.steps = c;
                    f.what = what;
                    f.trace = trace;
                    reduced = true;
                } else {
                    i += size;
                }
            }
            if !reduced {
                if size == 1 {
                    break;
                }
                n = (n * 2).min(f.steps.len());
            } else {
                n = 2.max(n / 2);
            }
        }
        f
    }
}

/// Some(payload that does not decode to a value)
fn damage(p: &B, c: u64) -> Option<B> {
    use dict::data_type as d;
    // the value is followed by deadline and access log, which RESTORE does not read
    let body = p.len().checked_sub(16)?;
    match c % 10 {
        0 => Some(vec![]),
        1..=4 => Some(p[..(c as usize / 10 * 37) % body].to_vec()),
        5 => Some([&[200u8, 0, 0, 0][..], &p[4..]].concat()),
        6 => Some([&[0xffu8; 12][..]].concat()),
        k => {
            let e = match (k + c / 10) % 4 {
                0 => d::DataType::Deque(d::Deque::new()),
                1 => d::DataType::Kvp(Box::new(d::Kvp::new())),
                2 => d::DataType::Set(Box::new(d::Set::new())),
                _ => d::DataType::SortedSet(Box::new(d::SortedSet::new())),
            };
            let mut v = bincode::serialize(&e).ok()?;
            v.extend([0; 16]);
            Some(v)
        }
    }
}

pub fn show_fail(prop: &str, f: &Fail) -> String {
    let mut s = format!("property {prop}: the real code answers or stores something the property forbids\n\n{}\n\n", f.what);
    s.push_str("history on a fresh server (keys carry a suffix that makes them unique):\n");
    for t in &f.trace {
        s.push_str(&format!("  {t}\n"));
    }
    s.push_str(&format!("\nscript for `replay script`:\nprop {prop}\nphase {}\n", f.phase));
    for st in &f.steps {
        s.push_str(&write_step(st));
        s.push('\n');
    }
    s
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}
fn unhex(s: &str) -> B {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn write_arg(a: &A) -> String {
    match a {
        A::K(i) => format!("k:{i}"),
        A::V(b) => format!("v:{}", hex(b)),
        A::T(o, u) => format!("t:{o}:{u}"),
    }
}
fn read_arg(s: &str) -> A {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] {
        "k" => A::K(p[1].parse().unwrap()),
        "v" => A::V(unhex(p[1])),
        _ => A::T(p[1].parse().unwrap(), p[2].parse().unwrap()),
    }
}
pub fn write_step(st: &Step) -> String {
    match st {
        Step::Advance(d) => format!("advance {d}"),
        Step::Purge => "purge".into(),
        Step::Cmd(c) => format!("cmd {}", c.iter().map(write_arg).collect::<Vec<_>>().join(" ")),
        Step::Restore { src, dst, t, abs, replace, idle, freq, cut } => {
            let o = |x: &Option<u64>| x.map_or("-".into(), |v| v.to_string());
            format!("restore {src} {dst} {} {abs} {replace} {} {} {}", write_arg(t), o(idle), o(freq), o(cut))
        }
    }
}
pub fn read_step(l: &str) -> Option<Step> {
    let p: Vec<&str> = l.split_whitespace().collect();
    let o = |s: &str| s.parse::<u64>().ok();
    Some(match *p.first()? {
        "advance" => Step::Advance(p[1].parse().ok()?),
        "purge" => Step::Purge,
        "cmd" => Step::Cmd(p[1..].iter().map(|a| read_arg(a)).collect()),
        "restore" => Step::Restore {
            src: p[1].parse().ok()?,
            dst: p[2].parse().ok()?,
            t: read_arg(p[3]),
            abs: p[4] == "true",
            replace: p[5] == "true",
            idle: o(p[6]),
            freq: o(p[7]),
            cut: o(p[8]),
        },
        _ => return None,
    })
}
