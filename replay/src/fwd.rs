//! C22: the published write log replayed on a second Db.
use std::{
    cmp::Ordering,
    io::Read,
    net::{SocketAddr, TcpStream},
    sync::Arc,
    time::Duration,
};

use db::Db;
use serde::Deserialize;

use crate::{
    clock,
    drive::{World},
    model::Model,
    phys,
    resp::{esc, B},
};

#[derive(Deserialize, Clone)]
pub struct Msg {
    pub id: u64,
    pub slot: usize,
    pub cmd: dict::cmd::WriteCmd,
}

/// ports this process listens on
pub fn listening() -> Vec<u16> {
    let mut inodes = std::collections::HashSet::new();
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        if let Ok(l) = std::fs::read_link(e.path()) {
            if let Some(n) = l.to_string_lossy().strip_prefix("socket:[") {
                inodes.insert(n.trim_end_matches(']').to_string());
            }
        }
    }
    let mut v = vec![];
    for l in std::fs::read_to_string("/proc/net/tcp").unwrap_or_default().lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 9 && f[3] == "0A" && inodes.contains(f[9]) {
            v.push(u16::from_str_radix(f[1].split(':').nth(1).unwrap(), 16).unwrap());
        }
    }
    v
}

struct Follower {
    s: TcpStream,
    buf: B,
    db2: Arc<Db>,
    last: Vec<u64>,
}

impl Follower {
    /// next published message
    fn next(&mut self) -> Option<Msg> {
        loop {
            let mut cur = std::io::Cursor::new(&self.buf[..]);
            if let Ok(m) = bincode::deserialize_from::<_, Msg>(&mut cur) {
                let n = cur.position() as usize;
                self.buf.drain(..n);
                return Some(m);
            }
            let mut t = [0; 65536];
            match self.s.read(&mut t) {
                Ok(n) if n > 0 => self.buf.extend(&t[..n]),
                _ => return None,
            }
        }
    }
    fn copy(&mut self, w: &World, slot: usize) {
        if let Some(s) = &*w.db.slots[slot].share_status.lock() {
            let b = bincode::serialize(&s.dict).unwrap();
            self.db2.replace_dict(slot, bincode::deserialize(&b).unwrap());
            self.last[slot] = s.dict.write_id;
        }
    }
    fn apply(&self, m: &Msg) -> Ordering {
        self.db2.slots[m.slot].process_forward(m.id, m.cmd.clone())
    }
    fn differs(&self, w: &World, slot: usize) -> Option<String> {
        let now = clock::get();
        let live = |db: &Db| -> Vec<(B, _, u64)> {
            phys::slot_content(db, slot)
                .into_iter()
                .filter(|(_, r)| r.expires_at == 0 || r.expires_at > now)
                .map(|(k, r)| (k, r.data, r.expires_at))
                .collect()
        };
        let (a, b) = (live(&w.db), live(&self.db2));
        (a != b).then(|| format!("slot {slot}\n  original: {a:?}\n  copy:     {b:?}"))
    }

    fn step(&mut self, w: &World, keys: &[B]) -> Option<String> {
        let slots: std::collections::BTreeSet<usize> = keys.iter().map(|k| phys::slot_of(k)).collect();
        // FLUSHALL uses up a number of every slot
        if phys::write_id(&w.db, 16_000).unwrap_or(0) != self.last[16_000] || phys::write_id(&w.db, 3).unwrap_or(0) != self.last[3] {
            for s in 0..common::SLOT_SIZE {
                let id = phys::write_id(&w.db, s).unwrap_or(0);
                if id != self.last[s] && !slots.contains(&s) {
                    if id != self.last[s] + 1 {
                        return Some(format!("FLUSHALL took the write number of slot {s} from {} to {id}", self.last[s]));
                    }
                    self.copy(w, s);
                }
            }
        }
        let mut pending: Vec<Msg> = vec![];
        for slot in slots {
            let end = phys::write_id(&w.db, slot).unwrap_or(0);
            if end < self.last[slot] {
                return Some(format!("the write number of slot {slot} went from {} back to {end}", self.last[slot]));
            }
            let mut gap_ok = None;
            while self.last[slot] < end {
                let m = match pending.iter().position(|m| m.slot == slot) {
                    Some(i) => pending.remove(i),
                    None => {
                        if gap_ok.is_none() {
                            // a flush is not published
                            gap_ok = Some(w.last_unpublished());
                        }
                        if gap_ok == Some(true) && end == self.last[slot] + 1 {
                            self.copy(w, slot);
                            continue;
                        }
                        match self.next() {
                            Some(m) if m.slot == slot => m,
                            Some(m) => {
                                pending.push(m);
                                continue;
                            }
                            None => {
                                return Some(format!(
                                    "write number {} of slot {slot} was given, but no message with it was published",
                                    self.last[slot] + 1
                                ))
                            }
                        }
                    }
                };
                let next = self.last[slot] + 1;
                if m.id != next {
                    return Some(format!("slot {slot}: number {} is published after {}", m.id, self.last[slot]));
                }
                if let dict::cmd::WriteCmd::None = m.cmd {
                    // RESTORE: nothing to apply, the follower must notice later; take a copy
                    self.copy(w, slot);
                    continue;
                }
                // a gap is reported and changes nothing
                let early = Msg { id: next + 1, ..m.clone() };
                // expired keys may be removed at any time
                let now = clock::get();
                let show = |d: &Db| {
                    let c = phys::slot_content(d, slot);
                    let live = c.iter().filter(|(_, r)| r.expires_at == 0 || r.expires_at > now);
                    format!("{:?}", live.map(|(k, r)| (k, &r.data, r.expires_at)).collect::<Vec<_>>())
                };
                let before = show(&self.db2);
                let o = self.apply(&early);
                if o != Ordering::Greater || show(&self.db2) != before || phys::write_id(&self.db2, slot) != Some(next - 1) {
                    return Some(format!(
                        "a follower at number {} that gets {} ({:?}) must report a gap and change nothing; it says {o:?}",
                        next - 1,
                        next + 1,
                        m.cmd
                    ));
                }
                let o = self.apply(&m);
                if o != Ordering::Equal || phys::write_id(&self.db2, slot) != Some(next) {
                    return Some(format!("the next write ({next}, {:?}) is not applied by the follower: {o:?}", m.cmd));
                }
                let after = show(&self.db2);
                for old in [next, next.saturating_sub(1)] {
                    let o = self.apply(&Msg { id: old, ..m.clone() });
                    if o != Ordering::Less || show(&self.db2) != after || phys::write_id(&self.db2, slot) != Some(next) {
                        return Some(format!("number {old} again ({:?}) is not ignored by a follower at {next}: {o:?}", m.cmd));
                    }
                }
                self.last[slot] = next;
            }
            if let Some(d) = self.differs(w, slot) {
                return Some(format!("replaying the published writes does not give the original: {d}"));
            }
        }
        if let Some(m) = pending.first() {
            return Some(format!("a message for slot {} (number {}) was published without a write there: {:?}", m.slot, m.id, m.cmd));
        }
        None
    }
}

impl World {
    /// the last request was one that is not published
    fn last_unpublished(&self) -> bool {
        self.last_cmd.eq_ignore_ascii_case(b"flushall")
    }
}

pub fn attach(w: &mut World, rt: &tokio::runtime::Runtime) {
    std::thread::sleep(Duration::from_millis(300));
    let ports: Vec<u16> = listening().into_iter().filter(|p| *p != w.addr.port()).collect();
    assert_eq!(ports.len(), 1, "forward port not found: {ports:?}");
    let a: SocketAddr = ([127, 0, 0, 1], ports[0]).into();
    let s = TcpStream::connect(a).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(4))).unwrap();
    std::thread::sleep(Duration::from_millis(300));
    let db2 = rt.block_on(Db::new());
    let mut f = Follower { s, buf: vec![], db2, last: vec![0; common::SLOT_SIZE] };
    w.after = Some(Box::new(move |w: &World, _m: &Model, keys: &[B]| {
        f.step(w, keys).map(|e| format!("{e}\n(keys of the scenario: {})", keys.iter().map(|k| esc(k)).collect::<Vec<_>>().join(" ")))
    }));
}
