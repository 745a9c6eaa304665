//! The physical key space of a `Db`.
use std::collections::VecDeque;

use db::Db;
use dict::data_type::DataType;

use crate::{model::Data, resp::B};

pub struct Raw {
    pub data: Result<Data, String>,
    pub expires_at: u64,
    pub visit_log: u64,
}

/// CRC16 (XMODEM), bit by bit
pub fn crc16(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for x in b {
        c ^= (*x as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 };
        }
    }
    c
}

pub fn slot_of(key: &[u8]) -> usize {
    let mut k = key;
    if let Some(i) = key.iter().position(|c| *c == b'{') {
        if let Some(n) = key[i + 1..].iter().position(|c| *c == b'}') {
            if n > 0 {
                k = &key[i + 1..i + 1 + n];
            }
        }
    }
    (crc16(k) % 16384) as usize
}

#[cfg(feature = "phys")]
fn text(d: &DataType) -> Result<B, String> {
    match d {
        DataType::String(b) | DataType::Bytes(b) => Ok(b.clone()),
        DataType::Integer(i) => Ok(i.to_string().into_bytes()),
        DataType::Float(f) => Ok(f.0.to_string().into_bytes()),
        d => Err(format!("not a text: {d:?}")),
    }
}

#[cfg(feature = "phys")]
pub fn data_of(d: &DataType) -> Result<Data, String> {
    Ok(match d {
        DataType::Kvp(k) => {
            let mut m = std::collections::BTreeMap::new();
            for (f, v) in k.inner.iter() {
                m.insert(f.to_vec(), text(v)?);
            }
            Data::Hash(m)
        }
        DataType::Deque(q) => {
            let mut l = VecDeque::new();
            for v in q.iter() {
                l.push_back(text(v)?);
            }
            Data::List(l)
        }
        DataType::Set(s) => Data::Set(s.inner.iter().map(|m| m.to_vec()).collect()),
        DataType::SortedSet(z) => {
            let mut m = std::collections::BTreeMap::new();
            for n in z.value.iter() {
                if m.insert(n.key.to_vec(), n.score.0).is_some() {
                    return Err("a member has two scores".into());
                }
            }
            if z.hash.len() != m.len() || z.hash.iter().any(|(k, n)| *k != n.key || m.get(&k.to_vec()) != Some(&n.score.0)) {
                return Err("lookup and traversal of a sorted set disagree".into());
            }
            Data::ZSet(m)
        }
        d => Data::Str(text(d)?),
    })
}

/// None: no physical access in this build
#[cfg(feature = "phys")]
pub fn lookup(db: &Db, key: &[u8]) -> Option<Option<Raw>> {
    let g = db.slots[slot_of(key)].share_status.lock();
    let Some(s) = &*g else { return Some(None) };
    Some(s.dict.inner.get(key).map(|v| Raw {
        data: data_of(&v.data),
        expires_at: v.expires_at,
        visit_log: v.visit_log,
    }))
}
#[cfg(not(feature = "phys"))]
pub fn lookup(_db: &Db, _key: &[u8]) -> Option<Option<Raw>> {
    None
}

/// no recorded deadline at or before `now` is left
#[cfg(feature = "phys")]
pub fn purged(db: &Db, now: u64) -> bool {
    db.expiration_data.lock().iter().all(|e| e.expires_at > now)
}
#[cfg(not(feature = "phys"))]
pub fn purged(_db: &Db, _now: u64) -> bool {
    true
}

#[cfg(feature = "phys")]
pub fn write_id(db: &Db, slot: usize) -> Option<u64> {
    db.slots[slot].share_status.lock().as_ref().map(|s| s.dict.write_id)
}
#[cfg(not(feature = "phys"))]
pub fn write_id(_db: &Db, _slot: usize) -> Option<u64> {
    None
}

/// everything in the slot, by key
#[cfg(feature = "phys")]
pub fn slot_content(db: &Db, slot: usize) -> Vec<(B, Raw)> {
    let g = db.slots[slot].share_status.lock();
    let Some(s) = &*g else { return vec![] };
    let mut v: Vec<_> = s
        .dict
        .inner
        .iter()
        .map(|(k, v)| {
            (k.to_vec(), Raw { data: data_of(&v.data), expires_at: v.expires_at, visit_log: v.visit_log })
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
#[cfg(not(feature = "phys"))]
pub fn slot_content(_db: &Db, _slot: usize) -> Vec<(B, Raw)> {
    vec![]
}
