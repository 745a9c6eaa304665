//! C01: encode/decode round trip at the codec.
use std::time::Instant;

use common::connection::parse::frame::{parse, Frame};

use crate::{
    resp::{esc, B},
    rng::Rng,
    Report,
};

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Simple(B),
    Error(B),
    Bulk(B),
    Int(i64),
    Null,
    Array(Vec<V>),
}

fn bytes(r: &mut Rng) -> B {
    match r.below(12) {
        0 => vec![],
        1 => b"\r\n".to_vec(),
        2 => b"a\nb\rc".to_vec(),
        3 => vec![0xff, 0xfe, 0],
        4 => b"+OK\r\n-ERR\r\n$3\r\nabc\r\n".to_vec(),
        5 => b"$-1".to_vec(),
        6 => vec![b'x'; [9, 10, 11, 99, 100, 101, 999, 1000, 1001, 65536][r.below(10) as usize]],
        _ => r.bytes(14),
    }
}

pub fn value(r: &mut Rng, depth: u64) -> V {
    match r.below(if depth == 0 { 7 } else { 9 }) {
        0 => V::Simple(bytes(r)),
        1 => {
            let mut b = bytes(r);
            b.push(b'e');
            V::Error(b)
        }
        2 | 3 => V::Bulk(bytes(r)),
        4 => V::Int(match r.below(6) {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => 0,
            3 => r.next() as i64,
            4 => 10i64.pow(r.below(19) as u32) - 1,
            _ => r.range(-100, 100),
        }),
        5 => V::Int(-(10i64.pow(r.below(19) as u32))),
        6 => V::Null,
        _ => {
            let n = [0, 1, 2, 3, 9, 10, 11][r.below(7) as usize];
            V::Array((0..n).map(|_| value(r, depth - 1)).collect())
        }
    }
}

fn frame(v: &V, r: &mut Rng) -> Frame<'static> {
    let leak = |b: &B| -> &'static [u8] { Box::leak(b.clone().into_boxed_slice()) };
    match v {
        V::Simple(b) => match (r.below(3), String::from_utf8(b.clone())) {
            (0, Ok(s)) => Frame::OwnedStringSimple(s),
            (1, _) => Frame::OwnedSimple(b.clone()),
            _ => Frame::Simple(leak(b)),
        },
        V::Error(b) => match (r.below(2), String::from_utf8(b.clone())) {
            (0, Ok(s)) => Frame::OwnedError(s),
            _ => Frame::Error(leak(b)),
        },
        V::Bulk(b) => {
            if r.chance(50) {
                Frame::OwnedBulk(b.clone())
            } else {
                Frame::Bulk(leak(b))
            }
        }
        V::Int(i) => Frame::Integer(*i),
        V::Null => Frame::Null,
        V::Array(a) => Frame::Array(a.iter().map(|v| frame(v, r)).collect()),
    }
}

/// what a decoder has to see; None for text that can't be a simple string or error as it is
fn same(v: &V, f: &Frame) -> bool {
    let brk = |b: &B| b.iter().any(|c| *c == b'\r' || *c == b'\n');
    match (v, f) {
        (V::Simple(b), f) if brk(b) => !matches!(f, Frame::Array(_) | Frame::Null | Frame::Error(_) | Frame::Integer(_)),
        (V::Error(b), Frame::Error(e)) => brk(b) || b == e,
        (V::Simple(b), Frame::Simple(e)) => b == e,
        (V::Bulk(b), Frame::Bulk(e)) => b == e,
        (V::Int(i), Frame::Integer(j)) => i == j,
        (V::Null, Frame::Null) => true,
        (V::Array(a), Frame::Array(e)) => a.len() == e.len() && a.iter().zip(e).all(|(a, e)| same(a, e)),
        _ => false,
    }
}

fn check(v: &V, r: &mut Rng) -> Option<String> {
    let f = frame(v, r);
    let enc: Vec<u8> = (&f).into();
    match parse(&enc) {
        Ok(Some((n, g))) if n == enc.len() && same(v, &g) => {}
        o => {
            return Some(format!(
                "reply {v:?}\nis encoded as {}\nwhich decodes as {:?} (bytes consumed, value), the property requires the equal value and all {} bytes consumed",
                esc(&enc),
                o.map(|o| o.map(|(n, f)| (n, format!("{f:?}")))).map_err(|e| e.to_string()),
                enc.len()
            ))
        }
    }
    let cuts: Vec<usize> = if enc.len() < 200 {
        (0..enc.len()).collect()
    } else {
        (0..60).chain((0..60).map(|_| r.below(enc.len() as u64) as usize)).chain(enc.len() - 20..enc.len()).collect()
    };
    for c in cuts {
        match parse(&enc[..c]) {
            Ok(None) => {}
            o => {
                return Some(format!(
                    "reply {v:?}\nis encoded as {}\nits prefix of {c} bytes is not incomplete but gives {:?}",
                    esc(&enc),
                    o.map(|o| o.map(|(n, f)| (n, format!("{f:?}")))).map_err(|e| e.to_string())
                ))
            }
        }
    }
    // more bytes behind do not matter
    let mut more = enc.clone();
    more.extend(b"+x\r\n$1");
    match parse(&more) {
        Ok(Some((n, g))) if n == enc.len() && same(v, &g) => None,
        _ => Some(format!("reply {v:?} encoded as {} decodes differently when more bytes follow", esc(&enc))),
    }
}

pub fn roundtrip(seed: u64, secs: f64) -> Report {
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: String::new(), violation: None };
    let mut seen = std::collections::HashSet::new();
    while t0.elapsed().as_secs_f64() < secs && rep.evaluations < 300_000 {
        let d = r.below(5);
        let v = value(&mut r, d);
        if seen.len() < 500_000 {
            seen.insert(format!("{v:?}"));
        }
        rep.evaluations += 1;
        if rep.samples.len() < 3 {
            rep.samples.push(format!("{v:?}"));
        }
        let mut bad = check(&v, &mut r);
        if bad.is_some() {
            // smaller one
            let mut best = v;
            for _ in 0..200_000 {
                let d = r.below(2);
                let v = value(&mut r, d);
                if format!("{v:?}").len() < format!("{best:?}").len() {
                    if let Some(b) = check(&v, &mut r) {
                        best = v;
                        bad = Some(b);
                    }
                }
            }
            rep.violation = bad;
            break;
        }
    }
    rep.distinct = seen.len() as u64;
    rep.note = "random reply trees of depth up to 4, every prefix of encodings shorter than 200 bytes".into();
    rep
}
