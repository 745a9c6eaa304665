//! C02: request framing over TCP. C03: replies.
use std::time::{Duration, Instant};

use common::connection::parse::frame::parse;

use crate::{
    clock,
    drive::{Step, World, A, NKEYS},
    gen::G,
    model::{Exp, Model},
    resp::{encode, esc, show_cmd, Client, Reply, B},
    rng::Rng,
    world, Report,
};

fn send_chunked(c: &mut Client, b: &[u8], r: &mut Rng) -> bool {
    let mut i = 0;
    let mode = r.below(4);
    while i < b.len() {
        let n = match mode {
            0 => b.len(),
            1 => 1 + r.below(3) as usize,
            2 => 1 + r.below(40) as usize,
            _ => 1 + r.below(5000) as usize,
        }
        .min(b.len() - i);
        if !c.send(&b[i..i + n]) {
            return false;
        }
        i += n;
        if mode != 0 && r.chance(3) {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    true
}

fn rendered(w: &World, prop: &str, c: &[A]) -> Vec<B> {
    c.iter()
        .map(|a| match a {
            A::K(i) => w.key(prop, *i),
            A::V(b) => b.clone(),
            A::T(..) => b"5".to_vec(),
        })
        .collect()
}

/// a batch of requests that are answered, with what is required of the answers
fn batch(w: &World, m: &mut Model, r: &mut Rng, n: usize, weird: bool) -> Vec<(Vec<B>, Exp)> {
    let keys: Vec<B> = (0..NKEYS).map(|i| w.key("C03", i)).collect();
    let mut v = vec![];
    while v.len() < n {
        let prop = if weird { "C03" } else { "C05x" };
        let nk = 1 + r.below(5) as usize;
        let st = G { r, m, keys: &keys, start: m.now, prop, nk }.step();
        let Step::Cmd(c) = st else { continue };
        let cmd = rendered(w, "C03", &c);
        let mut t = m.clone();
        let e = t.apply(&cmd);
        match e {
            Exp::Skip | Exp::Refused => continue,
            e => {
                *m = t;
                v.push((cmd, e));
            }
        }
    }
    v
}

const MALFORMED: &[&[u8]] = &[
    b"*1\r\n$4x\r\nPING\r\n",
    b"*1\r\n$x4\r\nPING\r\n",
    b"*1x\r\n$4\r\nPING\r\n",
    b"*\r\n$4\r\nPING\r\n",
    b"*1\r\n$\r\nPING\r\n",
    b"*1\r\n$4\r\nPINGx\r\n",
    b"*1\r\n$4\r\nPING\n\r",
    b"*1\r\n$3\r\nPING\r\n",
    b"*1\r\n4\r\nPING\r\n",
    b"!1\r\n$4\r\nPING\r\n",
    b"*1\n$4\r\nPING\r\n",
    b"*1\r$4\r\nPING\r\n",
    b"*1\r\n$4\n\nPING\r\n",
    b"*1\r\n$ 4\r\nPING\r\n",
    b"*1\r\n$4 \r\nPING\r\n",
    b"*1\r\n$0x4\r\nPING\r\n",
    b"*1\r\n$4.0\r\nPING\r\n",
    b"* 1\r\n$4\r\nPING\r\n",
    b"*99999999999999999999\r\n$4\r\nPING\r\n",
    b"*1\r\n$99999999999999999999\r\nPING\r\n",
    b"*2\r\n$4\r\nPING\r\n:1x\r\n",
    b"*2\r\n$4\r\nPING\r\n:\r\n",
    b"*2\r\n$4\r\nPING\r\nx\r\n",
    b"*2\r\n$3\r\nGET\r\n=1\r\na\r\n",
    b"GET a\r\n",
    b"\r\n*1\r\n$4\r\nPING\r\n",
    b"\0\0\0\0",
];

fn deep(n: usize) -> B {
    b"*1\r\n".repeat(n)
}

/// C02
pub fn framing(seed: u64, secs: f64, journal: &str) -> Report {
    let rt = crate::runtime();
    clock::set(1_700_000_000_000);
    let mut w = world(rt, 600_000, Some(journal));
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: String::new(), violation: None };
    let mut other = Client::connect(w.addr);
    let fail = |what: String, sent: &[u8]| {
        Some(format!("{what}\n\nbytes of the connection (hex, {} bytes): {}\n", sent.len(), {
            sent.iter().take(20_000).map(|c| format!("{c:02x}")).collect::<String>()
        }))
    };
    let mut seen = std::collections::HashSet::new();
    while t0.elapsed().as_secs_f64() < secs {
        w.salt += 1;
        let mut m = Model { now: clock::get(), ..Default::default() };
        let n = 1 + r.below(12) as usize;
        let b = batch(&w, &mut m, &mut r, n, r_chance(&mut Rng::new(w.salt)));
        let mut bytes: B = b.iter().flat_map(|(c, _)| encode(c)).collect();
        let good = bytes.len();
        if seen.len() < 300_000 {
            seen.insert(bytes.clone());
        }
        rep.evaluations += 1;
        // codec level: a prefix of a request is incomplete, a request takes exactly its bytes
        let one = encode(&b[0].0);
        let cuts: Vec<usize> = if one.len() < 120 { (0..one.len()).collect() } else { (0..40).map(|_| r.below(one.len() as u64) as usize).collect() };
        for c in cuts {
            if !matches!(parse(&one[..c]), Ok(None)) {
                rep.violation = fail(format!("request {}\nits first {c} bytes are not treated as incomplete", show_cmd(&b[0].0)), &one[..c]);
                return rep;
            }
        }
        match parse(&bytes) {
            Ok(Some((n, _))) if n == one.len() => {}
            _ => {
                rep.violation = fail(format!("of these pipelined requests the first one is not taken with exactly its {} bytes", one.len()), &bytes);
                return rep;
            }
        }
        // malformed tail
        let kind = r.below(6);
        let evil = format!("evil:{}.{}", w.run_id, w.salt).into_bytes();
        let mut closes = true;
        match kind {
            0 | 1 => closes = false,
            2 | 3 => bytes.extend(*r.pick(MALFORMED)),
            4 => {
                // a request with one byte of its framing damaged
                let set = encode(&[b"SET".to_vec(), evil.clone(), b"1".to_vec()]);
                let k = evil.len();
                let text = String::from_utf8(set).unwrap();
                let damaged = match r.below(7) {
                    0 => text.replacen("*3\r\n", "*3 \r\n", 1),
                    1 => text.replacen("$3\r\nSET", "$3\r\nSETT", 1),
                    2 => text.replacen(&format!("${k}\r\n"), &format!("${k}a\r\n"), 1),
                    3 => text.replacen(&format!("${k}\r\n"), &format!("${}\r\n", k - 1), 1),
                    4 => text.replacen("$1\r\n1\r\n", "$1\r\n1\n\r", 1),
                    5 => text.replacen("$1\r\n1\r\n", "?1\r\n1\r\n", 1),
                    _ => text.replacen("$1\r\n1\r\n", "$1\r\n12\r\n", 1),
                };
                bytes.extend(damaged.bytes());
            }
            _ => {
                if r.chance(10) {
                    let d = *r.pick(&[1000usize, 100_000, 400_000]);
                    bytes.extend(deep(d));
                } else {
                    bytes.extend(*r.pick(MALFORMED));
                }
            }
        }
        w_note(&mut w, &bytes);
        let mut c = Client::connect(w.addr);
        // A server that closes while bytes of ours are under way resets the connection, and replies still in flight
        // are lost: the malformed tail comes either in one small piece with everything else, or after the replies.
        let late = closes && (bytes.len() > 1000 || r.chance(50));
        if late {
            send_chunked(&mut c, &bytes[..good], &mut r);
        } else if closes {
            c.send(&bytes);
        } else {
            send_chunked(&mut c, &bytes, &mut r);
        }
        for (cmd, e) in &b {
            let got = c.recv();
            if !e.matches(&got) {
                rep.violation = fail(
                    format!("request {}\nsent among {} pipelined requests in chunks, is answered {}\nthe property requires {}", show_cmd(cmd), b.len(), got.show(), e.show()),
                    &bytes,
                );
                return rep;
            }
        }
        if late {
            c.send(&bytes[good..]);
        }
        if closes {
            // an error reply may come first
            let mut got = c.recv();
            if let Reply::Error(_) = got {
                got = c.recv();
            }
            if got != Reply::Closed {
                rep.violation = fail(format!("bytes that are not a request do not end the connection, it answers {}", got.show()), &bytes);
                return rep;
            }
        } else {
            let got = c.call(&[b"PING".to_vec()]);
            if !Exp::Pong.matches(&got) {
                rep.violation = fail(format!("PING after pipelined requests is answered {}", got.show()), &bytes);
                return rep;
            }
        }
        if kind == 4 {
            let got = other.call(&[b"GET".to_vec(), evil]);
            if got != Reply::Null {
                rep.violation = fail(format!("a malformed request was executed: GET on another connection answers {}", got.show()), &bytes);
                return rep;
            }
        }
        let got = other.call(&[b"PING".to_vec()]);
        if !Exp::Pong.matches(&got) {
            rep.violation = fail(format!("after these bytes, PING on another connection is answered {}", got.show()), &bytes);
            return rep;
        }
        if rep.samples.len() < 3 {
            rep.samples.push(esc(&bytes));
        }
    }
    rep.distinct = seen.len() as u64;
    rep.note = "pipelined batches of 1 to 12 requests in random chunks, with and without a malformed tail".into();
    rep
}

fn r_chance(r: &mut Rng) -> bool {
    r.chance(50)
}

fn w_note(w: &mut World, b: &[u8]) {
    if let Some(f) = &w.journal {
        use std::os::unix::fs::FileExt;
        let _ = f.set_len(0);
        let l: String = b.iter().take(20_000).map(|c| format!("{c:02x}")).collect();
        let _ = f.write_at(format!("bytes sent on a connection (hex, {} bytes): {l}\n", b.len()).as_bytes(), 0);
    }
}

/// C03
pub fn replies(seed: u64, secs: f64, journal: &str) -> Report {
    let rt = crate::runtime();
    clock::set(1_700_000_000_000);
    let mut w = world(rt, 600_000, Some(journal));
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: String::new(), violation: None };
    let mut other = Client::connect(w.addr);
    let mut seen = std::collections::HashSet::new();
    while t0.elapsed().as_secs_f64() < secs {
        w.salt += 1;
        let mut m = Model { now: clock::get(), ..Default::default() };
        let n = 1 + r.below(25) as usize;
        let b = batch(&w, &mut m, &mut r, n, true);
        let mut bytes: B = b.iter().flat_map(|(c, _)| encode(c)).collect();
        let show = |b: &[(Vec<B>, Exp)]| b.iter().map(|(c, _)| format!("  {}\n", show_cmd(c))).collect::<String>();
        if seen.len() < 300_000 {
            seen.insert(bytes.clone());
        }
        rep.evaluations += b.len() as u64;
        // a refused one at the end
        let mut refused = None;
        if r.chance(40) {
            let keys: Vec<B> = (0..NKEYS).map(|i| w.key("C03", i)).collect();
            for _ in 0..30 {
                let st = G { r: &mut r, m: &m, keys: &keys, start: m.now, prop: "C25", nk: 2 }.step();
                let Step::Cmd(c) = st else { continue };
                let cmd = rendered(&w, "C03", &c);
                if let Exp::Refused = m.clone().apply(&cmd) {
                    bytes.extend(encode(&cmd));
                    refused = Some(cmd);
                    break;
                }
            }
        }
        w_note(&mut w, &bytes);
        let mut c = Client::connect(w.addr);
        c.send(&bytes);
        for (i, (cmd, e)) in b.iter().enumerate() {
            let got = c.recv();
            if !e.matches(&got) {
                rep.violation = Some(format!(
                    "request {} (number {} of the connection) is answered {}\nthe property requires exactly one reply per request, in order: {}\n\nrequests of the connection:\n{}",
                    show_cmd(cmd),
                    i + 1,
                    got.show(),
                    e.show(),
                    show(&b)
                ));
                return rep;
            }
        }
        if refused.is_none() {
            let got = c.call(&[b"PING".to_vec()]);
            if !Exp::Pong.matches(&got) {
                rep.violation = Some(format!("after these requests and all their replies, PING is answered {}\n{}", got.show(), show(&b)));
                return rep;
            }
        } else {
            let got = c.recv();
            if !Exp::Refused.matches(&got) {
                rep.violation = Some(format!("refused request {} is answered {}", show_cmd(&refused.unwrap()), got.show()));
                return rep;
            }
        }
        let got = other.call(&[b"PING".to_vec()]);
        if !Exp::Pong.matches(&got) {
            rep.violation = Some(format!(
                "PING on another connection is answered {} after these requests:\n{}{}",
                got.show(),
                show(&b),
                refused.map_or(String::new(), |c| show_cmd(&c))
            ));
            return rep;
        }
        if rep.samples.len() < 3 {
            rep.samples.push(b.iter().map(|(c, _)| show_cmd(c)).collect::<Vec<_>>().join(" ; "));
        }
    }
    rep.distinct = seen.len() as u64;
    rep.note = "pipelined batches of 1 to 25 requests, any bytes in names, keys and values".into();
    rep
}
