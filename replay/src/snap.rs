//! C26: snapshots, and the real-time part of C10.
use std::time::{Duration, Instant};

use crate::{
    clock,
    drive::{World, A, NKEYS, Step},
    gen::G,
    model::Model,
    phys,
    resp::{esc, show_cmd, Client, B},
    rng::Rng,
    world, Report,
};

/// with the real clock and nothing else going on, keys disappear when their deadline passes
pub fn real_time_purge(w: &mut World) -> Option<String> {
    let old = clock::get();
    clock::set(0);
    let mut log = vec![];
    let mut gone = vec![];
    let mut keep = vec![];
    let mut call = |w: &mut World, c: &[&[u8]]| {
        let c: Vec<B> = c.iter().map(|x| x.to_vec()).collect();
        log.push(show_cmd(&c));
        w.c.call(&c);
    };
    for i in 0..12u32 {
        let k = format!("purge{i}").into_bytes();
        let t = format!("{}", 20 + (i * 7919) % 130);
        call(w, &[b"PSETEX", &k, t.as_bytes(), b"v"]);
        match i % 6 {
            0 | 1 => gone.push(k),
            2 => {
                call(w, &[b"SET", &k, b"again"]);
                keep.push(k);
            }
            3 => {
                call(w, &[b"PEXPIRE", &k, b"600000"]);
                keep.push(k);
            }
            4 => {
                call(w, &[b"DEL", &k]);
                call(w, &[b"RPUSH", &k, b"x"]);
                keep.push(k);
            }
            _ => {
                call(w, &[b"PEXPIRE", &k, b"30"]);
                gone.push(k);
            }
        }
    }
    let t0 = Instant::now();
    let mut err = None;
    std::thread::sleep(Duration::from_millis(160));
    loop {
        let left: Vec<_> = gone.iter().filter(|k| matches!(phys::lookup(&w.db, k), Some(Some(_)))).collect();
        if left.is_empty() {
            break;
        }
        if t0.elapsed() > Duration::from_secs(4) {
            err = Some(format!("{} seconds after the deadline, expired keys are still in memory: {}", 4, left.iter().map(|k| esc(k)).collect::<Vec<_>>().join(" ")));
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for k in &keep {
        if let Some(None) = phys::lookup(&w.db, k) {
            err = Some(format!("the background removal removed {}, whose deadline had been moved or cleared", esc(k)));
        }
    }
    clock::set(old);
    err.map(|e| format!("{e}\n\nrequests, with the real clock:\n{}", log.join("\n")))
}

#[cfg(not(feature = "phys"))]
pub fn run(_seed: u64, _secs: f64) -> Report {
    Report { evaluations: 0, distinct: 0, samples: vec![], note: "needs the physical key space".into(), violation: None }
}

#[cfg(feature = "phys")]
pub fn run(seed: u64, secs: f64) -> Report {
    let rt = crate::runtime();
    clock::set(1_700_000_000_000);
    let mut w = world(rt, 600_000, None);
    let db2 = rt.block_on(db::Db::new());
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: String::new(), violation: None };
    macro_rules! bad {
        ($($t:tt)*) => {{
            rep.violation = Some(format!($($t)*));
            return rep;
        }};
    }
    let nslots = common::SLOT_SIZE;
    while t0.elapsed().as_secs_f64() < secs {
        w.salt += 1;
        clock::set(clock::get() + 600_000);
        let mut m = Model { now: clock::get(), ..Default::default() };
        let keys: Vec<B> = (0..NKEYS).map(|i| w.key("C26", i)).collect();
        let mut log = vec![];
        for _ in 0..5 + r.below(25) {
            let st = G { r: &mut r, m: &m, keys: &keys, start: m.now, prop: "C22", nk: 5 }.step();
            let Step::Cmd(c) = st else { continue };
            let cmd: Vec<B> = c
                .iter()
                .map(|a| match a {
                    A::K(i) => keys[*i].clone(),
                    A::V(b) => b.clone(),
                    A::T(o, u) => ((m.now as i64 + o) / u).to_string().into_bytes(),
                })
                .collect();
            let mut t = m.clone();
            if matches!(t.apply(&cmd), crate::model::Exp::Skip | crate::model::Exp::Refused) {
                continue;
            }
            m = t;
            log.push(show_cmd(&cmd));
            w.c.call(&cmd);
        }
        // the copy has something else that must go
        let slot = phys::slot_of(r.pick(&keys));
        let all = r.chance(4) || rep.evaluations == 0;
        let ask = if all { nslots } else { slot };
        let show = |db: &db::Db, s: usize| -> (Option<u64>, Vec<(B, Result<crate::model::Data, String>, u64)>) {
            (phys::write_id(db, s), phys::slot_content(db, s).into_iter().map(|(k, r)| (k, r.data, r.expires_at)).collect())
        };
        let before: Vec<_> = if all { (0..nslots).map(|s| show(&w.db, s)).collect() } else { vec![show(&w.db, slot)] };
        let mut c = Client::connect(w.addr);
        c.send(&crate::resp::encode(&[b"syncsnapshot".to_vec(), ask.to_string().into_bytes()]));
        let bytes = c.read_raw_to_end();
        rep.evaluations += 1;
        let mut cur = std::io::Cursor::new(&bytes[..]);
        let mut seen = vec![];
        loop {
            let id: Option<u16> = match bincode::deserialize_from(&mut cur) {
                Ok(i) => i,
                Err(e) => bad!("snapshot of slot {ask}: after {} slots, at byte {} of {}, no slot number or end marker: {e}\n\nrequests before:\n{}", seen.len(), cur.position(), bytes.len(), log.join("\n")),
            };
            let Some(id) = id else { break };
            let dict: dict::MemDict = match bincode::deserialize_from(&mut cur) {
                Ok(d) => d,
                Err(e) => bad!("snapshot of slot {ask}: the content of slot {id} can't be read at byte {} of {}: {e}\n\nrequests before:\n{}", cur.position(), bytes.len(), log.join("\n")),
            };
            seen.push(id as usize);
            db2.replace_dict(id as usize, dict);
        }
        if cur.position() as usize != bytes.len() {
            bad!("snapshot of slot {ask}: bytes after the end marker");
        }
        let want: Vec<usize> = if all { (0..nslots).collect() } else { vec![slot] };
        if seen != want {
            bad!("snapshot of slot {ask} delivers the slots {:?}...", &seen[..seen.len().min(20)]);
        }
        for (i, s) in want.iter().enumerate() {
            // expired keys may be removed at any time
            let now = clock::get();
            let live = |mut v: (Option<u64>, Vec<(B, Result<crate::model::Data, String>, u64)>)| {
                v.1.retain(|x| x.2 == 0 || x.2 > now);
                v
            };
            let got = live(show(&db2, *s));
            let want = live(before[i].clone());
            if got != want {
                bad!("snapshot of slot {ask}, loaded on another Db: slot {s}\n  has      {got:?}\n  original {want:?}\n\nrequests before:\n{}", log.join("\n"));
            }
        }
        // deadlines that came with the snapshot, and only those, are known to the background removal
        if r.chance(50) && !all {
            clock::set(clock::get() + *r.pick(&[1u64, 1000, 5000, 30_000]));
            let now = clock::get();
            let z = format!("z{}", w.salt).into_bytes();
            let zs = phys::slot_of(&z);
            let mut d = dict::MemDict::default();
            d.inner.insert(z[..].into(), dict::Value { data: dict::data_type::DataType::Integer(1), expires_at: 1, visit_log: 0 });
            if zs != slot {
                db2.replace_dict(zs, d);
            }
            let t1 = Instant::now();
            loop {
                let left: Vec<B> = phys::slot_content(&db2, slot)
                    .into_iter()
                    .filter(|(_, r)| r.expires_at != 0 && r.expires_at <= now)
                    .map(|(k, _)| k)
                    .collect();
                if left.is_empty() {
                    break;
                }
                if zs == slot || t1.elapsed() > Duration::from_secs(4) {
                    if zs == slot {
                        break;
                    }
                    bad!(
                        "keys loaded from a snapshot stay in memory after their deadline: {}\n\nrequests before:\n{}",
                        left.iter().map(|k| esc(k)).collect::<Vec<_>>().join(" "),
                        log.join("\n")
                    );
                }
                std::thread::sleep(Duration::from_micros(200));
            }
            let live = |v: &(Option<u64>, Vec<(B, Result<crate::model::Data, String>, u64)>)| -> Vec<_> {
                v.1.iter().filter(|x| x.2 == 0 || x.2 > now).cloned().collect()
            };
            if live(&show(&db2, slot)) != live(&before[0]) {
                bad!("background removal on the replica removed a live key of slot {slot}\n\nrequests before:\n{}", log.join("\n"));
            }
        }
        if rep.samples.len() < 3 {
            rep.samples.push(log.join(" ; "));
        }
    }
    rep.distinct = rep.evaluations;
    rep.note = "one slot or all slots, after 5 to 30 random requests".into();
    rep
}
