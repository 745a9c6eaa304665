//! C22 and C26 on a real replica: a second process of this program is a server that a (stand-in) placement driver has
//! made a follower of the server in this process. It loads snapshots, takes the published writes, notices gaps.
use std::{
    io::{BufRead, BufReader, Read, Write},
    net::{SocketAddr, TcpListener, TcpStream},
    os::unix::process::CommandExt,
    process::{Child, Command, Stdio},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use common::pd_message::{cmd, LeaderInfo, ServerRole, ServerStatus};
use db::Db;

use crate::{
    clock,
    drive::{Step, A},
    fwd, gen::G,
    model::{Exp, Model},
    phys,
    resp::{decode, encode, esc, show_cmd, Client, Dec, Reply, B},
    rng::Rng,
    Report,
};

/// the follower's process
pub fn serve() -> i32 {
    let rt = crate::runtime();
    let (_db, addr) = crate::serve(rt, 1000);
    println!("{addr}");
    // until the other side goes away
    let _ = std::io::stdin().read_to_end(&mut vec![]);
    0
}

/// answers like a placement driver that has decided on a leader
fn driver(status: Arc<Mutex<LeaderInfo>>) -> SocketAddr {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let status = status.clone();
            std::thread::spawn(move || {
                let mut s: TcpStream = s;
                let mut buf = vec![];
                let mut tmp = [0; 4096];
                loop {
                    let n = match s.read(&mut tmp) {
                        Ok(n) if n > 0 => n,
                        _ => return,
                    };
                    buf.extend(&tmp[..n]);
                    while let Dec::Done(r, n) = decode(&buf) {
                        buf.drain(..n);
                        let Reply::Array(a) = r else { return };
                        let name = a.first().and_then(Reply::text).unwrap_or_default();
                        let told = || ServerStatus {
                            server_id: 2,
                            group_id: 1,
                            role: ServerRole::Follower,
                            current_leader: Some(*status.lock().unwrap()),
                        };
                        let payload = if name == cmd::SEVER_INIT.as_bytes() {
                            bincode::serialize(&told()).unwrap()
                        } else {
                            let has = a
                                .get(1)
                                .and_then(Reply::text)
                                .and_then(|b| bincode::deserialize::<ServerStatus>(&b).ok());
                            bincode::serialize(&(has != Some(told())).then(told)).unwrap()
                        };
                        let mut out = format!("${}\r\n", payload.len()).into_bytes();
                        out.extend(payload);
                        out.extend(b"\r\n");
                        if s.write_all(&out).is_err() {
                            return;
                        }
                    }
                }
            });
        }
    });
    addr
}

struct Follower {
    child: Child,
    addr: SocketAddr,
    c: Client,
}
impl Drop for Follower {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn start(pd: SocketAddr, seed: u64) -> Option<Follower> {
    let file = std::env::temp_dir().join(format!("rudis-follower-{}-{seed}.json", std::process::id()));
    let text = format!(
        "{{\"server_addr\":\"127.0.0.1:0\",\"forward_addr\":\"127.0.0.1:0\",\"max_connections\":1000,\"from_pd\":{{\"addr\":\"{pd}\",\"group_id\":1}}}}"
    );
    std::fs::write(&file, text).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("follower").arg(&file).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = c.spawn().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut l = String::new();
        let _ = BufReader::new(out).read_line(&mut l);
        let _ = tx.send(l);
    });
    let line = rx.recv_timeout(Duration::from_secs(20)).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    match line.trim().parse() {
        Ok(addr) => Some(Follower { c: Client::connect(addr), child, addr }),
        Err(_) => {
            let _ = child.kill();
            let _ = child.wait();
            None
        }
    }
}

type Content = (Option<u64>, Vec<(B, Result<crate::model::Data, String>, u64)>);

fn content(db: &Db, slot: usize) -> Content {
    (phys::write_id(db, slot), phys::slot_content(db, slot).into_iter().map(|(k, r)| (k, r.data, r.expires_at)).collect())
}

/// what the follower says it has in a slot
fn theirs(f: &Follower, copy: &Db, slot: usize) -> Option<()> {
    let mut c = Client::connect(f.addr);
    c.send(&encode(&[b"syncsnapshot".to_vec(), slot.to_string().into_bytes()]));
    let bytes = c.read_raw_to_end();
    let mut cur = std::io::Cursor::new(&bytes[..]);
    while let Some(id) = bincode::deserialize_from::<_, Option<u16>>(&mut cur).ok()? {
        let dict: dict::MemDict = bincode::deserialize_from(&mut cur).ok()?;
        copy.replace_dict(id as usize, dict);
    }
    Some(())
}

pub fn run(prop: &str, seed: u64, secs: f64) -> Report {
    let rt = crate::runtime();
    clock::set(0);
    let (db, addr) = crate::serve(rt, 1000);
    std::thread::sleep(Duration::from_millis(300));
    let ports: Vec<u16> = fwd::listening().into_iter().filter(|p| *p != addr.port()).collect();
    assert_eq!(ports.len(), 1, "forward port not found: {ports:?}");
    let forward_addr: SocketAddr = ([127, 0, 0, 1], ports[0]).into();
    let copy = rt.block_on(Db::new());
    let mut c = Client::connect(addr);
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: "a real follower process: snapshots, published writes, gaps".into(), violation: None };
    let mut log: Vec<String> = vec![];
    let keys: Vec<B> = (0..5u64)
        .map(|i| if i % 2 == 0 { format!("k{i}").into_bytes() } else { format!("k{i}{{f}}").into_bytes() })
        .collect();
    let other = b"other{f}".to_vec();
    let mut m = Model::default();
    let slots: Vec<usize> = {
        let mut v: Vec<usize> = keys.iter().map(|k| phys::slot_of(k)).collect();
        v.sort();
        v.dedup();
        v
    };
    macro_rules! bad {
        ($($t:tt)*) => {{
            let from = log.len().saturating_sub(200);
            rep.violation = Some(format!("{}\n\nrequests to the leader (and [to the follower]), with the real clock:\n{}", format!($($t)*), log[from..].join("\n")));
            return rep;
        }};
    }
    // a random request that leaves no deadline in the near future
    let mut write = |c: &mut Client, m: &mut Model, r: &mut Rng, log: &mut Vec<String>| {
        for _ in 0..20 {
            m.now = common::now_timestamp_ms();
            let Step::Cmd(st) = (G { r, m, keys: &keys, start: m.now, prop: "C22", nk: 5 }.step()) else { continue };
            let cmd: Vec<B> = st
                .iter()
                .map(|a| match a {
                    A::K(i) => keys[*i].clone(),
                    A::V(b) => b.clone(),
                    A::T(o, u) => ((m.now as i64 + o) / u).to_string().into_bytes(),
                })
                .collect();
            let mut t = m.clone();
            if matches!(t.apply(&cmd), Exp::Skip | Exp::Refused) {
                continue;
            }
            // requests that look at the clock must look the same for a while
            let soon = |m: &Model| m.keys.values().any(|v| v.deadline > m.now - 20_000 && v.deadline < m.now + 120_000 && v.deadline != 0);
            if soon(&t) {
                continue;
            }
            *m = t;
            log.push(show_cmd(&cmd));
            c.call(&cmd);
            return;
        }
    };
    let live = |v: &Content| -> Content {
        let now = common::now_timestamp_ms();
        (v.0, v.1.iter().filter(|x| x.2 == 0 || x.2 > now).cloned().collect())
    };

    for _ in 0..30 {
        write(&mut c, &mut m, &mut r, &mut log);
    }
    let pd = driver(Arc::new(Mutex::new(LeaderInfo { server_id: 1, server_addr: addr, forward_addr })));
    let Some(mut f) = start(pd, seed) else {
        rep.note = "the follower process did not start".into();
        return rep;
    };
    log.push("-- a follower joins".into());
    // the snapshot of all slots
    let until = |log: &Vec<String>, f: &Follower, what: &[usize], secs: u64| -> Result<(), String> {
        let t = Instant::now();
        loop {
            let mut diff = None;
            for s in what {
                if theirs(f, &copy, *s).is_none() {
                    diff = Some(format!("the follower does not answer with the content of slot {s}"));
                    break;
                }
                let (a, b) = (live(&content(&db, *s)), live(&content(&copy, *s)));
                if a != b {
                    diff = Some(format!("slot {s}\n  leader   {a:?}\n  follower {b:?}"));
                    break;
                }
            }
            match diff {
                None => return Ok(()),
                Some(d) if t.elapsed() > Duration::from_secs(secs) => {
                    let _ = log;
                    return Err(format!("{secs} seconds later the follower still differs: {d}"));
                }
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        }
    };
    if let Err(e) = until(&log, &f, &slots, 30) {
        bad!("after the snapshot of all slots, {e}");
    }
    // until the follower hears of writes
    let t = Instant::now();
    let mut i = 0;
    loop {
        i += 1;
        let v = format!("{i}").into_bytes();
        c.call(&[b"SET".to_vec(), b"probe".to_vec(), v.clone()]);
        std::thread::sleep(Duration::from_millis(50));
        if f.c.call(&[b"GET".to_vec(), b"probe".to_vec()]).text() == Some(v) {
            break;
        }
        if t.elapsed() > Duration::from_secs(30) {
            bad!("30 seconds after it joined, writes of the leader do not arrive at the follower (SET probe, GET probe there)");
        }
    }
    let mut round = 0u64;
    while round < 2 || t0.elapsed().as_secs_f64() < secs {
        round += 1;
        rep.evaluations += 1;
        let n = 1 + r.below(20);
        for _ in 0..n {
            write(&mut c, &mut m, &mut r, &mut log);
            rep.evaluations += 1;
        }
        let slot = phys::slot_of(&other);
        let gap = (prop == "C26" && round % 3 == 1) || r.chance(10);
        let mut brief = false;
        if gap {
            // the follower gets content of its own, the leader uses up numbers the follower does not hear of
            let extra = r.below(4);
            for j in 0..extra {
                let k = format!("extra{j}{{f}}").into_bytes();
                log.push(format!("[SET {} x]", esc(&k)));
                f.c.call(&[b"SET".to_vec(), k, b"x".to_vec()]);
            }
            let mut used = extra;
            if r.chance(50) {
                // a deadline that the leader does not have
                log.push(format!("[PSETEX {} 300 theirs]", esc(&other)));
                f.c.call(&[b"PSETEX".to_vec(), other.clone(), b"300".to_vec(), b"theirs".to_vec()]);
                used += 1;
                brief = true;
            }
            let dump = c.call(&[b"DUMP".to_vec(), b"probe".to_vec()]).text().unwrap_or_default();
            for _ in 0..used + 1 + r.below(3) {
                log.push(format!("RESTORE {} 0 ... REPLACE", esc(&other)));
                c.call(&[b"RESTORE".to_vec(), other.clone(), b"0".to_vec(), dump.clone(), b"REPLACE".to_vec()]);
            }
        }
        // published in every slot, so that the follower sees what it misses
        for k in keys.iter().chain([&other]) {
            let mut tag = b"settle".to_vec();
            tag.extend(b"{");
            let text = k.iter().position(|b| *b == b'{').map_or(&k[..], |p| &k[p + 1..k.len() - 1]);
            tag.extend(text);
            tag.extend(b"}");
            log.push(format!("SET {} {round}", esc(&tag)));
            c.call(&[b"SET".to_vec(), tag, round.to_string().into_bytes()]);
        }
        let mut all = slots.clone();
        all.push(slot);
        if let Err(e) = until(&log, &f, &all, 30) {
            bad!("{e}");
        }
        if brief {
            // what the follower had before is gone with its deadline
            std::thread::sleep(Duration::from_millis(400));
            if let Err(e) = until(&log, &f, &[slot], 0) {
                bad!("after a deadline only the follower's replaced content had, {e}");
            }
        }
    }
    if rep.samples.is_empty() {
        rep.samples = log.iter().take(12).cloned().collect();
    }
    rep.distinct = rep.evaluations;
    rep
}
