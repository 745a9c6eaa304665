//! C23: the placement driver, through its socket.
use std::{
    net::SocketAddr,
    time::{Duration, Instant},
};

use common::pd_message::{LeaderInfo, ServerInit, ServerRole, ServerStatus};

use crate::{
    clock,
    resp::{Client, Reply, B},
    rng::Rng,
    Report,
};

struct Srv {
    id: usize,
    addr: SocketAddr,
    fwd: SocketAddr,
    hb: u64,
    leader: bool,
}

#[derive(Default)]
struct Group {
    id: usize,
    servers: Vec<Srv>,
    announced: Option<LeaderInfo>,
    log: Vec<String>,
}

impl Group {
    fn check(&mut self, now: u64) {
        if let Some(l) = self.servers.iter_mut().find(|s| s.leader) {
            if now <= l.hb + 3000 {
                return;
            }
            l.leader = false;
        }
        if let Some(l) = self.servers.iter_mut().find(|s| now <= s.hb + 3000) {
            // in the order they joined
            l.leader = true;
            self.announced = Some(LeaderInfo { server_id: l.id, server_addr: l.addr, forward_addr: l.fwd });
        }
    }
    fn require(&self, i: usize, got: &ServerStatus) -> Option<String> {
        let s = &self.servers[i];
        let role = if s.leader { ServerRole::Leader } else { ServerRole::Follower };
        let lead = self.servers.iter().any(|s| s.leader);
        let bad = got.server_id != s.id
            || got.group_id != self.id
            || got.role != role
            || (lead && got.current_leader != self.announced);
        bad.then(|| {
            format!(
                "server {} of group {} is told {got:?}\nthe property requires role {role:?}{}\n\nhistory of the group:\n{}",
                s.id,
                self.id,
                if lead { format!(" and the announced leader {:?}", self.announced) } else { String::new() },
                self.log.join("\n")
            )
        })
    }
}

fn call(c: &mut Client, name: &str, payload: Option<B>) -> Reply {
    let mut cmd = vec![name.as_bytes().to_vec()];
    cmd.extend(payload);
    c.call(&cmd)
}

fn init(c: &mut Client, g: usize, n: usize) -> Result<ServerStatus, String> {
    let p = ServerInit { group_id: g, server_addr: ([10, 0, 0, 1], n as u16).into(), forward_addr: ([10, 0, 0, 2], n as u16).into() };
    let r = call(c, "pd_sever_init", Some(bincode::serialize(&p).unwrap()));
    match &r {
        Reply::Bulk(b) => bincode::deserialize(b).map_err(|e| e.to_string()),
        r => Err(r.show()),
    }
}

fn beat(c: &mut Client, g: usize, s: usize) -> Result<Option<ServerStatus>, String> {
    // a status the driver never gives, so that it always answers with the actual one
    let p = ServerStatus {
        server_id: s,
        group_id: g,
        role: ServerRole::Leader,
        current_leader: Some(LeaderInfo { server_id: 77_777, server_addr: ([1, 1, 1, 1], 1).into(), forward_addr: ([1, 1, 1, 1], 1).into() }),
    };
    let r = call(c, "pd_sever_heartbeat", Some(bincode::serialize(&p).unwrap()));
    match &r {
        Reply::Bulk(b) => bincode::deserialize(b).map_err(|e| e.to_string()),
        r => Err(r.show()),
    }
}

pub fn run(seed: u64, secs: f64) -> Report {
    clock::set(1_700_000_000_000);
    let rt = crate::runtime();
    let addr = rt.block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = l.local_addr().unwrap();
        tokio::spawn(pd::run(l));
        a
    });
    let mut c = Client::connect(addr);
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: String::new(), violation: None };
    macro_rules! bad {
        ($e:expr) => {{
            rep.violation = Some($e);
            return rep;
        }};
    }
    let tick = || std::thread::sleep(Duration::from_millis(1150));
    let mut groups: Vec<Group> = vec![];
    for i in 0..250 {
        let got = call(&mut c, "pd_crate_group", None);
        if !matches!(got, Reply::Simple(_)) {
            bad!(format!("creating a group is answered {}", got.show()));
        }
        groups.push(Group { id: i + 1, ..Default::default() });
    }
    if let Ok(s) = init(&mut c, 100_000, 1) {
        bad!(format!("a server joined a group that does not exist: {s:?}"));
    }
    let mut rounds = 0;
    while t0.elapsed().as_secs_f64() < secs {
        rounds += 1;
        // time passes, then a survival check with the old heartbeats
        let d = *r.pick(&[0u64, 1, 500, 1000, 1500, 2000, 2999, 3000, 3001, 3002, 4000, 100_000]);
        clock::set(clock::get() + d);
        let now = clock::get();
        tick();
        for g in &mut groups {
            g.log.push(format!("+{d} ms, survival check"));
            g.check(now);
        }
        for g in &mut groups {
            let kind = r.below(10);
            if g.servers.is_empty() || (kind < 2 && g.servers.len() < 6) {
                // several servers join one after another
                for _ in 0..1 + r.below(2) {
                    let n = g.servers.len() + 1;
                    rep.evaluations += 1;
                    let got = match init(&mut c, g.id, n) {
                        Ok(s) => s,
                        Err(e) => bad!(format!("joining group {} is answered {e}", g.id)),
                    };
                    if g.servers.iter().any(|s| s.id == got.server_id) {
                        bad!(format!("server id {} was given twice in group {}\n{}", got.server_id, g.id, g.log.join("\n")));
                    }
                    let leader = !g.servers.iter().any(|s| s.leader);
                    let (addr, fwd) = ((([10, 0, 0, 1], n as u16)).into(), (([10, 0, 0, 2], n as u16)).into());
                    g.servers.push(Srv { id: got.server_id, addr, fwd, hb: now, leader });
                    if leader {
                        g.announced = Some(LeaderInfo { server_id: got.server_id, server_addr: addr, forward_addr: fwd });
                    }
                    g.log.push(format!("server {} joins, is told {:?}", got.server_id, got.role));
                    if let Some(e) = g.require(g.servers.len() - 1, &got) {
                        bad!(e);
                    }
                }
            } else {
                // some servers beat, in the order they joined
                let p = *r.pick(&[20u64, 50, 80, 100]);
                let unled = !g.servers.iter().any(|s| s.leader);
                let mut revived = false;
                for i in 0..g.servers.len() {
                    if !r.chance(p) {
                        continue;
                    }
                    rep.evaluations += 1;
                    let id = g.servers[i].id;
                    let got = match beat(&mut c, g.id, id) {
                        Ok(Some(s)) => s,
                        e => bad!(format!("heartbeat of server {id} of group {} is answered {e:?}", g.id)),
                    };
                    g.log.push(format!("server {id} sends a heartbeat, is told {:?}", got.role));
                    // a survival check may have made the first one leader already
                    if !unled {
                        if let Some(e) = g.require(i, &got) {
                            bad!(e);
                        }
                    } else if got.role == ServerRole::Leader && revived {
                        bad!(format!("two leaders in group {}\n{}", g.id, g.log.join("\n")));
                    }
                    g.servers[i].hb = now;
                    revived |= unled;
                }
            }
        }
        tick();
        for g in &mut groups {
            g.log.push("survival check".into());
            g.check(now);
            // observe through those that are alive by a heartbeat of this instant
            for i in 0..g.servers.len() {
                if g.servers[i].hb != now {
                    continue;
                }
                rep.evaluations += 1;
                let id = g.servers[i].id;
                let got = match beat(&mut c, g.id, id) {
                    Ok(Some(s)) => s,
                    e => bad!(format!("heartbeat of server {id} of group {} is answered {e:?}", g.id)),
                };
                g.log.push(format!("server {id} sends a heartbeat, is told {:?}", got.role));
                if let Some(e) = g.require(i, &got) {
                    bad!(e);
                }
            }
        }
    }
    // unknown servers
    if !matches!(beat(&mut c, groups[0].id, 99_999), Ok(None)) {
        bad!("a heartbeat of an unknown server gets a status".into());
    }
    rep.distinct = groups.iter().map(|g| g.log.join("\n")).collect::<std::collections::HashSet<_>>().len() as u64;
    rep.samples = groups.iter().take(2).map(|g| g.log.iter().take(12).cloned().collect::<Vec<_>>().join("; ")).collect();
    rep.note = format!("{} groups, {rounds} rounds of time passing, joins and heartbeats, survival checks", groups.len());
    rep
}
