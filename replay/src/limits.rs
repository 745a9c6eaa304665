//! C24: the number of connections being served.
use std::time::{Duration, Instant};

use crate::{
    resp::{encode, Client, Exp3, Reply},
    rng::Rng,
    Report,
};

struct Conn {
    c: Client,
    pinged: bool,
}

pub fn run(seed: u64, secs: f64) -> Report {
    const LIMIT: usize = 3;
    std::env::set_var("RUDIS_max_connections", LIMIT.to_string());
    let rt = crate::runtime();
    let addr = rt.block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = l.local_addr().unwrap();
        tokio::spawn(server::run(l, std::future::pending::<()>()));
        a
    });
    std::thread::sleep(Duration::from_millis(200));
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: String::new(), violation: None };
    // in the order they connected
    let mut conns: Vec<Conn> = vec![];
    let mut log: Vec<String> = vec![];
    let mut ids = 0;
    let mut names: Vec<usize> = vec![];
    while t0.elapsed().as_secs_f64() < secs {
        rep.evaluations += 1;
        let open = conns.is_empty() || (conns.len() < 7 && r.chance(if conns.len() <= LIMIT { 65 } else { 35 }));
        if open {
            ids += 1;
            log.push(format!("connection {ids} opens and sends PING"));
            let mut c = Client::connect(addr);
            c.send(&encode(&[b"PING".to_vec()]));
            conns.push(Conn { c, pinged: false });
            names.push(ids);
            std::thread::sleep(Duration::from_millis(3));
        } else {
            let i = r.below(conns.len() as u64) as usize;
            let mut c = conns.remove(i);
            let id = names.remove(i);
            let how = r.below(7);
            let what: &[u8] = match how {
                0 => b"",
                1 => b"*1\r\n$3x\r\nGET\r\n",
                2 => b"*2\r\n$3\r\nSET\r\n$1\r\na\r\n",
                3 => b"*2\r\n$3\r\nGE",
                4 => b"*1\r\n$12\r\nsyncsnapshot\r\n",
                5 => b"*2\r\n$12\r\nsyncsnapshot\r\n$1\r\n7\r\n",
                _ => b"*2\r\n$12\r\nsyncsnapshot\r\n$5\r\n99999\r\n",
            };
            log.push(format!("connection {id} ends: sends {} and closes", crate::resp::esc(what)));
            c.c.send(what);
            if how != 0 && r.chance(50) {
                // let the server end it
                c.c.shutdown_write();
                if c.pinged {
                    c.c.timeout(5000);
                    c.c.read_raw_to_end();
                }
            }
            drop(c);
        }
        // the first LIMIT are served, the others are not
        for (i, c) in conns.iter_mut().enumerate() {
            if i < LIMIT && !c.pinged {
                c.c.timeout(8000);
                let got = c.c.recv();
                if !Exp3::pong(&got) {
                    rep.violation = Some(format!(
                        "{} connections are open and the limit is {LIMIT}, but connection {} is not served: {}\n\nhistory:\n{}",
                        names.len(),
                        names[i],
                        got.show(),
                        log.join("\n")
                    ));
                    return rep;
                }
                c.pinged = true;
            }
        }
        if conns.len() > LIMIT {
            std::thread::sleep(Duration::from_millis(25));
            for (i, c) in conns.iter_mut().enumerate().skip(LIMIT) {
                c.c.timeout(1);
                let got = c.c.recv();
                if got != Reply::Timeout {
                    rep.violation = Some(format!(
                        "the limit is {LIMIT} and {} connections are open before it, but connection {} is served: {}\n\nhistory:\n{}",
                        i,
                        names[i],
                        got.show(),
                        log.join("\n")
                    ));
                    return rep;
                }
            }
        }
        // those served still answer
        for (i, c) in conns.iter_mut().enumerate().take(LIMIT) {
            c.c.timeout(8000);
            let got = c.c.call(&[b"PING".to_vec()]);
            if !Exp3::pong(&got) {
                rep.violation = Some(format!("connection {} is not served any more: {}\n\nhistory:\n{}", names[i], got.show(), log.join("\n")));
                return rep;
            }
        }
    }
    rep.distinct = rep.evaluations;
    rep.samples = log.iter().take(3).cloned().collect();
    rep.note = format!("limit {LIMIT}, up to 7 connections, 7 ways to end one");
    rep
}
