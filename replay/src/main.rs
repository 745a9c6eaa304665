//! replay run <property> --seed N --secs N --out DIR
//! replay script FILE
//!
//! Executable form of the contracts, run against the real code. Finds the input that shows a broken contract, and is
//! the bounded stand-in for what the verifier can't reach.
mod clock;
mod codec;
mod drive;
#[cfg(all(feature = "phys", rudis_verif))]
mod follow;
#[cfg(feature = "phys")]
mod fwd;
mod gen;
mod limits;
mod model;
mod pdtest;
mod phys;
mod resp;
mod rng;
mod snap;
mod stream;

use std::{collections::HashSet, net::SocketAddr, sync::Arc, time::Instant};

use db::Db;
use drive::World;
use rng::Rng;

pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub note: String,
    pub violation: Option<String>,
}

/// never dropped: it has blocking tasks that don't end
pub fn runtime() -> &'static tokio::runtime::Runtime {
    Box::leak(Box::new(tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()))
}

#[cfg(rudis_verif)]
pub fn serve(rt: &tokio::runtime::Runtime, max: usize) -> (Arc<Db>, SocketAddr) {
    rt.block_on(async {
        let db = Db::new().await;
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = l.local_addr().unwrap();
        let d = db.clone();
        tokio::spawn(async move {
            let _ = server::run_with_db(l, d, max).await;
        });
        (db, addr)
    })
}

pub fn world(rt: &tokio::runtime::Runtime, align: u64, journal: Option<&str>) -> World {
    let (db, addr) = serve(rt, 1000);
    World {
        c: resp::Client::connect(addr),
        db,
        addr,
        salt: 0,
        run_id: std::process::id() as u64,
        journal: journal.map(|j| std::fs::File::create(j).unwrap()),
        joff: 0,
        steps: 0,
        cmds: 0,
        align,
        after: None,
        distinct: HashSet::new(),
        last_cmd: vec![],
    }
}

fn align_of(prop: &str) -> u64 {
    if prop == "C20" {
        65_536 * 60_000
    } else {
        600_000
    }
}

fn scenarios(prop: &str, seed: u64, secs: f64, journal: &str) -> Report {
    let rt = runtime();
    clock::set(1_700_000_000_000);
    assert!(clock::works(), "virtual clock does not reach the code under test");
    let mut w = world(rt, align_of(prop), Some(journal));
    #[cfg(feature = "phys")]
    if prop == "C22" {
        fwd::attach(&mut w, rt);
    }
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut rep = Report { evaluations: 0, distinct: 0, samples: vec![], note: String::new(), violation: None };
    if prop == "C10" {
        if let Some(v) = snap::real_time_purge(&mut w) {
            rep.violation = Some(v);
            return rep;
        }
    }
    let mut count = 0u64;
    while t0.elapsed().as_secs_f64() < secs {
        if prop == "C20" && count > 8000 {
            break;
        }
        count += 1;
        let len = 3 + r.below(40) as usize;
        if let Some(f) = w.scenario(prop, &mut r, len) {
            let f = w.shrink(prop, f);
            rep.violation = Some(drive::show_fail(prop, &f));
            break;
        }
        if count % 1500 == 0 && prop != "C22" {
            w.c.call(&[b"FLUSHALL".to_vec()]);
        }
        if rep.samples.len() < 3 && count % 7 == 1 {
            rep.samples.push(format!("scenario {count} of {len} steps"));
        }
    }
    rep.evaluations = w.cmds;
    rep.distinct = w.distinct.len() as u64;
    rep.note = format!("{count} scenarios, {} steps, {} requests", w.steps, w.cmds);
    rep
}

fn script(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap();
    let mut prop = String::from("C05");
    let mut phase = 0;
    let mut steps = vec![];
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("prop ") {
            prop = p.trim().into();
        } else if let Some(p) = l.strip_prefix("phase ") {
            phase = p.trim().parse().unwrap();
        } else if let Some(s) = drive::read_step(l) {
            steps.push(s);
        }
    }
    let rt = runtime();
    clock::set(1_700_000_000_000);
    let mut w = world(rt, align_of(&prop), None);
    #[cfg(feature = "phys")]
    if prop == "C22" {
        fwd::attach(&mut w, rt);
    }
    match w.attempt(&prop, phase, &steps) {
        Some((what, trace, _)) => {
            for t in trace {
                println!("{t}");
            }
            println!("FAILS: {what}");
            1
        }
        None => {
            println!("holds on this history");
            0
        }
    }
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| -> String {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.into())
    };
    std::env::set_var("RUDIS_forward_addr", "127.0.0.1:0");
    std::env::set_var("RUDIS_CONFIG", "/nonexistent/rudis-config");
    match args.get(1).map(String::as_str) {
        Some("script") => std::process::exit(script(&args[2])),
        #[cfg(all(feature = "phys", rudis_verif))]
        Some("follower") => {
            std::env::remove_var("RUDIS_forward_addr");
            std::env::set_var("RUDIS_CONFIG", &args[2]);
            std::process::exit(follow::serve())
        }
        Some("run") => {}
        _ => {
            eprintln!("usage: replay run <property> --seed N --secs N --out FILE --journal FILE | replay script FILE");
            std::process::exit(2);
        }
    }
    let prop = args[2].clone();
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let secs: f64 = opt("--secs", "10").parse().unwrap();
    let journal = opt("--journal", "/dev/null");
    let out = opt("--out", "/dev/stdout");
    let rep = match prop.as_str() {
        // one of the processes has a real follower
        #[cfg(all(feature = "phys", rudis_verif))]
        "C22" | "C26" if seed % 1000 < 2 => follow::run(&prop, seed, secs),
        "C01" => codec::roundtrip(seed, secs),
        "C02" => stream::framing(seed, secs, &journal),
        "C03" => stream::replies(seed, secs, &journal),
        "C23" => pdtest::run(seed, secs),
        "C24" => limits::run(seed, secs),
        "C26" => snap::run(seed, secs),
        _ => scenarios(&prop, seed, secs, &journal),
    };
    let j = format!(
        "{{\"property\":{},\"seed\":{seed},\"evaluations\":{},\"distinct\":{},\"note\":{},\"samples\":[{}],\"violation\":{}}}\n",
        js(&prop),
        rep.evaluations,
        rep.distinct,
        js(&rep.note),
        rep.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        rep.violation.as_ref().map_or("null".into(), |v| js(v)),
    );
    std::fs::write(out, j).unwrap();
    std::process::exit(if rep.violation.is_some() { 1 } else { 0 });
}
