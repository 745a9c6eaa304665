//! Independent RESP client side: request encoder and reply decoder.
use std::{
    io::{Read, Write},
    net::{SocketAddr, TcpStream},
    time::Duration,
};

pub type B = Vec<u8>;

#[derive(Debug, Clone, PartialEq)]
pub enum Reply {
    Simple(B),
    Bulk(B),
    Error(B),
    Int(i64),
    Null,
    Array(Vec<Reply>),
    Closed,
    Timeout,
    Garbage(B),
}

impl Reply {
    pub fn text(&self) -> Option<B> {
        match self {
            Reply::Simple(b) | Reply::Bulk(b) => Some(b.clone()),
            Reply::Int(i) => Some(i.to_string().into_bytes()),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Reply::Simple(b) => format!("+{}", esc(b)),
            Reply::Bulk(b) => format!("${}", esc(b)),
            Reply::Error(b) => format!("-{}", esc(b)),
            Reply::Int(i) => format!(":{i}"),
            Reply::Null => "(null)".into(),
            Reply::Array(v) => format!("[{}]", v.iter().map(Reply::show).collect::<Vec<_>>().join(", ")),
            Reply::Closed => "(connection closed)".into(),
            Reply::Timeout => "(no reply)".into(),
            Reply::Garbage(b) => format!("(not RESP: {})", esc(b)),
        }
    }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for c in b.iter().take(400) {
        s.extend(std::ascii::escape_default(*c).map(char::from));
    }
    s.push('"');
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn show_cmd(c: &[B]) -> String {
    c.iter().map(|a| esc(a)).collect::<Vec<_>>().join(" ")
}

pub fn encode(cmd: &[B]) -> B {
    let mut r = format!("*{}\r\n", cmd.len()).into_bytes();
    for a in cmd {
        r.extend(format!("${}\r\n", a.len()).as_bytes());
        r.extend(a);
        r.extend(b"\r\n");
    }
    r
}

pub enum Dec<T> {
    Done(T, usize),
    More,
    Bad,
}

/// strict reply decoder
pub fn decode(b: &[u8]) -> Dec<Reply> {
    let Some(&t) = b.first() else { return Dec::More };
    if !b"+-:$*".contains(&t) {
        return Dec::Bad;
    }
    let Some(nl) = b.iter().position(|c| *c == b'\r' || *c == b'\n') else {
        return if b.len() > 1 << 26 { Dec::Bad } else { Dec::More };
    };
    if nl + 1 >= b.len() {
        return if b[nl] == b'\n' { Dec::Bad } else { Dec::More };
    }
    if &b[nl..nl + 2] != b"\r\n" {
        return Dec::Bad;
    }
    let line = &b[1..nl];
    let pos = nl + 2;
    let int = || -> Option<i64> {
        let s = std::str::from_utf8(line).ok()?;
        let d = s.strip_prefix('-').unwrap_or(s);
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        s.parse().ok()
    };
    match t {
        b'+' => Dec::Done(Reply::Simple(line.to_vec()), pos),
        b'-' => Dec::Done(Reply::Error(line.to_vec()), pos),
        b':' => int().map_or(Dec::Bad, |i| Dec::Done(Reply::Int(i), pos)),
        b'$' => match int() {
            None => Dec::Bad,
            Some(i) if i < 0 => Dec::Done(Reply::Null, pos),
            Some(i) => {
                let n = i as usize;
                if b.len() < pos + n + 2 {
                    Dec::More
                } else if &b[pos + n..pos + n + 2] != b"\r\n" {
                    Dec::Bad
                } else {
                    Dec::Done(Reply::Bulk(b[pos..pos + n].to_vec()), pos + n + 2)
                }
            }
        },
        _ => match int() {
            None => Dec::Bad,
            Some(i) if i < 0 => Dec::Done(Reply::Null, pos),
            Some(i) => {
                let mut v = vec![];
                let mut p = pos;
                for _ in 0..i {
                    match decode(&b[p..]) {
                        Dec::Done(r, n) => {
                            v.push(r);
                            p += n;
                        }
                        Dec::More => return Dec::More,
                        Dec::Bad => return Dec::Bad,
                    }
                }
                Dec::Done(Reply::Array(v), p)
            }
        },
    }
}

pub struct Client {
    pub addr: SocketAddr,
    stream: TcpStream,
    buf: B,
}

impl Client {
    pub fn connect(addr: SocketAddr) -> Self {
        let stream = TcpStream::connect(addr).expect("connect");
        stream.set_nodelay(true).unwrap();
        stream.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
        stream.set_write_timeout(Some(Duration::from_secs(30))).unwrap();
        Self { addr, stream, buf: vec![] }
    }
    pub fn timeout(&self, ms: u64) {
        self.stream.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    }
    pub fn reconnect(&mut self) {
        *self = Self::connect(self.addr);
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.stream.write_all(b).is_ok()
    }
    pub fn shutdown_write(&self) {
        let _ = self.stream.shutdown(std::net::Shutdown::Write);
    }
    pub fn recv(&mut self) -> Reply {
        loop {
            match decode(&self.buf) {
                Dec::Done(r, n) => {
                    self.buf.drain(..n);
                    return r;
                }
                Dec::Bad => return Reply::Garbage(std::mem::take(&mut self.buf)),
                Dec::More => {}
            }
            let mut tmp = [0u8; 65536];
            match self.stream.read(&mut tmp) {
                Ok(0) => {
                    return if self.buf.is_empty() {
                        Reply::Closed
                    } else {
                        Reply::Garbage(std::mem::take(&mut self.buf))
                    }
                }
                Ok(n) => self.buf.extend(&tmp[..n]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    return Reply::Timeout
                }
                Err(_) => return Reply::Closed,
            }
        }
    }
    /// everything until the server closes
    pub fn read_raw_to_end(&mut self) -> B {
        let mut r = std::mem::take(&mut self.buf);
        let mut tmp = [0u8; 65536];
        loop {
            match self.stream.read(&mut tmp) {
                Ok(0) => break,
                Ok(n) => r.extend(&tmp[..n]),
                Err(e) => {
                    eprintln!("reading to the end: {e}");
                    break;
                }
            }
        }
        r
    }
    pub fn call(&mut self, cmd: &[B]) -> Reply {
        if !self.send(&encode(cmd)) {
            return Reply::Closed;
        }
        self.recv()
    }
}

pub struct Exp3;
impl Exp3 {
    pub fn pong(r: &Reply) -> bool {
        *r == Reply::Simple(b"PONG".to_vec())
    }
}
