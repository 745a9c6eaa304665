//! Profile-weighted generation of steps, guided by the model state.
use crate::{
    drive::{Step, A},
    model::{Data, Model},
    resp::B,
    rng::Rng,
};

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub m: &'a Model,
    /// rendered keys
    pub keys: &'a [B],
    pub start: u64,
    pub prop: &'a str,
    /// number of keys the profile uses
    pub nk: usize,
}

fn s(x: &str) -> A {
    A::V(x.as_bytes().to_vec())
}
fn n(x: i64) -> A {
    A::V(x.to_string().into_bytes())
}

const MAX: &str = "9223372036854775807";
const MIN: &str = "-9223372036854775808";

impl G<'_> {
    fn k(&mut self) -> A {
        A::K(self.r.below(self.nk as u64) as usize)
    }
    /// a key with a value of a type, if there is one
    fn k_where(&mut self, f: impl Fn(&Data) -> bool) -> A {
        if self.r.chance(75) {
            let c: Vec<usize> =
                (0..self.nk).filter(|i| self.m.alive(&self.keys[*i]).map_or(false, |v| f(&v.data))).collect();
            if !c.is_empty() {
                return A::K(*self.r.pick(&c));
            }
        }
        self.k()
    }
    fn val(&mut self) -> A {
        let v: B = match self.r.below(12) {
            0 => b"".to_vec(),
            1 => b"a".to_vec(),
            2 => b"10".to_vec(),
            3 => b"\r\n".to_vec(),
            4 => b"-1".to_vec(),
            5 => self.r.bytes(9),
            6 => vec![0xff, 0, b'\n'],
            7 => MAX.into(),
            _ => format!("v{}", self.r.below(20)).into_bytes(),
        };
        A::V(v)
    }
    fn member(&mut self) -> A {
        let pool: [&[u8]; 9] = [b"a", b"b", b"c", b"d", b"ab", b"", b"a\0", b"\xff", b"B"];
        A::V(self.r.pick(&pool).to_vec())
    }
    fn many(&mut self, max: u64, f: impl Fn(&mut Self) -> A) -> Vec<A> {
        let n = 1 + self.r.below(max);
        (0..n).map(|_| f(self)).collect()
    }
    fn kw(&mut self, w: &str) -> A {
        match self.r.below(3) {
            0 => s(w),
            1 => s(&w.to_uppercase()),
            _ => {
                let r = &mut *self.r;
                A::V(w.bytes().map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c }).collect())
            }
        }
    }
    fn cmd(&mut self, w: &str, args: Vec<A>) -> Step {
        let mut v = vec![if self.prop == "C25" { self.kw(w) } else { s(w) }];
        v.extend(args);
        Step::Cmd(v)
    }
    fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }

    // ---------------------------------------------------------------- strings
    pub fn set(&mut self) -> Step {
        let mut opts: Vec<Vec<A>> = vec![];
        match self.r.below(12) {
            0 | 1 => {}
            2 => opts.push(vec![self.kw("keepttl")]),
            3 => opts.push(vec![self.kw("ex"), self.secs()]),
            4 => opts.push(vec![self.kw("px"), self.millis()]),
            5 => opts.push(vec![self.kw("exat"), self.at(1000)]),
            6 => opts.push(vec![self.kw("pxat"), self.at(1)]),
            _ => {}
        }
        if self.r.chance(40) {
            let w = *self.r.pick(&["nx", "xx"]);
            opts.push(vec![self.kw(w)]);
        }
        if self.r.chance(30) {
            opts.push(vec![self.kw("get")]);
        }
        self.shuffle(&mut opts);
        let mut a = vec![self.k(), self.val()];
        a.extend(opts.into_iter().flatten());
        self.cmd("set", a)
    }
    fn get(&mut self) -> Step {
        let k = self.k();
        self.cmd("get", vec![k])
    }
    fn strs(&mut self) -> Step {
        match self.r.below(10) {
            0..=4 => self.set(),
            5 => {
                let a = vec![self.k(), self.secs(), self.val()];
                self.cmd("setex", a)
            }
            6 => {
                let a = vec![self.k(), self.millis(), self.val()];
                self.cmd("psetex", a)
            }
            _ => self.get(),
        }
    }
    /// makes a string with a chosen content
    fn set_to(&mut self, v: A) -> Step {
        let k = self.k();
        self.cmd("set", vec![k, v])
    }
    fn num(&mut self) -> A {
        match self.r.below(14) {
            0 => s(MAX),
            1 => s(MIN),
            2 => s("9223372036854775806"),
            3 => s("-9223372036854775807"),
            4 => s("4611686018427387904"),
            5 => s("-4611686018427387904"),
            6 => s("0"),
            7 => s("9223372036854775808"),
            8 => s("-9223372036854775809"),
            9 => s(*self.r.pick(&["1a", "a1", "", " 1", "1 ", "1.0", "1e3", "-", "0x10", "99999999999999999999", "1\0", "--1"])),
            _ => n(self.r.range(-30, 30)),
        }
    }
    fn incr(&mut self) -> Step {
        match self.r.below(12) {
            0 | 1 => {
                let v = self.num();
                self.set_to(v)
            }
            2 => {
                let k = self.k();
                self.cmd("incr", vec![k])
            }
            3 => {
                let k = self.k();
                self.cmd("decr", vec![k])
            }
            4 | 5 => {
                let a = vec![self.k(), self.num()];
                self.cmd("incrby", a)
            }
            6 => {
                let a = vec![self.k(), self.num()];
                self.cmd("decrby", a)
            }
            7 => {
                let a = vec![self.k_hash(), self.field(), self.num()];
                self.cmd("hset", a)
            }
            8 | 9 => {
                let a = vec![self.k_hash(), self.field(), self.num()];
                self.cmd("hincrby", a)
            }
            10 => {
                let a = vec![self.k(), n(self.r.range(1, 100))];
                self.cmd("expire", a)
            }
            _ => self.get(),
        }
    }

    // ---------------------------------------------------------------- times
    fn secs(&mut self) -> A {
        match self.r.below(12) {
            0 => n(0),
            1 => n(-1),
            2 => s(MAX),
            3 => s("9223372036854775"),
            4 => s(MIN),
            5 => s("9223372036854776"),
            6 => s("18446744073709551"),
            _ => n(self.r.range(1, 20)),
        }
    }
    fn millis(&mut self) -> A {
        match self.r.below(10) {
            0 => n(0),
            1 => n(-1),
            2 => s(MAX),
            3 => s(MIN),
            4 => n(1),
            5 => s("9223370336854775807"),
            _ => n(self.r.range(1, 20_000)),
        }
    }
    /// absolute, mostly near now
    fn at(&mut self, unit: i64) -> A {
        let d = (self.m.now - self.start) as i64;
        match self.r.below(12) {
            0 => n(0),
            1 => n(-1),
            2 => s(MAX),
            3 => s(MIN),
            4 => n(1),
            5 => s("9223372036854776"),
            6 => A::T(d, unit),
            7 => A::T(d - unit, unit),
            _ => A::T(d + self.r.range(-3000, 20_000), unit),
        }
    }
    fn time(&mut self) -> Step {
        match self.r.below(14) {
            0 | 1 => self.set(),
            2 => {
                let a = vec![self.k(), self.secs(), self.val()];
                self.cmd("setex", a)
            }
            3 => {
                let a = vec![self.k(), self.millis(), self.val()];
                self.cmd("psetex", a)
            }
            4..=8 => self.expire(false),
            9 | 10 => {
                let k = self.k();
                self.cmd("ttl", vec![k])
            }
            11 | 12 => {
                let k = self.k();
                self.cmd("pttl", vec![k])
            }
            _ => self.create(),
        }
    }
    fn expire(&mut self, conds: bool) -> Step {
        let k = self.k();
        let (name, t) = match self.r.below(4) {
            0 => ("expire", self.secs()),
            1 => ("pexpire", self.millis()),
            2 => ("expireat", self.at(1000)),
            _ => ("pexpireat", self.at(1)),
        };
        let mut a = vec![k, t];
        if conds {
            // sometimes exactly the current deadline
            if let A::K(i) = a[0] {
                if let Some(v) = self.m.alive(&self.keys[i]) {
                    if v.deadline > self.m.now && v.deadline < self.m.now + 100_000 && self.r.chance(40) {
                        let d = self.r.range(-1, 1);
                        a[1] = A::T((v.deadline - self.start) as i64 + d, 1);
                        let mut o = self.conds();
                        let mut all = a;
                        all.append(&mut o);
                        return self.cmd("pexpireat", all);
                    }
                }
            }
            let mut o = self.conds();
            a.append(&mut o);
        }
        self.cmd(name, a)
    }
    fn conds(&mut self) -> Vec<A> {
        let w: &[&str] = match self.r.below(8) {
            0 => &[],
            1 => &["nx"],
            2 => &["xx"],
            3 => &["gt"],
            4 => &["lt"],
            5 => &["xx", "gt"],
            6 => &["lt", "xx"],
            _ => &["gt", "xx"],
        };
        w.iter().map(|w| self.kw(w)).collect()
    }
    /// a short deadline on an existing key
    fn short_deadline(&mut self) -> Step {
        let a = vec![self.k_where(|_| true), n(self.r.range(1, 3000))];
        self.cmd("pexpire", a)
    }
    pub fn advance(&mut self) -> Step {
        let next = self
            .keys
            .iter()
            .filter_map(|k| self.m.keys.get(k))
            .map(|v| v.deadline)
            .filter(|d| *d > self.m.now && *d < self.m.now + 100_000)
            .collect::<Vec<_>>();
        if !next.is_empty() && self.r.chance(80) {
            let d = *self.r.pick(&next) - self.m.now;
            return Step::Advance(match self.r.below(5) {
                0 => d - 1,
                1 | 2 => d,
                3 => d + 1,
                _ => self.r.below(d) + 1,
            });
        }
        Step::Advance(self.r.below(3000))
    }

    // ---------------------------------------------------------------- collections
    fn k_list(&mut self) -> A {
        self.k_where(|d| matches!(d, Data::List(_)))
    }
    fn k_hash(&mut self) -> A {
        if self.prop == "C06" {
            return A::K(self.nk);
        }
        self.k_where(|d| matches!(d, Data::Hash(_)))
    }
    fn k_set(&mut self) -> A {
        self.k_where(|d| matches!(d, Data::Set(_)))
    }
    fn k_z(&mut self) -> A {
        self.k_where(|d| matches!(d, Data::ZSet(_)))
    }
    fn field(&mut self) -> A {
        let pool: [&[u8]; 6] = [b"f", b"g", b"h", b"", b"\r\n", b"F"];
        A::V(self.r.pick(&pool).to_vec())
    }
    fn pos(&mut self) -> A {
        match self.r.below(12) {
            0 => s(MAX),
            1 => s(MIN),
            2 => n(-100),
            3 => n(100),
            _ => n(self.r.range(-7, 7)),
        }
    }
    fn push(&mut self) -> Step {
        let name = *self.r.pick(&["lpush", "rpush", "lpush", "rpush", "lpushx", "rpushx"]);
        let mut a = vec![self.k_list()];
        a.extend(self.many(4, Self::val));
        self.cmd(name, a)
    }
    fn pop(&mut self) -> Step {
        let name = *self.r.pick(&["lpop", "rpop"]);
        let mut a = vec![self.k_list()];
        if self.r.chance(60) {
            let c = match self.r.below(8) {
                0 => n(0),
                1 => s(MAX),
                2 => n(100),
                _ => n(self.r.range(1, 4)),
            };
            a.push(c);
        }
        self.cmd(name, a)
    }
    fn list(&mut self) -> Step {
        match self.r.below(10) {
            0..=3 => self.push(),
            4 | 5 => self.pop(),
            6 => {
                let k = self.k_list();
                self.cmd("llen", vec![k])
            }
            _ => {
                let a = vec![self.k_list(), self.pos(), self.pos()];
                self.cmd("lrange", a)
            }
        }
    }
    fn hash(&mut self) -> Step {
        match self.r.below(12) {
            0..=3 => {
                let mut a = vec![self.k_hash()];
                for _ in 0..1 + self.r.below(4) {
                    a.push(self.field());
                    a.push(self.val());
                }
                self.cmd("hset", a)
            }
            4 => {
                let a = vec![self.k_hash(), self.field(), self.val()];
                self.cmd("hsetnx", a)
            }
            5 | 6 => {
                let mut a = vec![self.k_hash()];
                a.extend(self.many(4, Self::field));
                self.cmd("hdel", a)
            }
            7 => {
                let a = vec![self.k_hash(), self.field()];
                self.cmd("hget", a)
            }
            8 => {
                let mut a = vec![self.k_hash()];
                a.extend(self.many(5, Self::field));
                self.cmd("hmget", a)
            }
            9 => {
                let a = vec![self.k_hash(), self.field()];
                self.cmd("hexists", a)
            }
            _ => {
                let k = self.k_hash();
                self.cmd("hgetall", vec![k])
            }
        }
    }
    fn set_ty(&mut self) -> Step {
        match self.r.below(10) {
            0..=3 => {
                let mut a = vec![self.k_set()];
                a.extend(self.many(5, Self::member));
                self.cmd("sadd", a)
            }
            4..=6 => {
                let mut a = vec![self.k_set()];
                a.extend(self.many(4, Self::member));
                self.cmd("srem", a)
            }
            7 => {
                let k = self.k_set();
                self.cmd("smembers", vec![k])
            }
            8 => {
                let a = vec![self.k_set(), self.member()];
                self.cmd("sismember", a)
            }
            _ => {
                let mut a = vec![self.k_set()];
                a.extend(self.many(5, Self::member));
                self.cmd("smismember", a)
            }
        }
    }
    fn score(&mut self) -> A {
        let pool = [
            "0", "1", "2", "3", "-1", "-2", "1.5", "inf", "-inf", "1e300", "0.1", "0.2", "1", "2", "5e-324", "-5e-324",
            "9007199254740993", "1.0000000000000002",
        ];
        s(*self.r.pick(&pool))
    }
    fn zmember(&mut self) -> A {
        // bounds are text, so members of sets that are asked for by member are as well
        let pool: [&[u8]; 9] = [b"a", b"b", b"c", b"d", b"ab", b"", b"a\0", b"\xc3\xa9", b"B"];
        A::V(self.r.pick(&pool).to_vec())
    }
    fn zadd(&mut self) -> Step {
        let equal = self.prop == "C16" && self.r.chance(70);
        let mut a = vec![self.k_z()];
        if !equal && self.r.chance(60) {
            let mut o: Vec<&str> = vec![];
            match self.r.below(8) {
                0 => o.push("nx"),
                1 => o.push("xx"),
                2 => o.push("gt"),
                3 => o.push("lt"),
                4 => o.extend(["xx", "gt"]),
                5 => o.extend(["lt", "xx"]),
                _ => {}
            }
            if self.r.chance(30) {
                o.push("ch");
            }
            if self.r.chance(20) {
                o.push("incr");
            }
            self.shuffle(&mut o);
            for w in o {
                let w = self.kw(w);
                a.push(w);
            }
        }
        let n = if self.r.chance(40) { 1 } else { 1 + self.r.below(4) };
        for _ in 0..n {
            a.push(if equal { s("1") } else { self.score() });
            a.push(self.zmember());
        }
        if self.prop == "C14" && self.r.chance(3) {
            let i = a.len() - 2;
            a[i] = s("nan");
        }
        self.cmd("zadd", a)
    }
    fn zrem(&mut self) -> Step {
        match self.r.below(6) {
            0..=2 => {
                let mut a = vec![self.k_z()];
                a.extend(self.many(3, Self::zmember));
                self.cmd("zrem", a)
            }
            3 => {
                let a = vec![self.k_z(), self.pos(), self.pos()];
                self.cmd("zremrangebyrank", a)
            }
            4 => {
                let a = vec![self.k_z(), self.sbound(), self.sbound()];
                self.cmd("zremrangebyscore", a)
            }
            _ => {
                let a = vec![self.k_z(), self.lbound(), self.lbound()];
                self.cmd("zremrangebylex", a)
            }
        }
    }
    fn sbound(&mut self) -> A {
        let A::V(b) = self.score() else { unreachable!() };
        match self.r.below(8) {
            0 => s("-inf"),
            1 => s("+inf"),
            2 | 3 => A::V([&b"("[..], &b].concat()),
            4 if self.prop == "C16" && self.r.chance(20) => {
                s(*self.r.pick(&["a", "", "(", "((1", "[1", "nan", "(nan", "+", "-", "1x"]))
            }
            _ => A::V(b),
        }
    }
    fn lbound(&mut self) -> A {
        let A::V(m) = self.zmember() else { unreachable!() };
        match self.r.below(8) {
            0 => s("-"),
            1 => s("+"),
            2 if self.prop == "C16" && self.r.chance(20) => s(*self.r.pick(&["", "a", "1", "-a", "+a", "--"])),
            2..=4 => A::V([&b"["[..], &m].concat()),
            _ => A::V([&b"("[..], &m].concat()),
        }
    }
    fn zrank(&mut self) -> Step {
        let a3 = |g: &mut Self| vec![g.k_z(), g.pos(), g.pos()];
        match self.r.below(8) {
            0 => {
                let a = vec![self.k_z(), self.zmember()];
                self.cmd("zrank", a)
            }
            1 => {
                let a = vec![self.k_z(), self.zmember()];
                self.cmd("zrevrank", a)
            }
            2 | 3 => {
                let mut a = a3(self);
                if self.r.chance(50) {
                    a.push(self.kw("withscores"));
                }
                self.cmd("zrevrange", a)
            }
            4 => {
                let a = a3(self);
                self.cmd("zremrangebyrank", a)
            }
            _ => {
                let mut a = a3(self);
                let mut o = vec![];
                if self.r.chance(40) {
                    o.push("rev");
                }
                if self.r.chance(40) {
                    o.push("withscores");
                }
                self.shuffle(&mut o);
                for w in o {
                    let w = self.kw(w);
                    a.push(w);
                }
                self.cmd("zrange", a)
            }
        }
    }
    fn limit(&mut self) -> Vec<A> {
        if self.r.chance(60) {
            return vec![];
        }
        let o = n(self.r.range(0, 6));
        let c = match self.r.below(6) {
            0 => n(-1),
            1 => s(MIN),
            2 => s(MAX),
            _ => n(self.r.range(0, 6)),
        };
        vec![self.kw("limit"), o, c]
    }
    fn zrange_by(&mut self) -> Step {
        let lex = self.r.chance(50);
        let mut a = vec![self.k_z()];
        for _ in 0..2 {
            a.push(if lex { self.lbound() } else { self.sbound() });
        }
        let mut o: Vec<Vec<A>> = vec![];
        let l = self.limit();
        if !l.is_empty() {
            o.push(l);
        }
        if !lex && self.r.chance(30) {
            o.push(vec![self.kw("withscores")]);
        }
        let name = match (self.r.below(4), lex) {
            (0, true) => "zrangebylex",
            (0, false) => "zrangebyscore",
            (1, true) => "zrevrangebylex",
            (1, false) => "zrevrangebyscore",
            (2, true) => {
                a.truncate(3);
                return self.cmd("zremrangebylex", a);
            }
            (2, false) => {
                return self.cmd("zremrangebyscore", a);
            }
            (_, l) => {
                o.push(vec![self.kw(if l { "bylex" } else { "byscore" })]);
                if self.r.chance(40) {
                    o.push(vec![self.kw("rev")]);
                }
                "zrange"
            }
        };
        self.shuffle(&mut o);
        a.extend(o.into_iter().flatten());
        self.cmd(name, a)
    }
    fn zset(&mut self) -> Step {
        match self.r.below(6) {
            0 | 1 => self.zadd(),
            2 => self.zrem(),
            3 => self.zrank(),
            _ => self.zrange_by(),
        }
    }
    /// gives some key a value of some type
    fn create(&mut self) -> Step {
        let k = self.k();
        let v = self.val();
        match self.r.below(5) {
            0 => self.cmd("set", vec![k, v]),
            1 => {
                let mut a = vec![k];
                a.extend(self.many(3, Self::val));
                self.cmd("rpush", a)
            }
            2 => {
                let f = self.field();
                self.cmd("hset", vec![k, f, v])
            }
            3 => {
                let mut a = vec![k];
                a.extend(self.many(3, Self::member));
                self.cmd("sadd", a)
            }
            _ => {
                let mut a = vec![k];
                for _ in 0..1 + self.r.below(3) {
                    a.push(self.score());
                    a.push(self.zmember());
                }
                self.cmd("zadd", a)
            }
        }
    }
    fn del_exists(&mut self) -> Step {
        match self.r.below(20) {
            0 => {
                if self.r.chance(50) {
                    self.cmd("flushall", vec![])
                } else {
                    let w = self.kw("sync");
                    self.cmd("flushall", vec![w])
                }
            }
            1..=9 => {
                let a = self.many(4, Self::k);
                self.cmd("del", a)
            }
            _ => {
                let a = self.many(5, Self::k);
                self.cmd("exists", a)
            }
        }
    }
    fn object(&mut self) -> Step {
        let w = *self.r.pick(&["FREQ", "freq", "IDLETIME", "idletime"]);
        let k = self.k();
        Step::Cmd(vec![s("object"), s(w), k])
    }
    fn dump_restore(&mut self) -> Step {
        let A::K(src) = self.k_where(|_| true) else { unreachable!() };
        let A::K(dst) = self.k() else { unreachable!() };
        let abs = self.r.chance(35);
        let t = match self.r.below(5) {
            0 | 1 => n(0),
            2 => self.millis(),
            _ => {
                if abs {
                    self.at(1)
                } else {
                    n(self.r.range(1, 5000))
                }
            }
        };
        let big = |r: &mut Rng| match r.below(6) {
            0 => 65_534,
            1 => 65_535,
            2 => 65_536,
            3 => 1 << 40,
            4 => i64::MAX as u64,
            _ => r.below(300),
        };
        let idle = if self.r.chance(25) { Some(self.r.below(5000) * 10) } else { None };
        let freq = if self.r.chance(if self.prop == "C20" { 70 } else { 20 }) { Some(big(self.r)) } else { None };
        Step::Restore { src, dst, t, abs, replace: self.r.chance(60), idle, freq, cut: None }
    }
    fn restore_bad(&mut self) -> Step {
        let A::K(src) = self.k_where(|_| true) else { unreachable!() };
        let A::K(dst) = self.k() else { unreachable!() };
        let cut = Some(self.r.below(1000));
        Step::Restore { src, dst, t: n(0), abs: false, replace: self.r.chance(50), idle: None, freq: None, cut }
    }
    fn any(&mut self) -> Step {
        match self.r.below(22) {
            0..=2 => self.strs(),
            3 => self.incr(),
            4 => self.expire(true),
            5 => self.time(),
            6..=8 => self.list(),
            9..=11 => self.hash(),
            12 | 13 => self.set_ty(),
            14..=17 => self.zset(),
            18 => self.del_exists_noflush(),
            19 => {
                let k = self.k();
                self.cmd("dump", vec![k])
            }
            _ => self.create(),
        }
    }
    fn del_exists_noflush(&mut self) -> Step {
        loop {
            let st = self.del_exists();
            if let Step::Cmd(c) = &st {
                if c.len() > 1 && c[0] != s("flushall") && c[0] != s("FLUSHALL") {
                    return st;
                }
            }
        }
    }
    /// removes something
    fn removal(&mut self) -> Step {
        match self.r.below(6) {
            0 => self.pop(),
            1 => {
                let mut a = vec![self.k_hash()];
                a.extend(self.many(4, Self::field));
                self.cmd("hdel", a)
            }
            2 => {
                let mut a = vec![self.k_set()];
                a.extend(self.many(6, Self::member));
                self.cmd("srem", a)
            }
            _ => self.zrem(),
        }
    }
    fn check_key(&mut self) -> Step {
        let k = self.k();
        let w = *self.r.pick(&["exists", "ttl", "pttl"]);
        self.cmd(w, vec![k])
    }
    fn weird(&mut self) -> Step {
        match self.r.below(8) {
            0 => {
                let mut a = self.many(3, Self::val);
                let mut name = self.r.bytes(6);
                name.retain(|c| c.is_ascii());
                if self.r.chance(50) {
                    name.extend(b"\r\n+OK\r\n");
                }
                name.push(b'!');
                a.insert(0, A::V(name));
                Step::Cmd(a)
            }
            1 => self.cmd("info", vec![]),
            2 => {
                let a = vec![self.val(), self.val()];
                self.cmd("config", a)
            }
            3 => {
                let w = *self.r.pick(&["object", "OBJECT", "x"]);
                let k = self.k();
                self.cmd("debug", vec![s(w), k])
            }
            4 => {
                let a = vec![self.val(), self.k()];
                self.cmd("object", a)
            }
            5 => self.cmd("ping", vec![]),
            6 => {
                let k = self.k();
                self.cmd("dump", vec![k])
            }
            _ => self.object(),
        }
    }
    fn mutate(&mut self, st: Step) -> Step {
        let Step::Cmd(mut c) = st else { return st };
        let i = 1 + self.r.below(c.len() as u64) as usize;
        let junk: [&[u8]; 16] = [
            b"1x", b"", b"foo", b"-1", b"9223372036854775808", b"nx", b"limit", b"ex", b"\xff\xfe", b"withscores", b"1 ",
            b"0", b"5", b"xx", b"-", b"1.5",
        ];
        let j = A::V(self.r.pick(&junk).to_vec());
        match self.r.below(7) {
            0 => {
                c.pop();
                if c.is_empty() {
                    c.push(s("get"));
                }
            }
            1 => c.push(j),
            2 => {
                c.push(j);
                let j = A::V(self.r.pick(&junk).to_vec());
                c.push(j);
            }
            3 if i < c.len() => {
                c.remove(i);
            }
            4 => c.insert(i, j),
            5 if i < c.len() => c[i] = j,
            _ => {}
        }
        Step::Cmd(c)
    }

    pub fn step(&mut self) -> Step {
        let p = self.r.below(100);
        match self.prop {
            "C03" => match p {
                0..=39 => self.weird(),
                _ => self.any(),
            },
            "C04" => match p {
                0..=69 => self.any(),
                70..=84 => self.create(),
                _ => self.check_key(),
            },
            "C05" => match p {
                0..=69 => self.strs(),
                70..=77 => self.create(),
                78..=83 => self.short_deadline(),
                84..=89 => self.check_key(),
                _ => self.advance(),
            },
            "C06" => self.incr(),
            "C07" => match p {
                0..=79 => self.time(),
                80..=84 => self.check_key(),
                _ => self.advance(),
            },
            "C08" => match p {
                0..=64 => self.expire(true),
                65..=79 => self.create(),
                80..=91 => self.check_key(),
                _ => self.advance(),
            },
            "C09" => match p {
                0..=14 => self.create(),
                15..=29 => self.short_deadline(),
                30..=49 => self.advance(),
                50..=54 => self.object(),
                55..=60 => self.check_key(),
                61..=64 => self.dump_restore(),
                _ => self.any(),
            },
            "C10" => match p {
                0..=24 => self.create(),
                25..=49 => self.short_deadline(),
                50..=59 => self.time(),
                60..=64 => self.del_exists_noflush(),
                65..=69 => self.dump_restore(),
                70..=84 => self.advance(),
                85..=90 => Step::Purge,
                _ => self.any(),
            },
            "C11" => match p {
                0..=94 => self.list(),
                95..=96 => self.create(),
                _ => self.check_key(),
            },
            "C12" => match p {
                0..=94 => self.hash(),
                95..=96 => self.create(),
                _ => self.check_key(),
            },
            "C13" => match p {
                0..=94 => self.set_ty(),
                95..=96 => self.create(),
                _ => self.check_key(),
            },
            "C14" => match p {
                0..=54 => self.zadd(),
                55..=69 => self.zrem(),
                70..=84 => self.zrank(),
                _ => {
                    let a = vec![self.k_z(), s("0"), s("-1"), s("withscores")];
                    self.cmd("zrange", a)
                }
            },
            "C15" => match p {
                0..=24 => self.zadd(),
                25..=29 => self.zrem(),
                _ => self.zrank(),
            },
            "C16" => match p {
                0..=29 => self.zadd(),
                30..=33 => self.zrem(),
                34..=35 => {
                    let k = self.k();
                    self.cmd("del", vec![k])
                }
                _ => self.zrange_by(),
            },
            "C17" => match p {
                0..=19 => self.create(),
                20..=24 => self.restore_bad(),
                25..=29 => self.incr(),
                30..=34 => self.time(),
                35..=39 => self.short_deadline(),
                40..=44 => self.dump_restore(),
                45..=49 => {
                    let st = self.any();
                    self.mutate(st)
                }
                50..=94 => {
                    // any command on a key of another type
                    let st = self.any();
                    if let Step::Cmd(mut c) = st {
                        if let Some(A::K(_)) = c.get(1) {
                            c[1] = self.k_where(|_| true);
                        }
                        return Step::Cmd(c);
                    }
                    st
                }
                _ => self.check_key(),
            },
            "C18" => match p {
                0..=34 => self.create(),
                35..=69 => self.removal(),
                70..=74 => self.short_deadline(),
                75..=79 => self.restore_bad(),
                80..=84 => self.any(),
                85..=87 => {
                    // nothing to add
                    let a = vec![self.k(), s("xx"), s("1"), self.zmember()];
                    self.cmd("zadd", a)
                }
                _ => self.check_key(),
            },
            "C19" => match p {
                0..=39 => self.create(),
                40..=79 => self.del_exists(),
                80..=87 => self.short_deadline(),
                88..=92 => self.check_key(),
                _ => self.advance(),
            },
            "C20" => {
                // accesses that count exactly once
                match p {
                    0..=34 => self.object(),
                    35..=44 => {
                        let d = match self.r.below(8) {
                            0 => 60_000 * (1 + self.r.below(70_000)),
                            1 => 60_000 * (65_530 + self.r.below(12)),
                            2 | 3 => 60_000 * (1 + self.r.below(4)),
                            4 => 60_000 - self.m.now % 60_000,
                            5 => 59_999 - self.m.now % 60_000,
                            6 => 10_000 - self.m.now % 10_000,
                            _ => self.r.below(30_000),
                        };
                        Step::Advance(d.min(65_535 * 60_000))
                    }
                    45..=54 => {
                        let v = self.val();
                        self.set_to(v)
                    }
                    55..=66 => self.dump_restore(),
                    67..=84 => self.get(),
                    85..=89 => {
                        let k = self.k();
                        self.cmd("strlen", vec![k])
                    }
                    _ => {
                        let k = self.k();
                        self.cmd("getset", vec![k])
                    }
                }
            }
            "C21" => match p {
                0..=39 => self.create(),
                40..=74 => self.dump_restore(),
                75..=84 => self.restore_bad(),
                85..=89 => self.advance(),
                90..=92 => self.short_deadline(),
                _ => self.any(),
            },
            "C22" => match p {
                0..=79 => self.any(),
                80..=84 => self.short_deadline(),
                85..=88 => self.dump_restore(),
                89..=90 => self.del_exists(),
                91..=93 => self.advance(),
                _ => self.removal(),
            },
            "C25" => match p {
                0..=9 => self.create(),
                10..=24 => self.any(),
                _ => {
                    let st = match self.r.below(8) {
                        0 => self.set(),
                        1 => self.expire(true),
                        2 => self.zadd(),
                        3 => self.zrange_by(),
                        4 => self.zrank(),
                        5 => self.pop(),
                        _ => self.any(),
                    };
                    self.mutate(st)
                }
            },
            _ => self.any(),
        }
    }
}
