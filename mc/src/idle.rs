//! Time-outs of an open connection, in virtual time.
use crate::cgen::Drv;
use crate::codec::Found;
use crate::exec;
use crate::peer;
use crate::refc::*;
use crate::sut::{Call, Cfg, Ev, Obs, Res, Role, World};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Nothing,
    /// empty frame of the peer
    Empty,
    /// session flow of the peer
    Flow,
    /// ... that wants an answer
    Echo,
    /// a delivery of the peer, to a handler that does not return
    Transfer,
    /// the application sends
    Send,
    /// the application opens a session, the peer does not answer
    Session,
}
use Act::*;

#[derive(Clone)]
struct Case {
    role: Role,
    idle: Option<u32>,
    keep: u16,
    /// after a pause of so many ms
    acts: Vec<(u64, Act)>,
    /// how long to go on quietly
    tail: u64,
}

impl Case {
    fn show(&self) -> String {
        format!("{:?} peer's time-out {:?} keep-alive {}s {:?} then {}ms", self.role, self.idle, self.keep, self.acts, self.tail)
    }
}

struct Run {
    w: World,
    last_out: u64,
    gap: u64,
    gap_at: u64,
    closed: bool,
    protoerr: usize,
    end: bool,
    eof: bool,
    connected: bool,
    broken: Option<String>,
    ops: usize,
    hash: u64,
}

impl Run {
    fn collect(&mut self) {
        for (t, o) in self.w.tap.replace(vec![]).unwrap() {
            let k = match &o {
                Obs::Out(Item::Frame(_, _, p, _)) => p.code,
                Obs::Out(_) => 1,
                Obs::Ctl(..) => 2,
                Obs::Op(..) => 3,
                Obs::TaskEnd(_) => 4,
                _ => 5,
            };
            self.hash = (self.hash ^ (t / MS / 10) ^ (k << 40)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            match o {
                Obs::Out(i) => {
                    self.silent(t);
                    self.last_out = t;
                    if matches!(i, Item::Frame(0, _, ref p, _) if p.code == CLOSE) {
                        self.closed = true
                    }
                }
                Obs::Hs(s) if s == "connected" || s == "control-created" => self.connected = true,
                Obs::Ctl(_, Call::ProtocolError(e)) if e.contains("KeepAlive") => self.protoerr += 1,
                Obs::TaskEnd(_) => {
                    self.silent(t);
                    self.end = true
                }
                Obs::Op(_, Res::Sent { .. }) => self.ops += 1,
                Obs::Eof => {
                    self.silent(t);
                    self.eof = true
                }
                Obs::Panic(m) => self.broken = Some(format!("panic: {m}")),
                Obs::Livelock => self.broken = Some("does not come to rest".into()),
                _ => {}
            }
        }
    }
    fn silent(&mut self, t: u64) {
        if !self.closed && !self.end && !self.eof && t - self.last_out > self.gap {
            self.gap = t - self.last_out;
            self.gap_at = t;
        }
    }
}

const MS: u64 = 1_000_000;

fn execute(c: &Case, poll: &mut dyn FnMut() -> bool) -> (Vec<(&'static str, String)>, u64) {
    let cfg = Cfg {
        role: c.role,
        auto_open: false,
        p_idle: c.idle,
        keepalive: c.keep,
        gate_msg: |c| matches!(c, Call::MTransfer(..)),
        ..Cfg::default()
    };
    let mut w = World::new(cfg.clone());
    w.tap = Some(vec![]);
    w.mon.enabled = false;
    let mut r = Run {
        w,
        last_out: futures_timer::mc_now(),
        gap: 0,
        gap_at: 0,
        closed: false,
        protoerr: 0,
        end: false,
        eof: false,
        connected: false,
        broken: None,
        ops: 0,
        hash: 0,
    };
    r.w.quiesce(poll);
    for e in [Ev::PBytes(AMQP_HDR.to_vec()), Ev::P(0, peer::open(&cfg)), Ev::P(0, peer::begin(if c.role == Role::Client { Some(0) } else { None }, 0, 1000))] {
        if c.role == Role::Client && matches!(e, Ev::P(_, ref p) if p.code == BEGIN) {
            r.w.inject(&Ev::OpenSession(900, "a"));
            r.w.quiesce(poll);
        }
        r.w.inject(&e);
        r.w.quiesce(poll);
    }
    // two links of the peer's
    for (n, h, rcv) in [("out", 0, true), ("in", 1, false)] {
        r.w.inject(&Ev::P(0, peer::attach(n, h, rcv, Some("q"), (!rcv).then_some(0))));
        r.w.quiesce(poll);
    }
    r.w.inject(&Ev::Credit("in", 100));
    r.w.quiesce(poll);
    r.w.inject(&Ev::P(0, peer::flow_l(Some(0), 1000, 0, 0, Some(0), 1000, false)));
    r.w.quiesce(poll);
    r.collect();
    let mut bad = vec![];
    if !r.connected || r.end {
        return (vec![("idle-setup", "connection does not come up".into())], 0);
    }
    r.gap = 0;
    let mut last_in = futures_timer::mc_now();
    let keep = c.keep as u64 * 1000 * MS;
    // a second, the resolution of the io timer, is nobody's fault
    let slack = 1_100 * MS;
    let mut maybe = false;
    let (mut id, mut due) = (0u32, None::<u64>);
    let mut check = |r: &mut Run, last_in: u64, due: &mut Option<u64>, what: &str| {
        r.collect();
        let now = futures_timer::mc_now();
        r.silent(now);
        let quiet = now - last_in;
        if let Some(m) = &r.broken {
            bad.push(("idle-broken", m.clone()))
        }
        if let Some(x) = c.idle
            && x > 0
            && r.gap > x as u64 * MS
        {
            bad.push(("idle-silent", format!("sent nothing for {}ms until {}ms, the peer's time-out is {x}ms", r.gap / MS, r.gap_at / MS)));
        }
        if keep > 0 && due.is_none() && quiet > keep + slack {
            *due = Some(now);
        }
        match due {
            Some(_) => {
                if r.protoerr != 1 {
                    bad.push(("keep-missed", format!("peer silent for {}ms: {} notices {what}", quiet / MS, r.protoerr)))
                }
            }
            None => {
                maybe |= keep > 0 && quiet + slack >= keep;
                if !maybe && (r.end || r.eof || r.closed || r.protoerr > 0) {
                    bad.push(("keep-early", format!("ended although the peer's last frame is {}ms old, {} notices {what}", quiet / MS, r.protoerr)))
                }
            }
        }
        !bad.is_empty()
    };
    let mut stop = false;
    for (n, (ms, a)) in c.acts.iter().chain(&[(c.tail, Nothing)]).enumerate() {
        r.w.advance(*ms, poll);
        stop = check(&mut r, last_in, &mut due, &format!("at step {n}"));
        if stop || due.is_some() || r.end {
            break;
        }
        let ev = match a {
            Nothing => None,
            Empty => Some(Ev::PBytes(frame_bytes(0, 0, &[]))),
            Flow => Some(Ev::P(0, peer::flow_s(Some(0), 1000, id, false))),
            Echo => Some(Ev::P(0, peer::flow_s(Some(0), 1000, id, true))),
            Transfer => {
                id += 1;
                Some(Ev::P(
                    0,
                    peer::transfer(peer::Tr {
                        h: 1,
                        id: Some(id - 1),
                        tag: Some(vec![id as u8]),
                        fmt: None,
                        settled: None,
                        more: false,
                        aborted: false,
                        body: vec![1],
                    }),
                ))
            }
            Send => Some(Ev::Send(100 + n as u32, "out", None, vec![n as u8], true)),
            Session => Some(Ev::OpenSession(100 + n as u32, ["s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8"][n])),
        };
        if let Some(e) = ev {
            if matches!(e, Ev::P(..) | Ev::PBytes(_)) {
                last_in = futures_timer::mc_now();
            }
            r.w.inject(&e);
            r.w.quiesce(poll);
        }
    }
    if !stop && due.is_some() {
        // handlers that hang may hold it up
        r.w.release_gates();
        r.w.advance(5_000, poll);
        r.collect();
        if !r.eof || !r.end {
            bad_push(&mut bad, "keep-open", "connection still up after the keep-alive ran out")
        }
    }
    let h = r.hash;
    r.w.tap = Some(vec![]);
    r.w.teardown(poll);
    (bad, h)
}

fn bad_push(b: &mut Vec<(&'static str, String)>, r: &'static str, m: &str) {
    b.push((r, m.into()))
}

fn prod(delays: &[u64], acts: &[Act], len: usize, f: &mut dyn FnMut(&[(u64, Act)])) {
    fn go(d: &[u64], a: &[Act], len: usize, v: &mut Vec<(u64, Act)>, f: &mut dyn FnMut(&[(u64, Act)])) {
        f(v);
        if v.len() == len {
            return;
        }
        for x in d {
            for y in a {
                v.push((*x, *y));
                go(d, a, len, v, f);
                v.pop();
            }
        }
    }
    go(delays, acts, len, &mut vec![], f)
}

fn cases(what: &str, deep: bool, f: &mut dyn FnMut(Case)) {
    let roles = [Role::Server, Role::Client];
    match what {
        // every value
        "grid" => {
            let mut v: Vec<u32> = (100..=4_000).step_by(if deep { 1 } else { 20 }).collect();
            v.extend([0, 999, 1_001, 1_332, 1_333, 1_334, 2_666, 2_667, 5_000, 30_000, 60_000, 65_535, 65_536, 120_000, 3_600_000, 87_381_333, u32::MAX >> 1, u32::MAX - 1, u32::MAX]);
            for role in roles {
                for x in &v {
                    let tail = (*x as u64 * 4).clamp(3_000, 200_000);
                    f(Case { role, idle: Some(*x), keep: 0, acts: vec![], tail })
                }
                f(Case { role, idle: None, keep: 0, acts: vec![], tail: 1_000_000 })
            }
        }
        "out" => {
            for role in roles {
                for x in [100, 400, 1_000, 1_333, 1_500, 3_000u64] {
                    let acts: &[Act] = if role == Role::Server { &[Empty, Echo, Transfer, Send, Session] } else { &[Empty, Echo, Send, Session] };
                    prod(&[x / 4, x / 2, x * 9 / 10], acts, if deep { 4 } else { 3 }, &mut |v| {
                        f(Case { role, idle: Some(x as u32), keep: 0, acts: v.to_vec(), tail: x * 3 })
                    })
                }
            }
        }
        "keep" => {
            for role in roles {
                for (k, idle) in [(3u16, None), (5, None), (3, Some(500))] {
                    let k1 = k as u64 * 1000;
                    let acts: &[Act] = if role == Role::Server { &[Empty, Flow, Transfer, Nothing] } else { &[Empty, Flow, Nothing] };
                    prod(&[300, k1 - 1_200, k1 + 1_300], acts, if deep { 5 } else { 4 }, &mut |v| {
                        f(Case { role, idle, keep: k, acts: v.to_vec(), tail: k1 + 1_300 })
                    })
                }
            }
        }
        x => panic!("{x}"),
    }
}

pub fn parts(size: usize) -> Vec<String> {
    let mut o = vec![];
    let k = if size > 1 { 96 } else { 16 };
    for w in ["grid", "out", "keep"] {
        for i in 0..k {
            o.push(format!("idle.{w}.{i}.{k}.{}", if size > 1 { "t" } else { "q" }))
        }
    }
    o
}

pub fn run(f: &[&str], d: &mut Drv) {
    let (i, k): (u64, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap());
    let mut n = 0u64;
    cases(f[1], f[4] == "t", &mut |c: Case| {
        n += 1;
        if n % k != i {
            return;
        }
        let text = c.show();
        let steps = c.acts.len() as u64 + 1;
        d.any(|found: &mut Vec<Found>| {
            let c2 = c.clone();
            let r = exec::isolated(2 << 20, move || exec::with_runtime(move |poll| execute(&c2, poll)));
            let h = match r {
                Ok((bad, h)) => {
                    for (rule, m) in bad {
                        found.push((rule, "C21", format!("{m}; {text}")))
                    }
                    h
                }
                Err(m) => {
                    found.push(("panic", "*", format!("{m}; {text}")));
                    0
                }
            };
            (Some(h), text)
        });
        d.events(steps);
    });
}
