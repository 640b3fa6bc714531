//! Frames that no conformant peer would send, in any state: nothing may break,
//! and what refers to nothing may have no effect.
use std::hash::{DefaultHasher, Hash, Hasher};

use crate::cgen::Drv;
use crate::codec::Found;
use crate::exec;
use crate::peer::{self, Tr, disp};
use crate::refc::*;
use crate::sut::{Call, Cfg, Ev, Obs, Res, Role, St, World, show_ev};

static TRACE: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("MC_TRACE").is_ok());

const MAX: u32 = u32::MAX;
const HALF: u32 = 0x8000_0000;

const SETUPS: &[&str] = &["busy", "frag", "gate", "closing", "idle", "client", "client-wait", "router"];

fn tr(h: u32, id: Option<u32>, tag: Option<Vec<u8>>, more: bool, aborted: bool, settled: Option<bool>, body: Vec<u8>) -> Perf {
    peer::transfer(Tr { h, id, tag, fmt: None, settled, more, aborted, body })
}

/// configuration and the events that lead to the state
fn setup(n: &str) -> (Cfg, Vec<Ev>) {
    let mut c = Cfg { auto_open: false, ..Cfg::default() };
    let mut v = vec![];
    let client = n.starts_with("client");
    match n {
        "frag" => c.p_max_frame = Some(512),
        "gate" => {
            c.gate_ctl = |c| match c {
                Call::AttachSender(n) | Call::AttachReceiver(n) => !n.contains("in") && !n.contains("out"),
                _ => false,
            };
            c.gate_msg = |c| match c {
                Call::MAttached(n) => !n.contains("in"),
                Call::MTransfer(..) => true,
                _ => false,
            };
        }
        "router" => {
            c.router = true;
            c.gate_hnd = true;
        }
        "idle" => return (c.clone(), vec![Ev::PBytes(AMQP_HDR.to_vec()), Ev::P(0, peer::open(&c))]),
        _ => {}
    }
    if client {
        c.role = Role::Client
    }
    v.push(Ev::PBytes(AMQP_HDR.to_vec()));
    v.push(Ev::P(0, peer::open(&c)));
    if client {
        v.push(Ev::OpenSession(90, "a"));
        v.push(Ev::OpenSession(91, "b"));
    }
    let win = if n == "frag" { 2 } else { 100 };
    for (i, ch) in [1u16, 2].into_iter().enumerate() {
        v.push(Ev::P(ch, peer::begin(client.then_some(i as u16), 0, win)));
    }
    if client {
        v.push(Ev::AttachS(92, "a", "out"));
        v.push(Ev::AttachR(93, "a", "in"));
        v.push(Ev::AttachS(94, "b", "out2"));
        v.push(Ev::AttachR(95, "b", "in2"));
    }
    for (ch, name, h, rcv) in [(1, "out", 3, true), (1, "in", 4, false), (2, "in2", 3, false), (2, "out2", 4, true)] {
        let addr = if name == "in" { "q1" } else { "q2" };
        v.push(Ev::P(ch, peer::attach(name, h, rcv, Some(addr), (!rcv).then_some(0))));
    }
    for n in ["in", "in2"] {
        v.push(Ev::Credit(n, 10))
    }
    v.push(Ev::P(1, peer::flow_l(Some(0), win, 0, 3, Some(0), 2, false)));
    v.push(Ev::P(2, peer::flow_l(Some(0), 100, 0, 4, Some(0), 1, false)));
    if n == "frag" {
        v.push(Ev::Send(1, "out", None, vec![7; 2_000], false));
        v.push(Ev::Send(2, "out", None, vec![8; 20], false));
        v.push(Ev::P(1, tr(4, Some(0), Some(vec![1]), true, false, None, vec![1; 30])));
        v.push(Ev::P(2, tr(3, Some(0), Some(vec![1]), true, false, None, vec![1; 30])));
        return (c, v);
    }
    v.push(Ev::Send(1, "out", None, vec![1], false));
    v.push(Ev::Wait(11, 1));
    v.push(Ev::Send(2, "out", Some(vec![9, 9]), vec![2], false));
    v.push(Ev::Send(3, "out", None, vec![3], false));
    v.push(Ev::Send(4, "out2", None, vec![4], false));
    v.push(Ev::Wait(14, 4));
    for id in 0..2u32 {
        v.push(Ev::P(1, tr(4, Some(id), Some(vec![id as u8]), false, false, None, vec![1])));
    }
    v.push(Ev::P(2, tr(3, Some(0), Some(vec![7]), false, false, None, vec![1])));
    if n == "gate" {
        v.push(Ev::P(1, peer::attach("gs", 5, true, Some("q1"), None)));
        v.push(Ev::P(1, peer::attach("gr", 6, false, Some("q1"), Some(0))));
    }
    if n == "closing" {
        v.push(Ev::CloseS(21, "out", false));
        v.push(Ev::CloseR(23, "in", false));
        v.push(Ev::EndSession(22, "#1"));
    }
    if n == "client-wait" {
        v.push(Ev::OpenSession(30, "t"));
        v.push(Ev::AttachS(31, "a", "p"));
        v.push(Ev::AttachR(32, "b", "q"));
        v.push(Ev::CloseS(33, "out2", false));
        v.push(Ev::Recv(34, "in"));
    }
    (c, v)
}

fn flow(f: Vec<V>) -> Perf {
    Perf::new(FLOW, f)
}
fn on(v: Option<u32>) -> V {
    v.map(V::U32).unwrap_or(V::Null)
}

/// frames to be judged for absence of effect
fn unknown(e: &Ev) -> bool {
    let Ev::P(ch, p) = e else { return false };
    if !matches!(p.code, ATTACH | FLOW | TRANSFER | DISPOSITION | DETACH | END) {
        return false;
    }
    if *ch != 1 && *ch != 2 {
        return true;
    }
    let h = if matches!(p.code, TRANSFER | DETACH) { p.u32(0) } else { None };
    h.is_some_and(|h| !(3..=6).contains(&h))
}

fn alphabet(setup: &str, full: bool) -> Vec<Ev> {
    let mut o = vec![];
    let mut p = |ch: u16, p: Perf| o.push(Ev::P(ch, p));
    let other = if setup == "gate" { 5 } else { 7 };
    // session flows
    for nii in [None, Some(0), Some(2), Some(HALF), Some(MAX)] {
        for (w, no) in [(0, 0), (MAX, MAX), (1, HALF)] {
            p(1, flow(vec![on(nii), V::U32(w), V::U32(no), V::U32(MAX)]))
        }
    }
    p(9, flow(vec![V::U32(0), V::U32(10), V::U32(0), V::U32(10)]));
    p(u16::MAX, flow(vec![V::U32(0), V::U32(10), V::U32(0), V::U32(10), V::Null, V::Null, V::Null, V::Null, V::Null, V::Bool(true)]));
    for h in [3, 4, other, MAX] {
        for (dc, cr) in [(None, 0), (None, MAX), (Some(0), MAX), (Some(MAX), 1), (Some(MAX), MAX), (Some(HALF), 1), (Some(5), 0), (Some(1), 1)] {
            p(1, flow(vec![V::U32(1), V::U32(100), V::U32(2), V::U32(100), V::U32(h), on(dc), V::U32(cr)]))
        }
        // drain, available, echo
        p(1, flow(vec![V::U32(1), V::U32(100), V::U32(2), V::U32(100), V::U32(h), V::U32(0), V::U32(3), V::U32(MAX), V::Bool(true), V::Bool(true)]));
        p(1, flow(vec![V::U32(1), V::U32(100), V::U32(2), V::U32(100), V::U32(h), V::Null, V::Null, V::Null, V::Bool(true)]));
    }
    p(9, flow(vec![V::U32(0), V::U32(10), V::U32(0), V::U32(10), V::U32(3), V::U32(0), V::U32(50)]));
    // transfers
    for h in [4, 3, 7, MAX] {
        p(1, tr(h, Some(2), Some(vec![2]), false, false, None, vec![1]));
        p(1, tr(h, Some(2), Some(vec![2]), true, false, None, vec![1; 40]));
        p(1, tr(h, None, None, false, false, None, vec![2]));
        p(1, tr(h, None, None, true, false, Some(true), vec![]));
        p(1, tr(h, Some(0), Some(vec![0]), false, false, Some(true), vec![1]));
        p(1, tr(h, Some(MAX), None, false, false, None, vec![]));
        p(1, tr(h, Some(2), Some(vec![1; 33]), false, false, None, vec![1]));
        p(1, tr(h, None, None, false, true, None, vec![]));
        p(1, tr(h, Some(3), Some(vec![]), false, true, None, vec![1]));
        p(1, tr(h, Some(HALF), Some(vec![3]), true, true, Some(false), vec![1]));
    }
    p(9, tr(4, Some(2), Some(vec![2]), false, false, None, vec![1]));
    p(2, tr(4, Some(2), Some(vec![2]), false, false, None, vec![1]));
    p(2, tr(3, Some(1), Some(vec![2]), false, false, None, vec![1]));
    // dispositions
    for role in [true, false] {
        for (f, l) in [(0, None), (0, Some(MAX)), (MAX, Some(0)), (MAX, None), (5, Some(2)), (HALF - 1, Some(HALF + 1)), (1, Some(1))] {
            for (s, st) in [(true, None), (false, Some(St::Accepted)), (true, Some(St::Rejected)), (false, Some(St::Received))] {
                p(1, disp(role, f, l, s, st))
            }
        }
    }
    p(9, disp(true, 0, Some(5), true, Some(St::Accepted)));
    // links
    for name in ["out", "new"] {
        for h in [3, 8, MAX] {
            for rcv in [true, false] {
                p(1, peer::attach(name, h, rcv, Some("q1"), (!rcv).then_some(MAX)));
                p(1, Perf::new(ATTACH, vec![V::str(name), V::U32(h), V::Bool(rcv)]));
            }
        }
    }
    p(9, peer::attach("x", 0, true, Some("q1"), None));
    p(1, peer::attach_mms(peer::attach("p", 9, true, Some("q1"), None), 1));
    p(1, peer::attach("q", 9, false, Some("q1"), Some(0)));
    for (i, h) in [3, 4, other, MAX].into_iter().enumerate() {
        p(1, peer::detach(h, i % 2 == 1));
        p(1, Perf::new(DETACH, vec![V::U32(h)]));
    }
    p(9, peer::detach(3, false));
    // sessions
    for ch in [1, 2, 9] {
        p(ch, peer::end());
    }
    p(2, Perf::new(END, vec![V::dlist(ERROR, vec![V::sym("amqp:internal-error")])]));
    let begin = |r: Option<u16>, no: u32, iw: u32, hm: u32| {
        Perf::new(BEGIN, vec![r.map(V::U16).unwrap_or(V::Null), V::U32(no), V::U32(iw), V::U32(MAX), V::U32(hm)])
    };
    p(1, begin(None, 0, 10, 10));
    p(1, begin(Some(0), 0, 10, 10));
    p(3, begin(None, MAX, MAX, 0));
    p(3, begin(Some(0), HALF, 0, 10));
    p(3, begin(Some(2), 0, 10, 10));
    p(3, begin(Some(9), 0, 10, 10));
    p(3, begin(Some(u16::MAX), 0, 10, 10));
    p(u16::MAX, begin(None, 0, 10, 10));
    // connection
    p(0, peer::close(false));
    p(5, peer::close(true));
    p(0, peer::open(&Cfg::default()));
    p(0, Perf::new(SASL_INIT, vec![V::sym("PLAIN")]));
    o.push(Ev::PBytes(AMQP_HDR.to_vec()));
    o.push(Ev::PBytes(frame_bytes(0, 9, &[])));
    o.push(Ev::PDrop);
    // the application
    if setup != "idle" && setup != "router" {
        o.extend([
            Ev::Send(50, "out", None, vec![1; 3], false),
            Ev::Send(50, "out2", None, vec![1; 3], true),
            Ev::Settle(1001, St::Accepted),
            Ev::Update(1002, St::Rejected),
            Ev::DropDelivery(1),
            Ev::Wait(52, 2),
            Ev::CloseS(51, "out", true),
            Ev::CloseR(51, "in", false),
            Ev::Credit("in", 1),
            Ev::Take(53, "in"),
            Ev::EndSession(54, "#0"),
            Ev::AttachS(55, "#0", "new"),
            Ev::AttachR(56, "#1", "new2"),
            Ev::Cancel(3),
            Ev::Ready(57, "out"),
            Ev::Ctl(0, true),
            Ev::Ctl(1, false),
            Ev::Msg(0, true),
            Ev::Close(58),
            Ev::CloseErr(59),
            Ev::Force,
        ]);
    }
    if setup == "router" {
        o.extend([Ev::Hnd(0, 0), Ev::Hnd(1, 0), Ev::Hnd(2, 3), Ev::Send(50, "out", None, vec![1], false)]);
    }
    if !full {
        o = o.into_iter().enumerate().filter(|(i, e)| !matches!(e, Ev::P(..)) || i % 4 == 1 || unknown(e) && i % 2 == 1).map(|x| x.1).collect();
    }
    o
}

struct Seen {
    down: bool,
    end: bool,
    ok_ops: Vec<String>,
    news: Vec<String>,
    outs: usize,
    begun: Vec<u16>,
    hash: DefaultHasher,
    broken: Option<String>,
}

impl Seen {
    fn collect(&mut self, w: &mut World) {
        for (_, o) in w.tap.replace(vec![]).unwrap() {
            if *TRACE {
                eprintln!("  {o:?}")
            }
            match &o {
                Obs::Out(i) => {
                    self.outs += 1;
                    match i {
                        Item::Frame(0, _, p, _) if p.code == CLOSE => self.down = true,
                        Item::Frame(0, _, p, _) if p.code == BEGIN => {
                            if let V::U16(n) = p.get(0) {
                                self.begun.push(*n)
                            }
                        }
                        _ => {}
                    }
                    if let Item::Frame(_, ch, p, _) = i {
                        (ch, p.code).hash(&mut self.hash)
                    }
                    continue;
                }
                Obs::Op(_, Res::Err(_)) | Obs::Op(999, _) => {}
                Obs::Op(..) => self.ok_ops.push(format!("{o:?}")),
                Obs::Ctl(_, Call::ProtocolError(_) | Call::Disconnected | Call::Closed) => self.down = true,
                Obs::Ctl(..) | Obs::Msg(..) | Obs::Hnd(..) | Obs::Take(..) => self.news.push(format!("{o:?}")),
                Obs::TaskEnd(_) => {
                    self.end = true;
                    self.down = true
                }
                Obs::Eof => self.down = true,
                Obs::Panic(m) => self.broken = Some(format!("panic: {m}")),
                Obs::Livelock => self.broken = Some("does not come to rest".into()),
                _ => continue,
            }
            format!("{o:?}").hash(&mut self.hash);
        }
    }
}

fn execute(cfg: &Cfg, pre: &[Ev], seq: &[Ev], poll: &mut dyn FnMut() -> bool) -> (Vec<(&'static str, String)>, u64) {
    crate::alloc::quarantine(true);
    let mut w = World::new(cfg.clone());
    w.tap = Some(vec![]);
    w.mon.enabled = false;
    let mut s = Seen {
        down: false,
        end: false,
        ok_ops: vec![],
        news: vec![],
        outs: 0,
        begun: vec![],
        hash: DefaultHasher::new(),
        broken: None,
    };
    let mut bad: Vec<(&'static str, String)> = vec![];
    w.quiesce(poll);
    for e in pre {
        w.inject(e);
        w.quiesce(poll);
    }
    s.collect(&mut w);
    if s.down || s.broken.is_some() {
        bad.push(("hostile-setup", format!("setup does not come up: {:?}", s.broken)));
    }
    s.hash = DefaultHasher::new();
    // frames before this point only refer to nothing
    let mut innocent = true;
    for (n, e) in seq.iter().enumerate() {
        s.ok_ops.clear();
        s.news.clear();
        let outs = s.outs;
        let polls = w.polls;
        let ((), mem) = crate::alloc::measure(|| {
            w.inject(e);
            w.quiesce(poll);
        });
        s.collect(&mut w);
        if s.broken.is_some() {
            break;
        }
        if mem > 4 << 20 {
            bad.push(("hostile-memory", format!("{mem} octets allocated for {}", show_ev(e))))
        }
        if w.polls - polls > 400 {
            bad.push(("hostile-work", format!("{} steps for {}", w.polls - polls, show_ev(e))))
        }
        if s.outs - outs > 60 {
            bad.push(("hostile-flood", format!("{} frames sent for {}", s.outs - outs, show_ev(e))))
        }
        innocent &= unknown(e);
        if innocent && !s.down && (!s.ok_ops.is_empty() || !s.news.is_empty()) {
            bad.push(("hostile-effect", format!("frame {n}, for nothing that exists, had an effect: {:?} {:?}", s.ok_ops, s.news)))
        }
    }
    // still up?  then it is still of use
    if s.broken.is_none() && bad.is_empty() && !s.down && w.peer.is_some() {
        let closing = seq.iter().any(|e| matches!(e, Ev::Close(_) | Ev::CloseErr(_) | Ev::Force));
        w.inject(&Ev::P(77, peer::begin(None, 0, 10)));
        w.quiesce(poll);
        s.collect(&mut w);
        // after a fatal error the calls in progress are waited for
        if !s.begun.contains(&77) {
            w.release_gates();
            w.quiesce(poll);
            s.collect(&mut w);
        }
        if s.broken.is_none() && !s.down && !closing && !s.begun.contains(&77) && !seq.iter().any(garbled) {
            bad.push(("hostile-wedged", "connection neither ended nor answers a Begin".into()))
        }
    }
    // and it can be ended
    if s.broken.is_none() && bad.is_empty() {
        w.inject(&Ev::PDrop);
        w.quiesce(poll);
        for _ in 0..6 {
            w.release_gates();
            w.quiesce(poll);
        }
        w.advance(5_000, poll);
        s.collect(&mut w);
        if s.broken.is_none() {
            if !s.end {
                bad.push(("hostile-stuck", "has not ended after the peer is gone".into()))
            }
            if !w.pending_ops.is_empty() {
                bad.push(("hostile-op", format!("still waiting after the end: {:?}", w.pending_ops)))
            }
        }
    }
    w.tap = Some(vec![]);
    w.teardown(poll);
    s.collect(&mut w);
    if let Some(m) = &s.broken {
        bad.push(("hostile-broken", m.clone()))
    }
    drop(w);
    crate::alloc::quarantine(false);
    (bad, s.hash.finish())
}

/// leaves the stream out of step
fn garbled(e: &Ev) -> bool {
    matches!(e, Ev::PBytes(b) if b[..4] == *b"AMQP")
}

pub fn parts(size: usize) -> Vec<String> {
    let mut o = vec![];
    let k = 32;
    for s in SETUPS {
        for i in 0..k {
            o.push(format!("hostile.{s}.2.{i}.{k}.f"));
            if size > 1 {
                o.push(format!("hostile.{s}.3.{i}.{k}.r"))
            }
        }
    }
    o
}

pub fn run(f: &[&str], d: &mut Drv) {
    let (depth, i, k): (usize, usize, usize) = (f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap());
    let (cfg, pre) = setup(f[1]);
    let al = alphabet(f[1], f[5] == "f");
    let mut go = |seq: &[Ev]| {
        let text = || format!("{}: {}", f[1], seq.iter().map(show_ev).collect::<Vec<_>>().join("; "));
        d.any(|found: &mut Vec<Found>| {
            let (cfg, pre, seq2) = (cfg.clone(), pre.clone(), seq.to_vec());
            let r = exec::isolated(2 << 20, move || exec::with_runtime(move |poll| execute(&cfg, &pre, &seq2, poll)));
            let h = match r {
                Ok((bad, h)) => {
                    for (rule, m) in bad {
                        found.push((rule, "C22", format!("{m}; {}", text())))
                    }
                    h
                }
                Err(m) => {
                    found.push(("panic", "*", format!("{m}; {}", text())));
                    0
                }
            };
            (Some(h), text())
        });
        d.events((pre.len() + seq.len()) as u64);
    };
    let mut seq = vec![];
    for (n, a) in al.iter().enumerate() {
        if n % k != i {
            continue;
        }
        seq.push(a.clone());
        go(&seq);
        for b in &al {
            seq.push(b.clone());
            if depth == 2 {
                go(&seq);
            } else {
                for c in &al {
                    seq.push(c.clone());
                    go(&seq);
                    seq.pop();
                }
            }
            seq.pop();
        }
        seq.pop();
    }
}
