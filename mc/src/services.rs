//! The life of the services the library creates, and what it does while they are not ready.
use std::collections::BTreeMap;

use crate::cgen::Drv;
use crate::codec::Found;
use crate::exec;
use crate::peer;
use crate::refc::{self, *};
use crate::sut::{Call, Cfg, Ev, LIB_ERR, Obs, Role, World};

type Poll<'a> = &'a mut dyn FnMut() -> bool;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    AttachIn,
    TransferIn,
    DetachIn,
    AttachOut,
    Flow,
    DetachOut,
    End,
    Begin2,
    Close,
    Drop,
    Ctl,
    Pub,
    CtlFail,
    PubFail,
    CtlErr,
    Send,
    LDetachIn,
    LDetachOut,
    LEnd,
    LClose,
}
const ALL: [S; 20] = [
    S::AttachIn,
    S::TransferIn,
    S::DetachIn,
    S::AttachOut,
    S::Flow,
    S::DetachOut,
    S::End,
    S::Begin2,
    S::Close,
    S::Drop,
    S::Ctl,
    S::Pub,
    S::CtlFail,
    S::PubFail,
    S::CtlErr,
    S::Send,
    S::LDetachIn,
    S::LDetachOut,
    S::LEnd,
    S::LClose,
];

/// may this follow
fn allowed(role: Role, h: &[S], s: S) -> bool {
    let had = |x: S| h.contains(&x);
    let n = |x: S| h.iter().filter(|y| **y == x).count();
    if had(S::Drop) || had(S::CtlFail) || had(S::PubFail) || had(S::CtlErr) {
        return false;
    }
    match s {
        S::Ctl => h.last() != Some(&S::Ctl),
        S::Pub => role == Role::Server && h.last() != Some(&S::Pub),
        S::PubFail => role == Role::Server,
        S::CtlFail | S::CtlErr | S::Drop => true,
        S::LClose => n(s) == 0,
        S::Close => n(s) == 0,
        _ if had(S::Close) || had(S::LClose) => false,
        S::Begin2 => n(s) == 0,
        S::LEnd | S::End => n(s) == 0,
        _ if had(S::End) => false,
        S::TransferIn => n(s) < 3 && !had(S::DetachIn),
        S::Flow => n(s) < 3 && !had(S::DetachOut),
        S::Send => n(s) < 2,
        s => n(s) == 0,
    }
}

#[derive(Default, Clone, PartialEq, Debug)]
struct Log {
    out: Vec<String>,
    ctl: Vec<String>,
    msg: Vec<String>,
    end: Vec<String>,
}

struct Run<'a> {
    w: World,
    poll: Poll<'a>,
    log: Log,
    svc: Vec<String>,
    hnd: Vec<(usize, Call)>,
    outs: Vec<Perf>,
    bad: Vec<String>,
    held: Vec<Vec<u8>>,
    /// hold the peer's frames back instead of keeping the services from being ready
    hold: bool,
    cuts: u32,
    frames: u32,
    ctl: bool,
    pb: bool,
    next: u32,
    flows: u32,
}

impl Run<'_> {
    fn collect(&mut self) {
        for (_, o) in self.w.tap.replace(vec![]).unwrap() {
            match o {
                Obs::Out(Item::Frame(_, ch, p, _)) => {
                    self.log.out.push(format!("{ch} {}", p.show()));
                    self.outs.push(p)
                }
                Obs::Out(Item::Bad(m)) => self.bad.push(format!("writes rubbish: {m}")),
                Obs::Panic(m) => self.bad.push(format!("panic: {m}")),
                Obs::Livelock => self.bad.push("does not come to rest".into()),
                Obs::Ctl(_, c) => self.log.ctl.push(format!("{c:?}")),
                Obs::Msg(_, c) => self.log.msg.push(format!("{c:?}")),
                Obs::Hnd(i, c) => self.hnd.push((i, c)),
                Obs::Svc(m) => {
                    if let Some(m) = m.strip_prefix('!') {
                        self.bad.push(m.to_string())
                    }
                    self.svc.push(m)
                }
                Obs::TaskEnd(r) => self.log.end.push(format!("{r:?}")),
                _ => {}
            }
        }
    }
    fn quiet(&mut self) {
        self.w.quiesce(self.poll);
        self.collect();
    }
    fn ready(&self) -> bool {
        self.ctl && self.pb
    }
    fn p(&mut self, ch: u16, p: Perf) {
        let b = refc::frame(ch, &p);
        if self.hold && !self.ready() {
            self.held.push(b);
        } else {
            self.frames += 1;
            self.w.inject(&Ev::PBytes(b));
            self.quiet()
        }
    }
    fn release(&mut self) {
        let mut b = vec![];
        for x in std::mem::take(&mut self.held) {
            b.extend(x);
            self.frames += 1;
            if self.cuts >> self.frames & 1 == 1 {
                self.w.inject(&Ev::PBytes(std::mem::take(&mut b)));
                self.quiet();
            }
        }
        if !b.is_empty() {
            self.w.inject(&Ev::PBytes(b));
        }
        self.quiet()
    }
    fn set(&mut self, key: &str, on: bool) {
        if !self.hold {
            self.w.app.set_mode(key, if on { 0 } else { 1 });
        }
        if key == "ctl" { self.ctl = on } else { self.pb = on }
        if self.hold && self.ready() { self.release() } else { self.quiet() }
    }
    fn count(&self, s: &str) -> usize {
        self.svc.iter().filter(|x| *x == s).count()
    }
}

fn start<'a>(cfg: Cfg, poll: Poll<'a>, hold: bool, cuts: u32) -> Run<'a> {
    let mut w = World::new(cfg.clone());
    w.tap = Some(vec![]);
    w.mon.enabled = false;
    for k in ["ctl", "pub"] {
        w.app.set_mode(k, 0)
    }
    let mut r = Run {
        w,
        poll,
        log: Log::default(),
        svc: vec![],
        hnd: vec![],
        outs: vec![],
        bad: vec![],
        held: vec![],
        hold,
        cuts,
        frames: 0,
        ctl: true,
        pb: true,
        next: 0,
        flows: 0,
    };
    r.quiet();
    r.w.inject(&Ev::PBytes(AMQP_HDR.to_vec()));
    r.quiet();
    r.p(0, peer::open(&cfg));
    if cfg.role == Role::Client {
        r.w.inject(&Ev::OpenSession(900, "a"));
        r.quiet();
    }
    r.p(0, peer::begin(if cfg.role == Role::Client { Some(0) } else { None }, 0, 1000));
    r
}

fn step(r: &mut Run, n: u32, s: S) {
    let ev = |r: &mut Run, e: Ev| {
        r.w.inject(&e);
        r.quiet()
    };
    match s {
        S::AttachIn => r.p(0, peer::attach("x", 5, false, Some("q"), Some(0))),
        S::AttachOut => r.p(0, peer::attach("y", 6, true, Some("q"), None)),
        S::TransferIn => {
            let id = r.next;
            r.next += 1;
            let mut p = Perf::new(TRANSFER, vec![V::U32(1), V::U32(id), V::Bin(vec![id as u8])]);
            p.payload = b"m".to_vec();
            r.p(0, p)
        }
        S::Flow => {
            r.flows += 1;
            let n = r.flows;
            r.p(0, peer::flow_l(Some(0), 1000, 0, 0, Some(0), 2 + n, false))
        }
        S::DetachIn => r.p(0, Perf::new(DETACH, vec![V::U32(1), V::Bool(true)])),
        S::DetachOut => r.p(0, Perf::new(DETACH, vec![V::U32(0), V::Bool(true)])),
        S::End => r.p(0, Perf::new(END, vec![])),
        S::Begin2 => r.p(1, peer::begin(None, 0, 1000)),
        S::Close => r.p(0, Perf::new(CLOSE, vec![])),
        S::Drop => {
            r.held.clear();
            ev(r, Ev::PDrop)
        }
        S::Ctl => {
            let on = !r.ctl;
            r.set("ctl", on)
        }
        S::Pub => {
            let on = !r.pb;
            r.set("pub", on)
        }
        S::CtlFail | S::PubFail => {
            r.w.app.set_mode(if s == S::CtlFail { "ctl" } else { "pub" }, 2);
            r.quiet();
            ev(r, Ev::PEmpty)
        }
        S::CtlErr => r.w.app.set_mode("ctl", 4),
        S::Send => ev(r, Ev::Send(n, "out", None, b"abc".to_vec(), false)),
        S::LDetachIn => ev(r, Ev::CloseR(n, "in", false)),
        S::LDetachOut => ev(r, Ev::CloseS(n, "out", false)),
        S::LEnd => {
            let Some(s) = r.w.conn().and_then(|c| c.get_session_by_local_id(0)) else { return };
            ntex_rt::spawn(async move {
                let _ = s.end().await;
            });
            r.quiet()
        }
        S::LClose => ev(r, Ev::Close(n)),
    }
}

/// the logs after every step
fn play(role: Role, seq: &[S], hold: bool, cuts: u32, poll: Poll, bad: &mut Vec<String>) -> Vec<Log> {
    let cfg = Cfg { role, auto_open: false, take: true, ..Cfg::default() };
    let mut r = start(cfg, poll, hold, cuts);
    for (n, h, rcv) in [("out", 0, true), ("in", 1, false)] {
        r.p(0, peer::attach(n, h, rcv, Some("q"), (!rcv).then_some(0)));
    }
    r.p(0, peer::flow_l(Some(0), 1000, 0, 0, Some(0), 2, false));
    r.frames = 0;
    r.log = Log::default();
    let mut logs = vec![];
    let mut failed = false;
    let mut shut = false;
    for (n, s) in seq.iter().enumerate() {
        let closed = r.outs.iter().any(|p| p.code == CLOSE);
        let ready = r.ready();
        step(&mut r, n as u32 + 1, *s);
        logs.push(r.log.clone());
        if matches!(s, S::CtlFail | S::PubFail) {
            failed = true;
            shut = closed;
            // while one of them is not ready nobody asks the other
            if !ready && !closed {
                for k in if *s == S::CtlFail { &["pub"][..] } else { &["ctl"] } {
                    r.w.app.set_mode(k, 0);
                }
                r.quiet();
            }
            // the error goes out, and nothing after it
            let c: Vec<&Perf> = r.outs.iter().filter(|p| p.code == CLOSE).collect();
            if c.len() != 1 {
                r.bad.push(format!("a service fails: {} Close frames", c.len()))
            } else if !closed && !c[0].show().contains(LIB_ERR) {
                r.bad.push(format!("a service fails: {}", c[0].show()))
            }
            if r.outs.last().map(|p| p.code) != Some(CLOSE) {
                r.bad.push("frames after Close".into())
            }
            let open = r.w.conn().map(|c| c.is_opened()).unwrap_or(false);
            if open {
                r.bad.push("still open after a service failed".into())
            }
        }
    }
    // whatever is not ready becomes so
    let fail = |k: &str| match k {
        "ctl" => seq.contains(&S::CtlFail) || seq.contains(&S::CtlErr),
        _ => seq.contains(&S::PubFail),
    };
    for k in ["ctl", "pub"] {
        if !fail(k) && !(if k == "ctl" { r.ctl } else { r.pb }) {
            r.set(k, true)
        }
    }
    logs.push(r.log.clone());
    r.w.inject(&Ev::PDrop);
    while !r.w.open_hnd().is_empty() {
        r.w.release_gates();
        r.quiet();
    }
    r.w.advance(3000, r.poll);
    r.collect();
    ended(&mut r, role, failed && !shut, seq.contains(&S::CtlFail));
    bad.append(&mut r.bad);
    logs.push(r.log.clone());
    r.w.teardown(r.poll);
    logs
}

fn ended(r: &mut Run, role: Role, failed: bool, ctl_failed: bool) {
    if r.log.end.len() != 1 {
        r.bad.push(format!("the connection ended {} times", r.log.end.len()))
    } else if failed && !r.log.end[0].contains("Service") && !r.log.ctl.iter().any(|c| c.starts_with("ProtocolError") || c.starts_with("Disconnected")) {
        let m = format!("the connection of a failed service ended with {}", r.log.end[0]);
        r.bad.push(m)
    }
    for k in if role == Role::Server { &["ctl", "pub"][..] } else { &["ctl"] } {
        if role == Role::Server && r.count(&format!("{k} created")) != 1 {
            r.bad.push(format!("{k} created {} times", r.count(&format!("{k} created"))))
        }
        if r.count(&format!("{k} shut down")) != 1 {
            r.bad.push(format!("{k} is not shut down when the connection ends"))
        }
    }
    let n = r.log.ctl.iter().filter(|c| *c == "Closed").count();
    // a service that failed cannot be told
    if n > 1 || n == 0 && !ctl_failed {
        r.bad.push(format!("the control service hears {:?}", r.log.ctl))
    }
}

fn differ(seq: &[S], a: &[Log], b: &[Log]) -> Option<String> {
    let (mut ctl, mut pb) = (true, true);
    for i in 0..=seq.len() {
        match seq.get(i) {
            Some(S::Ctl) => ctl = !ctl,
            Some(S::Pub) => pb = !pb,
            // what is unread when the transport is lost stays unread
            Some(S::Drop | S::CtlFail | S::PubFail | S::CtlErr) => return None,
            Some(_) => {}
            None => (ctl, pb) = (true, true),
        }
        let (x, y) = (&a[i], &b[i]);
        if x.out != y.out {
            return Some(format!("after step {}: sends {:?}, should have sent {:?}", i + 1, x.out, y.out));
        }
        for (n, p, q) in [("control", &x.ctl, &y.ctl), ("message", &x.msg, &y.msg)] {
            let same = if ctl && pb { p == q } else { q.starts_with(p) };
            if !same {
                return Some(format!("after step {}: the {n} service got {p:?}, should be {q:?}", i + 1));
            }
        }
    }
    None
}

// ------------------------------------------------------------------ router

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum R {
    TrA,
    TrB,
    TrC,
    ReadyA,
    FailA,
    DoneA,
    DoneLastA,
    DoneB,
    AttachC,
    CreateC,
    FailC,
    DetachC,
    LDetachC,
    DetachA,
    DetachB,
    LDetachA,
    End,
    Close,
    Drop,
}
const RALL: [R; 19] = [
    R::TrA,
    R::TrB,
    R::TrC,
    R::ReadyA,
    R::FailA,
    R::DoneA,
    R::DoneLastA,
    R::DoneB,
    R::AttachC,
    R::CreateC,
    R::FailC,
    R::DetachC,
    R::LDetachC,
    R::DetachA,
    R::DetachB,
    R::LDetachA,
    R::End,
    R::Close,
    R::Drop,
];
/// the kinds of router: handlers take any number of calls, one at a time, or take their time to be created;
/// or the control service takes its time to let the link in
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Any,
    One,
    Late,
    Slow,
}
fn rallowed(k: K, h: &[R], s: R) -> bool {
    let had = |x: R| h.contains(&x);
    let n = |x: R| h.iter().filter(|y| **y == x).count();
    let gone = had(R::End);
    let late = matches!(k, K::Late | K::Slow);
    if late {
        match s {
            R::CreateC | R::FailC => return had(R::AttachC) && !had(R::CreateC) && !had(R::FailC),
            R::TrB | R::FailA | R::DoneA | R::DoneLastA | R::DoneB | R::LDetachA | R::DetachB => return false,
            R::TrA if n(s) > 0 => return false,
            _ => {}
        }
    }
    if had(R::Drop) || had(R::Close) {
        return false;
    }
    match s {
        R::TrA => n(s) < 4 && !gone && !had(R::DetachA) && !had(R::LDetachA),
        R::TrB => n(s) < 2 && !gone && !had(R::DetachB),
        R::TrC => n(s) < 2 && !gone && had(R::AttachC) && !had(R::DetachC) && (!late || had(R::CreateC)),
        R::ReadyA => h.last() != Some(&s),
        R::FailA => n(s) == 0,
        R::DoneA => n(R::DoneA) + n(R::DoneLastA) < n(R::TrA),
        R::DoneLastA => k == K::Any && n(R::DoneA) + n(R::DoneLastA) + 1 < n(R::TrA),
        R::DoneB => n(s) < n(R::TrB),
        R::Close | R::Drop => true,
        R::CreateC | R::FailC => false,
        R::DetachC => late && n(s) == 0 && !gone && had(R::AttachC) && !had(R::FailC),
        R::LDetachC => late && n(s) == 0 && !gone && had(R::AttachC) && !had(R::DetachC) && !had(R::FailC),
        R::LDetachA => n(s) == 0 && !gone && !had(R::DetachA),
        s => n(s) == 0 && !gone,
    }
}

#[derive(Default)]
struct L {
    ph: u32,
    key: &'static str,
    exists: bool,
    /// the peer has detached it, or its session is gone
    gone: bool,
    /// this side detaches it
    local: bool,
    arrived: Vec<u8>,
    done: Vec<u8>,
}

fn route(kind: K, seq: &[R], poll: Poll) -> (Vec<String>, u64) {
    let cap = kind == K::One;
    let slow = kind == K::Slow;
    let gate: fn(&Call) -> bool = |c| matches!(c, Call::AttachReceiver(n, ..) if n == "c");
    let never: fn(&Call) -> bool = |_| false;
    let cfg = Cfg {
        router: true,
        gate_hnd: true,
        gate_ctl: if slow { gate } else { never },
        auto_open: false,
        take: false,
        ..Cfg::default()
    };
    let mut r = start(cfg, poll, false, 0);
    let on = if cap { 3 } else { 0 };
    let mut ls: BTreeMap<char, L> = Default::default();
    for (c, ph, key) in [('a', 2u32, "q1:a"), ('b', 1, "t:b"), ('c', 4, "q2:c")] {
        let mode = match c {
            'a' => on,
            'c' if kind == K::Late => 5,
            _ => 0,
        };
        r.w.app.set_mode(key, mode);
        ls.insert(c, L { ph, key, ..L::default() });
    }
    let attach = |r: &mut Run, ls: &mut BTreeMap<char, L>, c: char| {
        let l = ls.get_mut(&c).unwrap();
        l.exists = true;
        let (n, a) = match c {
            'a' => ("a", "q1"),
            'b' => ("b", "t/5"),
            _ => ("c", "q2"),
        };
        let ph = l.ph;
        r.p(0, peer::attach(n, ph, false, Some(a), Some(0)));
    };
    attach(&mut r, &mut ls, 'a');
    attach(&mut r, &mut ls, 'b');
    let mut ready = true;
    let mut failed = false;
    let mut over = false;
    let mut id = 0u32;
    let mut nbad = 0;
    for (n, s) in seq.iter().enumerate() {
        let before: BTreeMap<char, usize> = ls.iter().map(|(c, l)| (*c, calls(&r, l.key).len())).collect();
        let tr = |r: &mut Run, ls: &mut BTreeMap<char, L>, id: &mut u32, c: char| {
            let l = ls.get_mut(&c).unwrap();
            let mut p = Perf::new(TRANSFER, vec![V::U32(l.ph), V::U32(*id), V::Bin(vec![*id as u8])]);
            p.payload = vec![*id as u8];
            if !l.gone && !l.local {
                l.arrived.push(*id as u8);
            }
            *id += 1;
            r.p(0, p)
        };
        let done = |r: &mut Run, ls: &mut BTreeMap<char, L>, c: char, last: bool| {
            let l = ls.get_mut(&c).unwrap();
            let open = r.w.open_hnd();
            let mut v: Vec<(usize, u8)> = calls(r, l.key).into_iter().filter(|x| open.contains(&x.0)).collect();
            if last {
                v.reverse()
            }
            let Some((i, m)) = v.first().copied() else { return };
            if !l.gone && !l.local {
                l.done.push(m);
            }
            r.w.inject(&Ev::Hnd(i, 0));
            r.quiet()
        };
        match s {
            R::TrA => tr(&mut r, &mut ls, &mut id, 'a'),
            R::TrB => tr(&mut r, &mut ls, &mut id, 'b'),
            R::TrC => tr(&mut r, &mut ls, &mut id, 'c'),
            R::ReadyA => {
                if !failed {
                    ready = !ready;
                    r.w.app.set_mode("q1:a", if ready { on } else { 1 });
                    r.quiet()
                }
            }
            R::FailA => {
                failed = true;
                ready = false;
                r.w.app.set_mode("q1:a", 2);
                r.quiet();
                let l = &ls[&'a'];
                if !l.gone && !l.local && l.arrived.len() == before[&'a'] {
                    tr(&mut r, &mut ls, &mut id, 'a');
                }
                let l = ls.get_mut(&'a').unwrap();
                if !l.gone && !l.local {
                    l.local = true;
                    let d: Vec<String> = r.outs.iter().filter(|p| p.code == DETACH).map(|p| p.show()).collect();
                    if d.len() != 1 + seq[..n].contains(&R::DetachB) as usize || !d.last().unwrap().contains("detach-forced") {
                        r.bad.push(format!("the handler is not able to go on: {d:?}"))
                    }
                }
            }
            R::DoneA => done(&mut r, &mut ls, 'a', false),
            R::DoneLastA => done(&mut r, &mut ls, 'a', true),
            R::DoneB => done(&mut r, &mut ls, 'b', false),
            R::AttachC => attach(&mut r, &mut ls, 'c'),
            R::CreateC | R::FailC => {
                if slow {
                    if let Some(i) = r.w.open_ctl().first().copied() {
                        r.w.inject(&Ev::Ctl(i, *s == R::CreateC));
                    }
                } else {
                    r.w.app.set_mode("q2:c", if *s == R::CreateC { 0 } else { 6 });
                }
                r.quiet();
                let l = ls.get_mut(&'c').unwrap();
                let (c, d) = (r.count("q2:c created"), r.count("q2:c shut down"));
                let any = slow && (l.gone || l.local || over) && c == 0;
                if c != (*s == R::CreateC) as usize && !any {
                    r.bad.push(format!("q2:c created {c} times"))
                }
                if d > c || d < c && (l.gone || l.local) {
                    r.bad.push(format!("q2:c, created after its link is gone, shut down {d} times"))
                }
                if *s == R::FailC && !over && !l.gone && !l.local {
                    l.local = true;
                    let d: Vec<String> = r.outs.iter().filter(|p| p.code == DETACH).map(|p| p.show()).collect();
                    if !d.last().is_some_and(|d| d.contains(if slow { LIB_ERR } else { "detach-forced" })) {
                        r.bad.push(format!("the handler cannot be created: {d:?}"))
                    }
                }
            }
            R::LDetachC => {
                ls.get_mut(&'c').unwrap().local = true;
                r.w.inject(&Ev::CloseR(n as u32 + 1, "c", false));
                r.quiet()
            }
            R::DetachA | R::DetachB | R::DetachC => {
                let c = match s {
                    R::DetachA => 'a',
                    R::DetachB => 'b',
                    _ => 'c',
                };
                let l = ls.get_mut(&c).unwrap();
                l.gone = true;
                let (key, ph) = (l.key, l.ph);
                r.p(0, Perf::new(DETACH, vec![V::U32(ph), V::Bool(true)]));
                if r.count(&format!("{key} shut down")) != r.count(&format!("{key} created")) {
                    r.bad.push(format!("{key} is not shut down when its link is detached"))
                }
            }
            R::LDetachA => {
                ls.get_mut(&'a').unwrap().local = true;
                r.w.inject(&Ev::CloseR(n as u32 + 1, "a", false));
                r.quiet()
            }
            R::End => {
                let was: Vec<bool> = ls.values().map(|l| !l.exists).collect();
                for l in ls.values_mut() {
                    l.gone = true
                }
                r.p(0, Perf::new(END, vec![]));
                for (l, was) in ls.values().zip(was) {
                    if !was && r.count(&format!("{} shut down", l.key)) != r.count(&format!("{} created", l.key)) {
                        r.bad.push(format!("{} is not shut down when its session ends", l.key))
                    }
                }
            }
            R::Close => {
                over = true;
                r.p(0, Perf::new(CLOSE, vec![]))
            }
            R::Drop => {
                over = true;
                r.w.inject(&Ev::PDrop);
                r.quiet()
            }
        }
        for (c, l) in &ls {
            if !l.exists || over {
                continue;
            }
            let got: Vec<u8> = calls(&r, l.key).into_iter().map(|x| x.1).collect();
            if l.gone || l.local {
                if r.count(&format!("{} shut down", l.key)) != r.count(&format!("{} created", l.key)) {
                    r.bad.push(format!("{} is not shut down when its link is gone", l.key))
                }
                if !l.arrived.starts_with(&got) {
                    r.bad.push(format!("{}: called with {got:?}, arrived {:?}", l.key, l.arrived))
                }
                continue;
            }
            let n = match c {
                'a' if !ready => before[c],
                'a' if cap => l.arrived.len().min(l.done.len() + 1),
                _ => l.arrived.len(),
            };
            if got != l.arrived[..n] {
                r.bad.push(format!("{}: called with {got:?}, should be {:?}", l.key, &l.arrived[..n]))
            }
        }
        // what the handlers are done with is settled
        if !over {
            let mut want: Vec<u8> = ls.values().flat_map(|l| l.done.clone()).collect();
            let mut got: Vec<u8> = r
                .outs
                .iter()
                .filter(|p| p.code == DISPOSITION)
                .filter_map(|p| match p.f.get(1) {
                    Some(V::U32(n)) => Some(*n as u8),
                    _ => None,
                })
                .collect();
            want.sort();
            got.sort();
            if want != got {
                r.bad.push(format!("settled {got:?}, should be {want:?}"))
            }
        }
        if r.bad.len() > nbad {
            nbad = r.bad.len();
            break;
        }
    }
    r.w.inject(&Ev::PDrop);
    r.quiet();
    if !failed {
        r.w.app.set_mode("q1:a", 0);
        r.quiet();
    }
    if !seq.contains(&R::FailC) && !slow {
        r.w.app.set_mode("q2:c", 0);
        r.quiet();
    }
    while !r.w.open_hnd().is_empty() {
        r.w.release_gates();
        r.quiet();
    }
    r.w.advance(3000, r.poll);
    r.collect();
    if r.log.end.len() != 1 {
        r.bad.push(format!("the connection ended {} times", r.log.end.len()))
    }
    for l in ls.values() {
        let (c, d) = (r.count(&format!("{} created", l.key)), r.count(&format!("{} shut down", l.key)));
        let any = slow && l.key == "q2:c" && c == 0;
        if c != (l.exists && !(l.key == "q2:c" && seq.contains(&R::FailC))) as usize && !any {
            r.bad.push(format!("{} created {c} times", l.key))
        }
        if d != c {
            r.bad.push(format!("{} is not shut down when the connection ends", l.key))
        }
    }
    let bad = std::mem::take(&mut r.bad);
    let h = hash(&(&r.log.out, &r.log.ctl, &r.svc));
    r.w.teardown(r.poll);
    (bad, h)
}

fn calls(r: &Run, key: &str) -> Vec<(usize, u8)> {
    r.hnd
        .iter()
        .filter_map(|(i, c)| match c {
            Call::HCall(k, m) if k == key => Some((*i, m.id as u8)),
            _ => None,
        })
        .collect()
}

fn hash(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn seqs<T: Copy>(all: &[T], len: usize, ok: &dyn Fn(&[T], T) -> bool, f: &mut dyn FnMut(&[T])) {
    fn go<T: Copy>(all: &[T], len: usize, ok: &dyn Fn(&[T], T) -> bool, v: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        let mut leaf = true;
        if v.len() < len {
            for s in all {
                if ok(v, *s) {
                    leaf = false;
                    v.push(*s);
                    go(all, len, ok, v, f);
                    v.pop();
                }
            }
        }
        // what is shorter is part of what is longer
        if leaf {
            f(v)
        }
    }
    go(all, len, ok, &mut vec![], f)
}

pub fn parts(size: usize) -> Vec<String> {
    let mut o = vec![];
    let k = [8, 40, 400][size.clamp(1, 3) - 1];
    for w in ["server", "client", "router", "router1", "routerc", "routers"] {
        for i in 0..k {
            let n = size + if w.starts_with('r') { 3 } else { 2 };
            o.push(format!("svc.{w}.{i}.{k}.{n}"))
        }
    }
    o
}

pub fn run(f: &[&str], d: &mut Drv) {
    let (i, k): (u64, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap());
    let len: usize = f[4].parse().unwrap();
    let mut n = 0u64;
    let mut mine = || {
        n += 1;
        n % k == i
    };
    match f[1] {
        "server" | "client" => {
            let role = if f[1] == "server" { Role::Server } else { Role::Client };
            seqs(&ALL, len, &|h, s| allowed(role, h, s), &mut |seq| {
                if mine() {
                    let seq = seq.to_vec();
                    d.any(|found| conn_case(role, seq, found));
                    d.events(len as u64);
                }
            })
        }
        _ => {
            let kind = match f[1] {
                "router1" => K::One,
                "routerc" => K::Late,
                "routers" => K::Slow,
                _ => K::Any,
            };
            seqs(&RALL, len, &|h, s| rallowed(kind, h, s), &mut |seq| {
                if mine() {
                    let seq = seq.to_vec();
                    d.any(|found| {
                        let text = format!("{seq:?}");
                        let r = exec::isolated(2 << 20, move || exec::with_runtime(move |poll| route(kind, &seq, poll)));
                        report(r.map(|(b, h)| (b, h)), text, found)
                    });
                    d.events(len as u64);
                }
            })
        }
    }
}

fn conn_case(role: Role, seq: Vec<S>, found: &mut Vec<Found>) -> (Option<u64>, String) {
    let text = format!("{role:?} {seq:?}");
    let go = |hold, cuts| {
        let seq = seq.clone();
        exec::isolated(2 << 20, move || {
            exec::with_runtime(move |poll| {
                let mut bad = vec![];
                let l = play(role, &seq, hold, cuts, poll, &mut bad);
                (l, bad)
            })
        })
    };
    let r = go(false, 0).and_then(|(a, mut bad)| {
        if seq.iter().any(|s| matches!(s, S::Ctl | S::Pub)) {
            let mut first = None;
            let mut same = false;
            let n = seq.iter().filter(|s| !matches!(s, S::Ctl | S::Pub)).count();
            // how much of what waits is read at once is the transport's business
            for cuts in 0..1u32 << n {
                match differ(&seq, &a, &go(true, cuts << 1)?.0) {
                    None => {
                        same = true;
                        break;
                    }
                    Some(m) => {
                        first.get_or_insert(m);
                    }
                }
            }
            if !same {
                bad.extend(first)
            }
        }
        let h = hash(&a.iter().map(|l| (l.out.clone(), l.ctl.clone(), l.msg.clone())).collect::<Vec<_>>());
        Ok((bad, h))
    });
    report(r, text, found)
}

fn report(r: Result<(Vec<String>, u64), String>, text: String, found: &mut Vec<Found>) -> (Option<u64>, String) {
    match r {
        Ok((bad, h)) => {
            for m in bad {
                found.push(("service", "C25", format!("{m}; {text}")))
            }
            (Some(h), text)
        }
        Err(m) => {
            found.push(("panic", "*", format!("{m}; {text}")));
            (None, text)
        }
    }
}
