//! What the application sets is what the peer gets, what the peer says is what the
//! application is shown: every field of every frame, through every way there is.
use std::cell::RefCell;
use std::rc::Rc;

use ntex_amqp::codec::protocol::{self as pr, DeliveryState, Frame, ProtocolId};
use ntex_amqp::codec::types::{Multiple, Symbol, Variant};
use ntex_amqp::codec::{AmqpCodec, AmqpFrame};
use ntex_amqp::error::AmqpProtocolError;
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ControlFrameKind, Delivery, ReceiverLink, SenderLink, Session};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::Decoder;

use crate::cgen::{Drv, vals};
use crate::codec::{Found, S, Ty, by_code, composite};
use crate::exec;
use crate::peer;
use crate::refc::{self, *};
use crate::sut::{Cfg, Ev, Obs, Role, Seen, TWEAK, World};

type Poll<'a> = &'a mut dyn FnMut() -> bool;

#[derive(Clone, Debug)]
enum Case {
    OpenOut(Role, Vec<u8>),
    OpenIn(Vec<V>),
    BeginOut(Role, Vec<u8>, bool),
    BeginAnswer(Role, Vec<V>),
    BeginIn(Vec<V>),
    /// builder calls of a sender or receiver
    AttachOut(Role, bool, Vec<u8>),
    AttachFrame(bool, Vec<V>),
    AttachAnswer(bool, Vec<V>),
    /// peer receives; with a router; what the application changes
    AttachIn(bool, bool, Vec<V>, Vec<u8>),
    FlowIn(Vec<V>),
    /// of a sending link; error; closed; the application waits
    DetachIn(bool, V, bool, bool),
    DetachOut(u8, V),
    EndIn(V),
    CloseIn(V),
    DispIn(V, bool),
    DispOut(u8, V),
    TransferIn(Vec<V>),
    TransferOut(Vec<u8>),
}

fn full(code: u64, f: &[V]) -> Option<V> {
    composite(&V::dlist(code, f.to_vec()), &[code]).ok()
}
fn at(v: &V, i: usize) -> V {
    match v {
        V::Desc(_, l) => match &**l {
            V::List(l) => l.get(i).cloned().unwrap_or(V::Null),
            _ => V::Null,
        },
        _ => V::Null,
    }
}
fn with(v: &V, i: usize, x: V) -> V {
    match v {
        V::Desc(d, l) => match &**l {
            V::List(l) => {
                let mut l = l.clone();
                l[i] = x;
                V::Desc(d.clone(), Box::new(V::List(l)))
            }
            _ => v.clone(),
        },
        _ => v.clone(),
    }
}
/// no map at all is as good as an empty one
fn same(a: &V, b: &V) -> bool {
    let nil = |v: &V| v.is_null() || matches!(v, V::Map(m) if m.is_empty()) || matches!(v, V::Arr(m) if m.is_empty());
    a == b || nil(a) && nil(b)
}

/// the library's value of a frame
fn de(code: u64, f: &[V]) -> Option<Frame> {
    let mut b = BytesMut::new();
    b.extend_from_slice(&refc::frame(0, &Perf::new(code, f.to_vec())));
    let f: AmqpFrame = AmqpCodec::<AmqpFrame>::new().decode(&mut b).ok()??;
    Some(f.into_parts().1)
}
fn error(v: &V) -> Option<pr::Error> {
    match de(END, &[v.clone()])? {
        Frame::End(e) => e.error,
        _ => None,
    }
}
fn state(v: &V) -> Option<DeliveryState> {
    match de(DISPOSITION, &[V::Bool(true), V::U32(0), V::Null, V::Null, v.clone()])? {
        Frame::Disposition(d) => d.state().cloned(),
        _ => None,
    }
}
fn caps(l: &[&'static str]) -> pr::Symbols {
    Multiple(l.iter().map(|s| Symbol::from(*s)).collect())
}
fn vsyms(l: &[&str]) -> V {
    V::Arr(l.iter().map(|s| V::sym(s)).collect())
}

/// a result an application may get
fn res<T>(r: &Result<T, AmqpProtocolError>) -> V {
    match r {
        Ok(_) => V::sym("ok"),
        Err(e) => err(e),
    }
}
fn err(e: &AmqpProtocolError) -> V {
    match e {
        AmqpProtocolError::LinkDetached(e) => V::List(vec![V::sym("detached"), e.s()]),
        AmqpProtocolError::SessionEnded(e) => V::List(vec![V::sym("ended"), e.s()]),
        AmqpProtocolError::Closed(e) => V::List(vec![V::sym("closed"), e.s()]),
        e => V::List(vec![V::sym("other"), V::Str(format!("{e:?}"))]),
    }
}
fn tagged(t: &str, e: &V) -> V {
    V::List(vec![V::sym(t), e.clone()])
}

type Log = Rc<RefCell<Vec<(String, V)>>>;

struct Run<'a> {
    w: World,
    poll: Poll<'a>,
    outs: Vec<(u16, Perf)>,
    seen: Log,
    broken: Option<String>,
    bad: Vec<String>,
    fail: Rc<RefCell<Option<(u8, pr::Error)>>>,
    mods: Rc<RefCell<Vec<u8>>>,
}

impl Run<'_> {
    fn collect(&mut self) {
        for (_, o) in self.w.tap.replace(vec![]).unwrap() {
            match o {
                Obs::Out(Item::Frame(0, ch, p, _)) => self.outs.push((ch, p)),
                Obs::Out(Item::Bad(m)) => self.broken = Some(format!("writes rubbish: {m}")),
                Obs::Panic(m) => self.broken = Some(format!("panic: {m}")),
                Obs::Livelock => self.broken = Some("does not come to rest".into()),
                _ => {}
            }
        }
    }
    fn quiet(&mut self) {
        self.w.quiesce(self.poll);
        self.collect();
    }
    fn ev(&mut self, e: Ev) {
        self.w.inject(&e);
        self.quiet();
    }
    fn p(&mut self, code: u64, f: Vec<V>) {
        self.ev(Ev::P(0, Perf::new(code, f)))
    }
    /// the last frame of that kind, with everything it leaves out
    fn last(&mut self, code: u64) -> Option<V> {
        let p = self.outs.iter().rev().find(|x| x.1.code == code)?.1.clone();
        match full(code, &p.f) {
            Some(v) => Some(v),
            None => {
                self.bad.push(format!("no valid frame: {}", p.show()));
                None
            }
        }
    }
    fn count(&self, code: u64) -> usize {
        self.outs.iter().filter(|x| x.1.code == code).count()
    }
    fn spawn<T: 'static>(&self, label: &str, f: impl Future<Output = T> + 'static, show: impl FnOnce(T) -> V + 'static) {
        let (l, label) = (self.seen.clone(), label.to_string());
        ntex_rt::spawn(async move {
            let r = f.await;
            let v = show(r);
            l.borrow_mut().push((label, v));
        });
    }
    fn got(&self, label: &str) -> Option<V> {
        self.seen.borrow().iter().rev().find(|x| x.0 == label).map(|x| x.1.clone())
    }
    /// what was shown to the application
    fn shown(&mut self, label: &str, want: &V) {
        match self.got(label) {
            Some(v) if same(&v, want) => {}
            Some(v) => self.bad.push(format!("{label} shows {}, should be {}", show(&v), show(want))),
            None => self.bad.push(format!("{label}: nothing shown, should be {}", show(want))),
        }
    }
    fn eq(&mut self, what: &str, got: &V, want: &V) {
        if !same(got, want) {
            self.bad.push(format!("{what} is {}, should be {}", show(got), show(want)))
        }
    }
    /// fields of the frame as it went out
    fn sent(&mut self, code: u64, want: &[(usize, V)]) {
        let Some(v) = self.last(code) else {
            self.bad.push(format!("no {} sent", name(code)));
            return;
        };
        for (i, x) in want {
            let n = by_code(code).unwrap().f[*i].n;
            self.eq(&format!("{n} of {}", name(code)), &at(&v, *i), x)
        }
    }
    fn session(&self) -> Option<Session> {
        self.w.conn()?.get_session_by_local_id(0)
    }
    fn sender(&self) -> Option<SenderLink> {
        self.w.app_inner().senders.get("out").cloned()
    }
    fn receiver(&self) -> Option<ReceiverLink> {
        self.w.app_inner().receivers.get("in").cloned()
    }

    /// connection up
    fn open(&mut self, open: Perf) {
        self.quiet();
        self.ev(Ev::PBytes(AMQP_HDR.to_vec()));
        self.ev(Ev::P(0, open));
    }
    fn begin(&mut self, role: Role) {
        if role == Role::Client {
            self.ev(Ev::OpenSession(900, "a"));
        }
        self.ev(Ev::P(0, peer::begin(if role == Role::Client { Some(0) } else { None }, 0, 1000)));
    }
    /// links of the peer's: it receives on 0, sends on 1
    fn links(&mut self) {
        for (n, h, rcv) in [("out", 0, true), ("in", 1, false)] {
            self.ev(Ev::P(0, peer::attach(n, h, rcv, Some("q"), (!rcv).then_some(0))));
        }
    }
    fn credit(&mut self, n: u32) {
        self.ev(Ev::P(0, peer::flow_l(Some(0), 1000, 0, 0, Some(0), n, false)));
    }
    fn deliver(&mut self, f: &[V]) {
        let mut p = Perf::new(TRANSFER, f.to_vec());
        p.payload = b"body".to_vec();
        self.ev(Ev::P(0, p));
    }
    fn up(&mut self, role: Role) {
        let o = peer::open(&self.w.app.cfg.clone());
        self.open(o);
        self.begin(role);
        if self.session().is_none() {
            self.broken.get_or_insert("no session".into());
        }
    }
}

fn hook(r: &Run) {
    let (seen, fail, mods) = (r.seen.clone(), r.fail.clone(), r.mods.clone());
    let h = Rc::new(move |s: Seen<'_>| {
        let log = |l: &str, v: V| seen.borrow_mut().push((l.to_string(), v));
        let no = |n: u8| fail.borrow().as_ref().filter(|f| f.0 == n).map(|f| f.1.clone());
        match s {
            Seen::Open(o) => {
                log("the handshake's Open", o.frame().s());
                let c = o.remote_config();
                log(
                    "the handshake's remote config",
                    V::List(vec![V::U32(c.max_frame_size), V::U16(c.channel_max), V::U32(c.idle_time_out), c.hostname.s(), c.offered_capabilities.s(), c.desired_capabilities.s()]),
                );
                None
            }
            Seen::Link(l) => {
                log("the router's Attach", l.frame().s());
                None
            }
            Seen::Msg(Message::Attached(a, l)) => {
                log("the message service's Attach", a.s());
                for m in mods.borrow().iter() {
                    if *m == 9 {
                        l.set_max_message_size(5)
                    }
                }
                no(6)
            }
            Seen::Msg(Message::Transfer(_)) => no(7),
            Seen::Msg(_) => None,
            Seen::Ctl(k) => match k {
                ControlFrameKind::AttachSender(a, w, l) => {
                    log("the control service's Attach", a.s());
                    w.with(|a| change(a, &mods.borrow()));
                    if mods.borrow().contains(&8) {
                        l.set_max_message_size(1000)
                    }
                    no(4)
                }
                ControlFrameKind::AttachReceiver(a, w, l) => {
                    log("the control service's Attach", a.s());
                    w.with(|a| change(a, &mods.borrow()));
                    if mods.borrow().contains(&8) {
                        l.set_max_message_size(1000)
                    }
                    no(5)
                }
                ControlFrameKind::Flow(f, _) => {
                    log("the control service's Flow", f.s());
                    no(8)
                }
                ControlFrameKind::LocalDetachSender(d, _) | ControlFrameKind::LocalDetachReceiver(d, _) => {
                    log("the control service's own Detach", d.s());
                    None
                }
                ControlFrameKind::RemoteDetachSender(d, _) | ControlFrameKind::RemoteDetachReceiver(d, _) => {
                    log("the control service's Detach", d.s());
                    None
                }
                ControlFrameKind::ProtocolError(e) => {
                    log("the control service's error", err(e));
                    None
                }
                _ => None,
            },
        }
    });
    r.w.app_inner().hook = Some(h);
}

/// what the application changes in the answer to an Attach
fn change(a: &mut pr::Attach, mods: &[u8]) {
    for m in mods {
        match m {
            0 => {
                a.get_properties_mut().insert(Symbol::from("k"), Variant::Uint(1));
            }
            1 => *a.offered_capabilities_mut() = Some(caps(&["a"])),
            2 => {
                if let Some(t) = a.target_mut() {
                    t.address = Some(ByteString::from_static("new"))
                }
            }
            3 => {
                if let Some(t) = a.source_mut() {
                    t.address = Some(ByteString::from_static("new"))
                }
            }
            4 => *a.snd_settle_mode_mut() = pr::SenderSettleMode::Settled,
            5 => *a.rcv_settle_mode_mut() = pr::ReceiverSettleMode::Second,
            6 => *a.desired_capabilities_mut() = Some(caps(&["d", "e"])),
            7 => {
                a.get_properties_mut().insert(Symbol::from("k"), Variant::String("x".into()));
            }
            _ => {}
        }
    }
}
const MODS: u8 = 10;
/// the same for the expected frame
fn changed(mut v: V, mods: &[u8]) -> V {
    for m in mods {
        v = match m {
            0 => with(&v, 13, V::Map(vec![(V::sym("k"), V::U32(1))])),
            1 => with(&v, 11, vsyms(&["a"])),
            2 if !at(&v, 6).is_null() => with(&v, 6, with(&at(&v, 6), 0, V::str("new"))),
            3 if !at(&v, 5).is_null() => with(&v, 5, with(&at(&v, 5), 0, V::str("new"))),
            4 => with(&v, 3, V::U8(1)),
            5 => with(&v, 4, V::U8(1)),
            6 => with(&v, 12, vsyms(&["d", "e"])),
            7 => with(&v, 13, V::Map(vec![(V::sym("k"), V::str("x"))])),
            _ => v,
        }
    }
    v
}

const CFG_OPS: u8 = 15;
fn tweak(mut c: AmqpServiceConfig, seq: &[u8]) -> AmqpServiceConfig {
    for o in seq {
        c = match o {
            0 => c.set_max_frame_size(512),
            1 => c.set_max_frame_size(70_000),
            2 => c.set_channel_max(0),
            3 => c.set_channel_max(65_535),
            4 => c.set_idle_timeout(0),
            5 => c.set_idle_timeout(7),
            6 => c.set_idle_timeout(65_535),
            7 => c.set_hostname("h1"),
            8 => c.set_hostname(""),
            9 => c.set_offered_capabilities(caps(&["a"])),
            10 => c.set_offered_capabilities(caps(&["b", "c"])),
            11 => c.set_desired_capabilities(caps(&["d"])),
            12 => c.set_desired_capabilities(caps(&["b", "a"])),
            13 => c.set_max_size(100_000),
            _ => c.set_handshake_timeout(ntex_util::time::Seconds(9)),
        }
    }
    c
}
fn tweaked(seq: &[u8]) -> Vec<(usize, V)> {
    let mut f = vec![(1, V::Null), (2, V::U32(65_535)), (3, V::U16(1024)), (4, V::U32(120_000)), (5, V::Null), (6, V::Null), (7, V::Null), (8, V::Null), (9, V::Null)];
    for o in seq {
        let (i, v) = match o {
            0 => (2, V::U32(512)),
            1 => (2, V::U32(70_000)),
            2 => (3, V::U16(0)),
            3 => (3, V::U16(65_535)),
            4 => (4, V::Null),
            5 => (4, V::U32(7_000)),
            6 => (4, V::U32(65_535_000)),
            7 => (1, V::str("h1")),
            8 => (1, V::str("")),
            9 => (7, vsyms(&["a"])),
            10 => (7, vsyms(&["b", "c"])),
            11 => (8, vsyms(&["d"])),
            12 => (8, vsyms(&["b", "a"])),
            _ => continue,
        };
        f[i - 1].1 = v;
    }
    f
}

fn put(m: &mut V, k: &str, v: Option<V>) {
    if !matches!(m, V::Map(_)) {
        *m = V::Map(vec![])
    }
    let V::Map(l) = m else { return };
    l.retain(|x| x.0 != V::sym(k));
    if let Some(v) = v {
        l.push((V::sym(k), v))
    }
    *m = crate::codec::map(l.clone());
}

const BEGIN_OPS: u8 = 8;
const SND_OPS: u8 = 11;
const RCV_OPS: u8 = 12;

fn src(addr: &str) -> Vec<V> {
    vec![V::str(addr)]
}

fn execute(c: &Case, poll: Poll) -> Vec<String> {
    let mut role = Role::Server;
    let mut router = false;
    match c {
        Case::OpenOut(r, _) | Case::BeginOut(r, ..) | Case::BeginAnswer(r, _) | Case::AttachOut(r, ..) => role = *r,
        Case::AttachIn(_, r, ..) => router = *r,
        _ => {}
    }
    let cfg = Cfg { role, router, auto_open: false, take: false, ..Cfg::default() };
    let seq = if let Case::OpenOut(_, s) = c { Some(s.clone()) } else { None };
    TWEAK.with(|t| *t.borrow_mut() = seq.map(|s| Box::new(move |_| tweak(AmqpServiceConfig::new(), &s)) as _));
    let mut w = World::new(cfg.clone());
    w.tap = Some(vec![]);
    w.mon.enabled = false;
    let mut r = Run {
        w,
        poll,
        outs: vec![],
        seen: Default::default(),
        broken: None,
        bad: vec![],
        fail: Default::default(),
        mods: Default::default(),
    };
    hook(&r);
    body(c, &cfg, &mut r);
    let mut bad = std::mem::take(&mut r.bad);
    if let Some(b) = r.broken.take() {
        bad.push(b)
    }
    r.w.tap = Some(vec![]);
    r.w.app_inner().hook = None;
    r.w.teardown(r.poll);
    TWEAK.with(|t| *t.borrow_mut() = None);
    bad
}

fn body(c: &Case, cfg: &Cfg, r: &mut Run) {
    let role = cfg.role;
    match c {
        Case::OpenOut(_, seq) => {
            r.open(peer::open(cfg));
            r.sent(OPEN, &tweaked(seq));
            let id = r.last(OPEN).map(|o| at(&o, 0));
            if !matches!(&id, Some(V::Str(s)) if !s.is_empty()) {
                r.bad.push(format!("container-id {id:?}"))
            }
        }
        Case::OpenIn(f) => {
            r.open(Perf::new(OPEN, f.clone()));
            let Some(v) = full(OPEN, f) else { return };
            r.shown("the handshake's Open", &v);
            let idle = if at(&v, 4).is_null() { V::U32(0) } else { at(&v, 4) };
            r.shown("the handshake's remote config", &V::List(vec![at(&v, 2), at(&v, 3), idle, at(&v, 1), at(&v, 7), at(&v, 8)]));
        }
        Case::BeginOut(_, seq, whole) => {
            r.open(peer::open(cfg));
            let Some(conn) = r.w.conn() else { return };
            let mut o = conn.open_session();
            let mut want = vec![V::Null; 3];
            for x in seq {
                match x {
                    0 => (o, want[0]) = (o.offered_capabilities(caps(&["a"])), vsyms(&["a"])),
                    1 => (o, want[0]) = (o.offered_capabilities(caps(&["b", "c"])), vsyms(&["b", "c"])),
                    2 => (o, want[1]) = (o.desired_capabilities(caps(&["d"])), vsyms(&["d"])),
                    3 => (o, want[1]) = (o.desired_capabilities(caps(&["a", "e"])), vsyms(&["a", "e"])),
                    4 => {
                        o = o.property("k", 1u32);
                        put(&mut want[2], "k", Some(V::U32(1)))
                    }
                    5 => {
                        o = o.property("k", "x");
                        put(&mut want[2], "k", Some(V::str("x")))
                    }
                    6 => {
                        o = o.property("l", true);
                        put(&mut want[2], "l", Some(V::Bool(true)))
                    }
                    _ => {
                        o = o.property(Symbol::from(""), 0u8);
                        put(&mut want[2], "", Some(V::U8(0)))
                    }
                }
            }
            if *whole {
                r.spawn("open_session", o.attach(), |x| res(&x))
            } else {
                r.spawn("open_session", o, |x| res(&x))
            }
            r.quiet();
            r.sent(BEGIN, &[(0, V::Null), (5, want[0].clone()), (6, want[1].clone()), (7, want[2].clone())]);
            r.ev(Ev::P(0, peer::begin(Some(0), 0, 1000)));
            r.shown("open_session", &V::sym("ok"));
        }
        Case::BeginAnswer(_, f) => {
            r.open(peer::open(cfg));
            let Some(conn) = r.w.conn() else { return };
            r.spawn("Session::frame()", conn.open_session().attach(), |x| x.map_or_else(|e| err(&e), |s| s.frame().s()));
            r.quiet();
            r.p(BEGIN, f.clone());
            r.shown("Session::frame()", &full(BEGIN, f).unwrap());
        }
        Case::BeginIn(f) => {
            r.open(peer::open(cfg));
            r.p(BEGIN, f.clone());
            let v = r.session().map(|s| s.frame().s()).unwrap_or(V::Null);
            r.eq("Session::frame()", &v, &full(BEGIN, f).unwrap());
        }
        Case::AttachOut(_, snd, seq) => {
            r.up(role);
            let Some(s) = r.session() else { return };
            let term = full(if *snd { TARGET } else { SOURCE }, &src("q")).unwrap();
            let mut want = full(ATTACH, &[V::str("x"), V::U32(0), V::Bool(!*snd)]).unwrap();
            want = with(&want, if *snd { 6 } else { 5 }, term);
            if *snd {
                want = with(&want, 9, V::U32(0));
                let mut b = s.build_sender_link("x", "q");
                let mut size = None;
                for o in seq {
                    let set = |w: &mut V, i: usize, v: V| *w = with(w, i, v);
                    b = match o {
                        0..=2 => {
                            let n = [0, 100, u64::MAX][*o as usize];
                            size = Some(n);
                            b.max_message_size(n)
                        }
                        3 => {
                            set(&mut want, 5, full(SOURCE, &src("s")).unwrap());
                            b.with_frame(|a| {
                                *a.source_mut() = Some(pr::Source {
                                    address: Some(ByteString::from_static("s")),
                                    durable: pr::TerminusDurability::None,
                                    expiry_policy: pr::TerminusExpiryPolicy::SessionEnd,
                                    timeout: 0,
                                    dynamic: false,
                                    dynamic_node_properties: None,
                                    distribution_mode: None,
                                    filter: None,
                                    default_outcome: None,
                                    outcomes: None,
                                    capabilities: None,
                                })
                            })
                        }
                        4 => {
                            let t = with(&at(&want, 6), 0, V::str("t2"));
                            set(&mut want, 6, t);
                            b.with_frame(|a| a.target_mut().as_mut().unwrap().address = Some(ByteString::from_static("t2")))
                        }
                        5 => {
                            let mut m = at(&want, 13);
                            put(&mut m, "k", Some(V::U32(1)));
                            set(&mut want, 13, m);
                            b.with_frame(|a| {
                                a.get_properties_mut().insert(Symbol::from("k"), Variant::Uint(1));
                            })
                        }
                        6 => {
                            set(&mut want, 3, V::U8(1));
                            b.with_frame(|a| *a.snd_settle_mode_mut() = pr::SenderSettleMode::Settled)
                        }
                        7 => {
                            set(&mut want, 4, V::U8(1));
                            b.with_frame(|a| *a.rcv_settle_mode_mut() = pr::ReceiverSettleMode::Second)
                        }
                        8 => {
                            set(&mut want, 9, V::U32(7));
                            b.with_frame(|a| *a.initial_delivery_count_mut() = Some(7))
                        }
                        9 => {
                            set(&mut want, 11, vsyms(&["a"]));
                            b.with_frame(|a| *a.offered_capabilities_mut() = Some(caps(&["a"])))
                        }
                        _ => b.with_frame(|a| *a.handle_mut() = 77),
                    };
                }
                r.spawn("attach()", b.attach(), |x| res(&x));
                r.quiet();
                attach_sent(r, &want, size);
            } else {
                let mut b = s.build_receiver_link("x", "q");
                let mut size = None;
                for o in seq {
                    let mut m = at(&want, 13);
                    b = match o {
                        0..=2 => {
                            let n = [0, 100, u64::MAX][*o as usize];
                            size = Some(n);
                            b.max_message_size(n)
                        }
                        3 => {
                            put(&mut m, "k", Some(V::U32(1)));
                            b.property("k", Some(1u32))
                        }
                        4 => {
                            put(&mut m, "k", Some(V::str("x")));
                            b.property("k", Some("x"))
                        }
                        5 => {
                            put(&mut m, "k", None);
                            b.property("k", None::<u32>)
                        }
                        6 => {
                            put(&mut m, "l", Some(V::Bool(true)));
                            b.property("l", Some(true))
                        }
                        7 => {
                            want = with(&want, 5, with(&at(&want, 5), 10, vsyms(&["a"])));
                            b.capabilities(caps(&["a"]))
                        }
                        8 => {
                            want = with(&want, 5, with(&at(&want, 5), 10, vsyms(&["b", "c"])));
                            b.capabilities(caps(&["b", "c"]))
                        }
                        9 => {
                            want = with(&want, 5, with(&at(&want, 5), 0, V::str("s2")));
                            b.with_frame(|a| a.source_mut().as_mut().unwrap().address = Some(ByteString::from_static("s2")))
                        }
                        10 => {
                            want = with(&want, 3, V::U8(0));
                            b.with_frame(|a| *a.snd_settle_mode_mut() = pr::SenderSettleMode::Unsettled)
                        }
                        _ => b.with_frame(|a| *a.handle_mut() = 77),
                    };
                    want = with(&want, 13, m);
                }
                r.spawn("attach()", b.attach(), |x| res(&x));
                r.quiet();
                attach_sent(r, &want, size);
            }
            r.ev(Ev::P(0, peer::attach("x", 4, *snd, Some("q"), (!*snd).then_some(0))));
            r.shown("attach()", &V::sym("ok"));
        }
        Case::AttachFrame(snd, f) => {
            r.up(role);
            let Some(s) = r.session() else { return };
            let Some(Frame::Attach(a)) = de(ATTACH, f) else { return };
            let mut want = full(ATTACH, f).unwrap();
            if *snd && at(&want, 9).is_null() {
                want = with(&want, 9, V::U32(0))
            }
            if *snd {
                r.spawn("attach()", s.build_sender_link("x", "q").with_frame(|x| *x = a).attach(), |x| res(&x));
            } else {
                r.spawn("attach()", s.build_receiver_link("x", "q").with_frame(|x| *x = a).attach(), |x| res(&x));
            }
            r.quiet();
            let size = match at(&want, 10) {
                V::U64(n) => Some(n),
                _ => None,
            };
            attach_sent(r, &want, size);
            r.ev(Ev::P(0, peer::attach("x", 4, *snd, Some("q"), (!*snd).then_some(0))));
            r.shown("attach()", &V::sym("ok"));
        }
        Case::AttachAnswer(snd, f) => {
            r.up(role);
            let Some(s) = r.session() else { return };
            if *snd {
                r.spawn("the sender's limit", s.build_sender_link("x", "q").attach(), |x| match x {
                    Ok(l) => V::List(vec![V::str(l.name()), V::U32(l.remote_handle()), l.max_message_size().s(), V::U32(l.credit()), V::Bool(l.is_opened())]),
                    Err(e) => err(&e),
                });
            } else {
                r.spawn("the receiver", s.build_receiver_link("x", "q").attach(), |x| match x {
                    Ok(l) => V::List(vec![V::str(l.name()), V::U32(l.remote_handle()), V::U32(l.credit()), V::Bool(!l.is_closed())]),
                    Err(e) => err(&e),
                });
            }
            r.quiet();
            r.p(ATTACH, f.clone());
            let v = full(ATTACH, f).unwrap();
            if *snd {
                let n = match at(&v, 10) {
                    V::U64(n) => V::U32(u32::try_from(n).unwrap_or(u32::MAX)),
                    v => v,
                };
                r.shown("the sender's limit", &V::List(vec![V::str("x"), at(&v, 1), n, V::U32(0), V::Bool(true)]));
            } else {
                r.shown("the receiver", &V::List(vec![V::str("x"), at(&v, 1), V::U32(0), V::Bool(true)]));
            }
        }
        Case::AttachIn(rcv, router, f, mods) => {
            r.up(role);
            *r.mods.borrow_mut() = mods.clone();
            r.p(ATTACH, f.clone());
            let v = full(ATTACH, f).unwrap();
            r.shown("the control service's Attach", &v);
            if *router {
                r.shown("the router's Attach", &v)
            } else if !*rcv {
                r.shown("the message service's Attach", &v)
            }
            // the modes are the endpoint's to choose, unless the application did
            let Some(out) = r.last(ATTACH) else {
                r.bad.push("Attach not answered".into());
                return;
            };
            let mut base = full(ATTACH, &[at(&v, 0), at(&out, 1), V::Bool(!*rcv), at(&out, 3), at(&out, 4), at(&v, 5), at(&v, 6), V::Null, V::Null, at(&out, 9), at(&out, 10)]).unwrap();
            base = changed(base, mods);
            if mods.contains(&9) && !*rcv && !*router {
                base = with(&base, 10, V::U64(5))
            } else if mods.contains(&8) {
                base = with(&base, 10, V::U64(1000))
            }
            for i in 0..14 {
                let n = by_code(ATTACH).unwrap().f[i].n;
                r.eq(&format!("{n} of the answering Attach"), &at(&out, i), &at(&base, i));
            }
        }
        Case::FlowIn(f) => {
            r.up(role);
            r.links();
            r.p(FLOW, f.clone());
            r.shown("the control service's Flow", &full(FLOW, f).unwrap());
        }
        Case::DetachIn(snd, e, closed, wait) => {
            r.up(role);
            r.links();
            let (Some(s), Some(l)) = (r.sender(), r.receiver()) else {
                r.bad.push("links not up".into());
                return;
            };
            // one delivery each way that is not settled, one send that waits
            r.credit(1);
            let hold: Rc<RefCell<Vec<Delivery>>> = Default::default();
            if *snd {
                let h = hold.clone();
                r.spawn("send", s.transfer(Bytes::from_static(b"1")).send(), move |x| {
                    let v = res(&x);
                    if let Ok(d) = x {
                        h.borrow_mut().push(d)
                    }
                    v
                });
                r.quiet();
                r.shown("send", &V::sym("ok"));
                r.spawn("the waiting send", s.transfer(Bytes::from_static(b"2")).send(), |x| res(&x));
            } else {
                r.deliver(&[V::U32(1), V::U32(0), V::Bin(vec![1])]);
                if let Some((d, _)) = l.get_delivery() {
                    hold.borrow_mut().push(d)
                }
                if *wait {
                    let l = l.clone();
                    r.spawn("recv", async move { l.recv().await }, |x| match x {
                        Some(x) => res(&x),
                        None => V::Null,
                    });
                }
            }
            let d = hold.borrow_mut().pop();
            let Some(d) = d else {
                r.bad.push("no delivery".into());
                return;
            };
            let keep = Rc::new(RefCell::new(None));
            let k = keep.clone();
            r.spawn("Delivery::wait()", async move { let x = d.wait().await; *k.borrow_mut() = Some(d); x }, |x| match x {
                Ok(s) => s.s(),
                Err(e) => err(&e),
            });
            r.quiet();
            let f = vec![V::U32(if *snd { 0 } else { 1 }), V::Bool(*closed), e.clone()];
            r.p(DETACH, f.clone());
            let v = full(DETACH, &f).unwrap();
            let e = at(&v, 2);
            r.shown("the control service's Detach", &v);
            r.shown("Delivery::wait()", &tagged("detached", &e));
            if *snd {
                r.shown("the waiting send", &tagged("detached", &e));
                let x = s.error().map(err).unwrap_or(V::Null);
                r.eq("SenderLink::error()", &x, &tagged("detached", &e));
                r.spawn("a later send", s.transfer(Bytes::from_static(b"3")).send(), |x| res(&x));
                r.quiet();
                r.shown("a later send", &tagged("detached", &e));
            } else {
                if !*wait {
                    let x = l.error().s();
                    r.eq("ReceiverLink::error()", &x, &e);
                    let l = l.clone();
                    r.spawn("recv", async move { l.recv().await }, |x| match x {
                        Some(x) => res(&x),
                        None => V::Null,
                    });
                    r.quiet();
                }
                let want = if e.is_null() { V::Null } else { tagged("detached", &e) };
                r.shown("recv", &want);
            }
        }
        Case::DetachOut(way, e) => {
            let Some(le) = error(e) else { return };
            let want = full(END, &[e.clone()]).map(|v| at(&v, 0)).unwrap();
            r.up(role);
            if (4..=8).contains(way) {
                *r.fail.borrow_mut() = Some((*way, le.clone()))
            }
            r.links();
            let (s, l) = (r.sender(), r.receiver());
            let n = r.count(DETACH);
            match (way, s, l, r.session(), r.w.conn()) {
                (0, Some(s), ..) => r.spawn("close", async move { s.close_with_error(le).await }, |x| res(&x)),
                (1, _, Some(l), ..) => r.spawn("close", async move { l.close_with_error(le).await }, |x| res(&x)),
                (2, Some(s), _, Some(ss), _) => r.spawn("close", async move { ss.detach_sender_link(s.id(), Some(le)).await }, |x| res(&x)),
                (3, _, Some(l), Some(ss), _) => r.spawn("close", async move { ss.detach_receiver_link(l.handle(), Some(le)).await }, |x| res(&x)),
                (7, ..) => r.deliver(&[V::U32(1), V::U32(0), V::Bin(vec![1])]),
                (8, ..) => r.credit(3),
                (9, .., Some(c)) => {
                    r.spawn("close", async move { c.close_with_error(le).await }, |x| res(&x));
                    r.quiet();
                    r.sent(CLOSE, &[(0, want)]);
                    return;
                }
                _ => {}
            }
            r.quiet();
            if way < &4 && r.count(DETACH) != n + 1 || r.count(DETACH) == 0 {
                r.bad.push("link not detached".into());
                return;
            }
            let h = match way {
                0 | 2 | 4 | 8 => 0,
                _ => 1,
            };
            r.sent(DETACH, &[(0, V::U32(h)), (2, want.clone())]);
            if *way < 4 {
                let v = r.last(DETACH).unwrap();
                r.shown("the control service's own Detach", &v);
                // what the peer answers it with
                let f = vec![V::U32(h), V::Bool(true), e.clone()];
                r.p(DETACH, f);
                r.shown("close", &tagged("detached", &want));
            }
        }
        Case::EndIn(e) | Case::CloseIn(e) => {
            let end = matches!(c, Case::EndIn(_));
            r.up(role);
            r.links();
            r.credit(1);
            let (Some(s), Some(ss), Some(conn)) = (r.sender(), r.session(), r.w.conn()) else {
                r.bad.push("links not up".into());
                return;
            };
            let hold: Rc<RefCell<Vec<Delivery>>> = Default::default();
            let h = hold.clone();
            r.spawn("send", s.transfer(Bytes::from_static(b"1")).send(), move |x| {
                let v = res(&x);
                if let Ok(d) = x {
                    h.borrow_mut().push(d)
                }
                v
            });
            r.quiet();
            let Some(d) = hold.borrow_mut().pop() else { return };
            r.spawn("Delivery::wait()", async move { d.wait().await }, |x| match x {
                Ok(s) => s.s(),
                Err(e) => err(&e),
            });
            r.spawn("the waiting send", s.transfer(Bytes::from_static(b"2")).send(), |x| res(&x));
            r.spawn("the attach of a sender", ss.build_sender_link("y", "q").attach(), |x| res(&x));
            r.spawn("the attach of a receiver", ss.build_receiver_link("z", "q").attach(), |x| res(&x));
            if !end {
                r.spawn("the opening of a session", conn.open_session().attach(), |x| res(&x));
            }
            r.quiet();
            r.p(if end { END } else { CLOSE }, vec![e.clone()]);
            let e = full(END, &[e.clone()]).map(|v| at(&v, 0)).unwrap();
            let want = tagged(if end { "ended" } else { "closed" }, &e);
            for l in ["Delivery::wait()", "the waiting send", "the attach of a sender", "the attach of a receiver"] {
                r.shown(l, &want)
            }
            if !end {
                r.shown("the opening of a session", &want);
                r.shown("the control service's error", &want);
            }
            let x = s.error().map(err).unwrap_or(V::Null);
            r.eq("SenderLink::error()", &x, &want);
        }
        Case::DispIn(st, settled) => {
            r.up(role);
            r.links();
            r.credit(1);
            let Some(s) = r.sender() else { return };
            let hold: Rc<RefCell<Vec<Delivery>>> = Default::default();
            let h = hold.clone();
            r.spawn("send", s.transfer(Bytes::from_static(b"1")).send(), move |x| {
                let v = res(&x);
                if let Ok(d) = x {
                    h.borrow_mut().push(d)
                }
                v
            });
            r.quiet();
            let Some(d) = hold.borrow_mut().pop() else {
                r.bad.push("not sent".into());
                return;
            };
            let f = vec![V::Bool(true), V::U32(d.id()), V::Null, V::Bool(*settled), st.clone()];
            r.p(DISPOSITION, f.clone());
            let want = at(&full(DISPOSITION, &f).unwrap(), 4);
            let x = d.remote_state().s();
            r.eq("Delivery::remote_state()", &x, &want);
            let b = d.is_remote_settled();
            r.eq("Delivery::is_remote_settled()", &V::Bool(b), &V::Bool(*settled));
            r.spawn("Delivery::wait()", async move { d.wait().await }, |x| match x {
                Ok(s) => s.s(),
                Err(e) => err(&e),
            });
            r.quiet();
            r.shown("Delivery::wait()", &want);
        }
        Case::DispOut(way, st) => {
            let Some(ls) = state(st) else { return };
            r.up(role);
            r.links();
            r.credit(1);
            let (Some(s), Some(l)) = (r.sender(), r.receiver()) else { return };
            let mut d;
            if *way < 2 {
                // received
                r.deliver(&[V::U32(1), V::U32(7), V::Bin(vec![1])]);
                let Some(x) = l.get_delivery() else {
                    r.bad.push("not delivered".into());
                    return;
                };
                d = x.0;
            } else {
                let hold: Rc<RefCell<Vec<Delivery>>> = Default::default();
                let h = hold.clone();
                r.spawn("send", s.transfer(Bytes::from_static(b"1")).send(), move |x| {
                    let v = res(&x);
                    if let Ok(d) = x {
                        h.borrow_mut().push(d)
                    }
                    v
                });
                r.quiet();
                let x = hold.borrow_mut().pop();
                let Some(x) = x else {
                    r.bad.push("not sent".into());
                    return;
                };
                d = x;
            }
            let n = r.count(DISPOSITION);
            if way % 2 == 0 { d.settle(ls) } else { d.update_state(ls) }
            r.quiet();
            let want = full(DISPOSITION, &[V::Bool(*way < 2), V::U32(d.id()), V::Null, V::Bool(way % 2 == 0), st.clone()]).unwrap();
            if r.count(DISPOSITION) != n + 1 {
                r.bad.push("no Disposition".into())
            } else {
                r.sent(DISPOSITION, &[(0, at(&want, 0)), (1, at(&want, 1)), (3, at(&want, 3)), (4, at(&want, 4))]);
                // just that delivery
                let last = at(&r.last(DISPOSITION).unwrap(), 2);
                if !last.is_null() && last != at(&want, 1) {
                    r.bad.push(format!("Disposition to {}", show(&last)))
                }
            }
            drop(d);
        }
        Case::TransferIn(f) => {
            r.up(role);
            r.links();
            r.deliver(f);
            let Some(l) = r.receiver() else { return };
            let Some((d, t)) = l.get_delivery() else {
                r.bad.push("not delivered".into());
                return;
            };
            let want = full(TRANSFER, f).unwrap();
            let got = t.s();
            for i in 1..11 {
                let n = by_code(TRANSFER).unwrap().f[i].n;
                r.eq(&format!("{n} of the message"), &at(&got, i), &at(&want, i));
            }
            r.eq("the body", &at(&got, 11), &V::Bin(b"body".to_vec()));
            r.eq("Delivery::tag()", &V::Bin(d.tag().to_vec()), &at(&want, 2));
            r.eq("Delivery::id()", &V::U32(d.id()), &at(&want, 1));
        }
        Case::TransferOut(seq) => {
            r.up(role);
            r.links();
            r.credit(1);
            let Some(s) = r.sender() else { return };
            let mut b = s.transfer(Bytes::from_static(b"body"));
            let (mut tag, mut settled, mut fmt) = (None, false, None);
            for o in seq {
                b = match o {
                    0..=3 => {
                        let t: &'static [u8] = [b"a".as_slice(), b"bb", &[], &[0xff; 32]][*o as usize];
                        tag = Some(t);
                        b.tag(Bytes::from_static(t))
                    }
                    4 => {
                        settled = true;
                        b.settled()
                    }
                    n => {
                        let x = [0, 7, u32::MAX][*n as usize - 5];
                        fmt = Some(x);
                        b.format(x)
                    }
                }
            }
            r.spawn("send", b.send(), |x| res(&x));
            r.quiet();
            r.shown("send", &V::sym("ok"));
            let Some(v) = r.last(TRANSFER) else {
                r.bad.push("not sent".into());
                return;
            };
            if let Some(t) = tag {
                r.eq("the tag", &at(&v, 2), &V::Bin(t.to_vec()))
            } else if !matches!(at(&v, 2), V::Bin(_)) {
                r.bad.push("no tag".into())
            }
            if let Some(x) = fmt {
                r.eq("the format", &at(&v, 3), &V::U32(x))
            }
            r.eq("settled", &V::Bool(at(&v, 4) == V::Bool(true)), &V::Bool(settled));
            r.eq("more", &at(&v, 5), &V::Bool(false));
        }
    }
}

fn attach_sent(r: &mut Run, want: &V, size: Option<u64>) {
    let Some(v) = r.last(ATTACH) else {
        r.bad.push("no Attach sent".into());
        return;
    };
    for i in 0..14 {
        let n = by_code(ATTACH).unwrap().f[i].n;
        match i {
            // the endpoint's
            1 => {}
            // a receiver has none to give
            9 if at(want, 2) == V::Bool(true) => {}
            // the default is its own
            10 if size.is_none() && at(want, 10).is_null() => {}
            10 => r.eq(n, &at(&v, 10), &size.map(V::U64).unwrap_or(V::Null)),
            _ => r.eq(n, &at(&v, i), &at(want, i)),
        }
    }
}

/// all sequences of up to `len` out of `n`
fn seqs(n: u8, len: usize, f: &mut dyn FnMut(Vec<u8>)) {
    fn go(n: u8, len: usize, v: &mut Vec<u8>, f: &mut dyn FnMut(Vec<u8>)) {
        f(v.clone());
        if v.len() < len {
            for i in 0..n {
                v.push(i);
                go(n, len, v, f);
                v.pop();
            }
        }
    }
    go(n, len, &mut vec![], f)
}

/// every field with every value, and with every value of another
fn variants(code: u64, base: &[V], fixed: &[usize], deep: u8, f: &mut dyn FnMut(Vec<V>)) {
    let c = by_code(code).unwrap();
    let mut b = base.to_vec();
    b.resize(c.f.len(), V::Null);
    let vs: Vec<Vec<V>> = c
        .f
        .iter()
        .enumerate()
        .map(|(i, x)| if fixed.contains(&i) { vec![b[i].clone()] } else { pick(x.ty, x.mand) })
        .collect();
    let mut emit = |v: Vec<V>| {
        if full(code, &v).is_some() {
            f(v)
        }
    };
    emit(b.clone());
    emit(vs.iter().map(|v| v.get(1).unwrap_or(&v[0]).clone()).collect());
    for i in 0..vs.len() {
        for x in &vs[i] {
            let mut v = b.clone();
            v[i] = x.clone();
            emit(v)
        }
        for j in 0..i {
            let n = [2, 5, 40][deep as usize];
            for x in vs[i].iter().take(n) {
                for y in vs[j].iter().take(n) {
                    let mut v = b.clone();
                    v[i] = x.clone();
                    v[j] = y.clone();
                    emit(v)
                }
            }
        }
    }
}
fn pick(ty: Ty, mand: bool) -> Vec<V> {
    let mut v: Vec<V> = if mand { vec![] } else { vec![V::Null] };
    v.extend(vals(ty).into_iter().filter(|x| crate::codec::norm(ty, x).is_ok()));
    v
}

fn cases(what: &str, deep: u8, f: &mut dyn FnMut(Case)) {
    let d = deep as usize;
    let ok = |ty: Ty| pick(ty, false);
    match what {
        "open" => {
            for r in [Role::Server, Role::Client] {
                seqs(CFG_OPS, 2 + d, &mut |s| f(Case::OpenOut(r, s)))
            }
            variants(OPEN, &[V::str("peer")], &[], deep, &mut |v| f(Case::OpenIn(v)))
        }
        "begin" => {
            for r in [Role::Server, Role::Client] {
                for w in [false, true] {
                    seqs(BEGIN_OPS, 2 + d, &mut |s| f(Case::BeginOut(r, s, w)))
                }
                variants(BEGIN, &[V::U16(0), V::U32(0), V::U32(9), V::U32(9)], &[0], deep, &mut |v| f(Case::BeginAnswer(r, v)))
            }
            variants(BEGIN, &[V::Null, V::U32(0), V::U32(9), V::U32(9)], &[0], deep, &mut |v| f(Case::BeginIn(v)))
        }
        "attach-out" => {
            for r in [Role::Server, Role::Client] {
                seqs(SND_OPS, 2 + d, &mut |s| f(Case::AttachOut(r, true, s)));
                seqs(RCV_OPS, 2 + d, &mut |s| f(Case::AttachOut(r, false, s)));
            }
            for snd in [true, false] {
                variants(ATTACH, &[V::str("x"), V::U32(0), V::Bool(!snd)], &[0, 1, 2], deep, &mut |v| f(Case::AttachFrame(snd, v)));
                let base = [V::str("x"), V::U32(3), V::Bool(snd), V::Null, V::Null, V::dlist(SOURCE, vec![]), V::dlist(TARGET, vec![]), V::Null, V::Null, if snd { V::Null } else { V::U32(0) }];
                variants(ATTACH, &base, if snd { &[0, 2, 5, 6][..] } else { &[0, 2, 5, 6, 9] }, deep, &mut |v| f(Case::AttachAnswer(snd, v)));
            }
        }
        "attach-in" => {
            for (rcv, router) in [(true, false), (false, false), (false, true)] {
                let (a, b) = (V::dlist(SOURCE, vec![V::str("q1")]), V::dlist(TARGET, vec![V::str("q1")]));
                let base = [V::str(if rcv { "out" } else { "in" }), V::U32(5), V::Bool(rcv), V::Null, V::Null, a, b, V::Null, V::Null, if rcv { V::Null } else { V::U32(0) }];
                let fixed: &[usize] = if rcv {
                    &[2]
                } else if router {
                    &[2, 6, 9]
                } else {
                    &[2, 9]
                };
                variants(ATTACH, &base, fixed, deep, &mut |v| f(Case::AttachIn(rcv, router, v, vec![])));
                seqs(MODS, 2 + d, &mut |m| f(Case::AttachIn(rcv, router, base.to_vec(), m)));
            }
        }
        "flow" => {
            let base = [V::U32(0), V::U32(100), V::U32(0), V::U32(100), V::U32(0)];
            variants(FLOW, &base, &[4], deep, &mut |v| f(Case::FlowIn(v)))
        }
        "detach" => {
            for e in ok(Ty::Error) {
                for snd in [true, false] {
                    for closed in [true, false] {
                        for wait in [true, false] {
                            f(Case::DetachIn(snd, e.clone(), closed, wait))
                        }
                    }
                }
                for way in 0..10 {
                    if !e.is_null() {
                        f(Case::DetachOut(way, e.clone()))
                    }
                }
            }
        }
        "end" => {
            for e in ok(Ty::Error) {
                f(Case::EndIn(e.clone()));
                if !e.is_null() {
                    f(Case::CloseIn(e))
                } else {
                    f(Case::CloseIn(V::Null))
                }
            }
        }
        "state" => {
            let mut l = ok(Ty::State);
            for e in ok(Ty::Error) {
                l.push(V::dlist(REJECTED, vec![e]))
            }
            for m in pick(Ty::Fields, false) {
                for (a, b) in [(V::Null, V::Bool(true)), (V::Bool(true), V::Null), (V::Bool(false), V::Bool(true)), (V::Bool(true), V::Bool(true))] {
                    l.push(V::dlist(MODIFIED, vec![a, b, m.clone()]))
                }
            }
            for st in l {
                if st.is_null() {
                    continue;
                }
                for s in [true, false] {
                    f(Case::DispIn(st.clone(), s))
                }
                for w in 0..4 {
                    f(Case::DispOut(w, st.clone()))
                }
            }
        }
        "transfer" => {
            let base = [V::U32(1), V::U32(0), V::Bin(vec![1])];
            // the first Transfer of a delivery has an id and a tag
            variants(TRANSFER, &base, &[0, 5, 8, 9], deep, &mut |v| {
                if !v[1].is_null() && !v[2].is_null() {
                    f(Case::TransferIn(v))
                }
            });
            seqs(8, 3 + d, &mut |s| f(Case::TransferOut(s)));
        }
        x => panic!("{x}"),
    }
    let _ = ProtocolId::Amqp;
}

pub fn parts(size: usize) -> Vec<String> {
    let mut o = vec![];
    let k = [8, 32, 200][size.clamp(1, 3) - 1];
    for w in ["open", "begin", "attach-out", "attach-in", "flow", "detach", "end", "state", "transfer"] {
        for i in 0..k {
            o.push(format!("fields.{w}.{i}.{k}.{}", ["q", "t", "d"][size.clamp(1, 3) - 1]))
        }
    }
    o
}

pub fn run(f: &[&str], d: &mut Drv) {
    let (i, k): (u64, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap());
    let mut n = 0u64;
    cases(f[1], "qtd".find(f[4]).unwrap() as u8, &mut |c: Case| {
        n += 1;
        if n % k != i {
            return;
        }
        let text = {
            let mut t = format!("{c:?}");
            t.truncate(600);
            t
        };
        d.any(|found: &mut Vec<Found>| {
            let c2 = c.clone();
            let r = exec::isolated(2 << 20, move || exec::with_runtime(move |poll| execute(&c2, poll)));
            match r {
                Ok(bad) => {
                    for m in bad {
                        found.push(("field", "C24", format!("{m}; {text}")))
                    }
                }
                Err(m) => found.push(("panic", "*", format!("{m}; {text}"))),
            }
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            text.hash(&mut h);
            (Some(h.finish()), text)
        });
        d.events(3);
    });
}
