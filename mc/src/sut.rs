//! The system under test: a real endpoint (server or client role) of the crate,
//! its application stand-in and its scripted peer.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::{Future, poll_fn};
use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::task::{Poll, Waker};

use ntex_amqp::codec::protocol::{
    self as pr, DeliveryState, Error as PErr, ErrorCondition, SaslCode, TransferBody,
};
use ntex_amqp::client::{Connector, ConnectorService};
use ntex_amqp::server::{Handshake, HandshakeError, Server};
use ntex_amqp::types::{Link, Message, Outcome};
use ntex_amqp::{
    AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink,
    SenderLink, Session, State,
};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed, IoConfig};
use ntex_service::cfg::SharedCfg;
use ntex_service::{Service, ServiceCtx, ServiceFactory, fn_factory_with_config, fn_service};
use ntex_util::channel::oneshot;
use ntex_util::future::Either;
use ntex_util::time::Seconds;

use crate::mon::Mon;
use crate::refc::{self, *};

/// state given with a disposition
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum St {
    Accepted,
    Rejected,
    Released,
    Modified,
    Received,
}

impl St {
    pub fn to_ds(self) -> DeliveryState {
        match self {
            St::Accepted => DeliveryState::Accepted(pr::Accepted {}),
            St::Rejected => DeliveryState::Rejected(pr::Rejected { error: None }),
            St::Released => DeliveryState::Released(pr::Released {}),
            St::Modified => DeliveryState::Modified(pr::Modified {
                delivery_failed: Some(true),
                undeliverable_here: None,
                message_annotations: None,
            }),
            St::Received => DeliveryState::Received(pr::Received {
                section_number: 1,
                section_offset: 2,
            }),
        }
    }
    pub fn to_v(self) -> V {
        match self {
            St::Accepted => V::dlist(ACCEPTED, vec![]),
            St::Rejected => V::dlist(REJECTED, vec![]),
            St::Released => V::dlist(RELEASED, vec![]),
            St::Modified => V::dlist(MODIFIED, vec![V::Bool(true)]),
            St::Received => V::dlist(RECEIVED, vec![V::U32(1), V::U64(2)]),
        }
    }
    pub fn of_ds(d: &DeliveryState) -> St {
        match d {
            DeliveryState::Accepted(_) => St::Accepted,
            DeliveryState::Rejected(_) => St::Rejected,
            DeliveryState::Released(_) => St::Released,
            DeliveryState::Modified(_) => St::Modified,
            DeliveryState::Received(_) => St::Received,
        }
    }
    pub fn of_v(v: &V) -> Option<St> {
        if let V::Desc(d, _) = v
            && let V::U64(c) = **d
        {
            return match c {
                ACCEPTED => Some(St::Accepted),
                REJECTED => Some(St::Rejected),
                RELEASED => Some(St::Released),
                MODIFIED => Some(St::Modified),
                RECEIVED => Some(St::Received),
                _ => None,
            };
        }
        None
    }
}

pub type OpId = u32;

/// Every stimulus.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    // --- peer ---
    P(u16, Perf),
    PEmpty,
    PBytes(Vec<u8>),
    PDrop,
    PReadErr,
    // --- application ---
    OpenSession(OpId, &'static str),
    EndSession(OpId, &'static str),
    AttachS(OpId, &'static str, &'static str),
    AttachR(OpId, &'static str, &'static str),
    /// op, link, tag, body, settled
    Send(OpId, &'static str, Option<Vec<u8>>, Vec<u8>, bool),
    SendFmt(OpId, &'static str, Vec<u8>, u32),
    SendMsg(OpId, &'static str, Vec<u8>),
    Ready(OpId, &'static str),
    OnCloseS(OpId, &'static str),
    OnCredit(OpId, &'static str),
    /// wait for the outcome of the delivery made by op
    Wait(OpId, OpId),
    Settle(OpId, St),
    Update(OpId, St),
    DropDelivery(OpId),
    /// receive on link
    Recv(OpId, &'static str),
    /// receive without waiting
    Take(OpId, &'static str),
    Credit(&'static str, u32),
    MaxSize(&'static str, u64),
    MaxSizeS(&'static str, u32),
    CloseS(OpId, &'static str, bool),
    CloseR(OpId, &'static str, bool),
    /// Session::detach_*_link by local handle
    DetachS(OpId, &'static str, u32),
    DetachR(OpId, &'static str, u32),
    Cancel(OpId),
    Close(OpId),
    CloseErr(OpId),
    Force,
    /// answer gated control / message / handler / handshake call
    Ctl(usize, bool),
    Msg(usize, bool),
    Hnd(usize, u8),
    // --- time ---
    Time(u64),
}

pub const LIB_ERR: &str = "mc:app-error";

#[derive(Clone, Debug, PartialEq)]
pub struct RMsg {
    pub id: u32,
    pub tag: Vec<u8>,
    pub settled: Option<bool>,
    pub format: Option<u32>,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Bool(bool),
    Session { eut: u16, peer: u16 },
    Sender { handle: u32, peer: u32, name: String },
    Receiver { handle: u32, peer: u32, name: String },
    Sent { id: u32, tag: Vec<u8> },
    State(Option<St>),
    Msg(RMsg),
    End,
    Err(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    AttachSender(String),
    AttachReceiver(String),
    /// (channel, handle)
    Flow(u16, u32, Option<u32>),
    LocalDetachSender(u16, u32),
    RemoteDetachSender(u16, u32),
    LocalDetachReceiver(u16, u32),
    RemoteDetachReceiver(u16, u32),
    LocalSessionEnded(Vec<String>),
    RemoteSessionEnded(Vec<String>),
    ProtocolError(String),
    Disconnected,
    Closed,
    // message service
    MAttached(String),
    MDetached(u16, u32),
    MDetachedAll(Vec<u32>),
    MTransfer(u16, u32),
    // router handlers: link name, content
    HCreate(String),
    HCall(String, RMsg),
    HDrop(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    In(Ev),
    Out(Item),
    Op(OpId, Res),
    /// control call (index) started
    Ctl(usize, Call),
    Msg(usize, Call),
    Hnd(usize, Call),
    /// delivery taken by the message service: op, channel, handle
    Take(OpId, u16, u32, RMsg),
    Hs(String),
    /// life of a service
    Svc(String),
    TaskEnd(Result<(), String>),
    Eof,
    Quiet,
    Panic(String),
    Livelock,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Server,
    Client,
}

/// What to do with a control/message call
pub type GateFn = fn(&Call) -> bool;

#[derive(Clone)]
pub struct Cfg {
    pub role: Role,
    pub router: bool,
    /// gate (hold) control calls / message calls / handler calls
    pub gate_ctl: GateFn,
    pub gate_msg: GateFn,
    pub gate_hnd: bool,
    /// message service takes deliveries when told of a transfer
    pub take: bool,
    pub channel_max: u16,
    pub max_frame: u32,
    pub idle: u32,
    pub max_size: usize,
    pub hs_timeout: u16,
    pub hostname: Option<&'static str>,
    /// peer's Open
    pub p_max_frame: Option<u32>,
    pub p_channel_max: Option<u16>,
    pub p_idle: Option<u32>,
    /// do the opening handshake in setup
    pub auto_open: bool,
    pub hs: HsPolicy,
    pub csasl: Option<(&'static str, &'static str, &'static str)>,
    /// use the full connector path (with timeout)
    pub connector: bool,
    pub keepalive: u16,
    pub chostname: Option<&'static str>,
}

/// what the server application does during the opening
#[derive(Clone, Debug)]
pub struct HsPolicy {
    pub mechs: Vec<&'static str>,
    pub challenge: Option<Vec<u8>>,
    pub outcome: SaslCode,
    /// goes on although it refused
    pub keep_on: bool,
    /// 0 no, 1 at once, 2 after the SASL init, 3 after Open
    pub refuse: u8,
    /// waits before each of its steps
    pub gated: bool,
}

impl Default for HsPolicy {
    fn default() -> Self {
        HsPolicy {
            mechs: vec!["PLAIN"],
            challenge: None,
            outcome: SaslCode::Ok,
            keep_on: false,
            refuse: 0,
            gated: false,
        }
    }
}

pub fn never(_: &Call) -> bool {
    false
}
pub fn always(_: &Call) -> bool {
    true
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            role: Role::Server,
            router: false,
            gate_ctl: never,
            gate_msg: never,
            gate_hnd: false,
            take: true,
            channel_max: 1024,
            max_frame: 65535,
            idle: 0,
            max_size: 0,
            hs_timeout: 0,
            hostname: None,
            p_max_frame: None,
            p_channel_max: None,
            p_idle: None,
            auto_open: true,
            hs: HsPolicy::default(),
            csasl: None,
            connector: false,
            keepalive: 0,
            chostname: None,
        }
    }
}

struct Gate {
    tx: Option<oneshot::Sender<bool>>,
}

/// what the application is shown
pub enum Seen<'a> {
    Open(&'a ntex_amqp::server::HandshakeAmqpOpened),
    Ctl(&'a ControlFrameKind),
    Msg(&'a Message),
    Link(&'a Link<()>),
}

pub type Hook = Rc<dyn Fn(Seen<'_>) -> Option<PErr>>;

thread_local! {
    /// how the endpoint is configured
    pub static TWEAK: RefCell<Option<Box<dyn Fn(AmqpServiceConfig) -> AmqpServiceConfig>>> = const { RefCell::new(None) };
}

pub struct Inner {
    pub svc: BTreeMap<String, Svc>,
    pub hook: Option<Hook>,
    pub log: Vec<Obs>,
    pub conn: Option<ConnectionRef>,
    pub sessions: BTreeMap<String, Session>,
    pub senders: BTreeMap<String, SenderLink>,
    pub receivers: BTreeMap<String, ReceiverLink>,
    pub deliveries: BTreeMap<OpId, Delivery>,
    /// deliveries somebody waits for
    pub waited: BTreeMap<OpId, std::rc::Weak<Delivery>>,
    cancels: BTreeMap<OpId, Rc<Cancel>>,
    ctl: Vec<Gate>,
    msg: Vec<Gate>,
    hnd: Vec<Gate2>,
    hs: Vec<oneshot::Sender<bool>>,
    pub calls_ctl: Vec<Call>,
    pub calls_msg: Vec<Call>,
    auto_op: OpId,
}

struct Gate2 {
    tx: Option<oneshot::Sender<u8>>,
}

#[derive(Default)]
struct Cancel {
    on: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}

#[derive(Clone)]
pub struct App {
    pub i: Rc<RefCell<Inner>>,
    pub cfg: Rc<Cfg>,
}

/// a service whose readiness is under control: 0 ready, 1 not, 2 failing, 3 one call at a time,
/// 4 ready but every call fails, 5 still being created, 6 cannot be created
#[derive(Default)]
pub struct Svc {
    pub mode: u8,
    pub busy: usize,
    down: bool,
    wakers: Vec<Waker>,
}

impl App {
    fn log(&self, o: Obs) {
        self.i.borrow_mut().log.push(o)
    }
    pub fn set_mode(&self, key: &str, mode: u8) {
        let w = {
            let mut i = self.i.borrow_mut();
            let s = i.svc.entry(key.into()).or_default();
            s.mode = mode;
            std::mem::take(&mut s.wakers)
        };
        w.into_iter().for_each(Waker::wake);
    }
    async fn ready(&self, key: &str) -> bool {
        poll_fn(|cx| {
            let mut i = self.i.borrow_mut();
            if i.svc.is_empty() {
                return Poll::Ready(true);
            }
            let s = i.svc.entry(key.into()).or_default();
            if s.mode == 1 || s.mode == 3 && s.busy > 0 {
                s.wakers.push(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(s.mode != 2)
        })
        .await
    }
    fn enter(&self, key: &str) -> Busy {
        let mut i = self.i.borrow_mut();
        if !i.svc.is_empty() {
            let s = i.svc.entry(key.into()).or_default();
            let (m, b, d) = (s.mode, s.busy, s.down);
            s.busy += 1;
            if m == 1 || m == 2 || m == 3 && b > 0 {
                i.log.push(Obs::Svc(format!("!{key} called while not ready")));
            }
            if d {
                i.log.push(Obs::Svc(format!("!{key} called after its shutdown")));
            }
        }
        Busy(self.clone(), key.into())
    }
    fn fails(&self, key: &str) -> bool {
        self.i.borrow().svc.get(key).is_some_and(|s| s.mode == 4)
    }
    fn down(&self, key: &str) {
        let mut i = self.i.borrow_mut();
        if !i.svc.is_empty() {
            let s = i.svc.entry(key.into()).or_default();
            let d = std::mem::replace(&mut s.down, true);
            i.log.push(Obs::Svc(if d { format!("!{key} shut down again") } else { format!("{key} shut down") }));
        }
    }
    async fn create(&self, key: &str) -> bool {
        poll_fn(|cx| {
            let mut i = self.i.borrow_mut();
            match i.svc.get_mut(key) {
                Some(s) if s.mode == 5 => {
                    s.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
                s => Poll::Ready(s.is_none_or(|s| s.mode != 6)),
            }
        })
        .await
    }
    fn up(&self, key: &str) {
        let mut i = self.i.borrow_mut();
        if !i.svc.is_empty() {
            i.svc.entry(key.into()).or_default().down = false;
            i.log.push(Obs::Svc(format!("{key} created")));
        }
    }
    fn see(&self, x: Seen<'_>) -> Option<PErr> {
        let h = self.i.borrow().hook.clone();
        h.and_then(|h| h(x))
    }
    async fn gate_ctl(&self, c: Call) -> bool {
        let rx = {
            let mut i = self.i.borrow_mut();
            let idx = i.ctl.len();
            i.log.push(Obs::Ctl(idx, c.clone()));
            i.calls_ctl.push(c.clone());
            if !(self.cfg.gate_ctl)(&c) {
                i.ctl.push(Gate { tx: None });
                return true;
            }
            let (tx, rx) = oneshot::channel();
            i.ctl.push(Gate { tx: Some(tx) });
            rx
        };
        rx.await.unwrap_or(true)
    }
    async fn gate_msg(&self, c: Call) -> bool {
        let rx = {
            let mut i = self.i.borrow_mut();
            let idx = i.msg.len();
            i.log.push(Obs::Msg(idx, c.clone()));
            i.calls_msg.push(c.clone());
            if !(self.cfg.gate_msg)(&c) {
                i.msg.push(Gate { tx: None });
                return true;
            }
            let (tx, rx) = oneshot::channel();
            i.msg.push(Gate { tx: Some(tx) });
            rx
        };
        rx.await.unwrap_or(true)
    }
    async fn gate_hs(&self) {
        if self.cfg.hs.gated {
            let (tx, rx) = oneshot::channel();
            self.i.borrow_mut().hs.push(tx);
            let _ = rx.await;
        }
    }
    async fn gate_hnd(&self, c: Call) -> u8 {
        let rx = {
            let mut i = self.i.borrow_mut();
            let idx = i.hnd.len();
            i.log.push(Obs::Hnd(idx, c.clone()));
            if !self.cfg.gate_hnd || !matches!(c, Call::HCall(..)) {
                i.hnd.push(Gate2 { tx: None });
                return 0;
            }
            let (tx, rx) = oneshot::channel();
            i.hnd.push(Gate2 { tx: Some(tx) });
            rx
        };
        rx.await.unwrap_or(0)
    }
}

struct Busy(App, String);
impl Drop for Busy {
    fn drop(&mut self) {
        let w = {
            let mut i = self.0.i.borrow_mut();
            let Some(s) = i.svc.get_mut(&self.1) else { return };
            s.busy = s.busy.saturating_sub(1);
            std::mem::take(&mut s.wakers)
        };
        w.into_iter().for_each(Waker::wake);
    }
}

pub fn app_error() -> PErr {
    PErr::build()
        .condition(ErrorCondition::Custom(ntex_amqp::codec::types::Symbol::from(LIB_ERR)))
        .finish()
}

fn lch(s: &Session) -> u16 {
    s.local_channel_id()
}

fn links(v: &[Either<SenderLink, ReceiverLink>]) -> Vec<String> {
    let mut r: Vec<String> = v
        .iter()
        .map(|l| match l {
            Either::Left(s) => format!("s{}", s.id()),
            Either::Right(r) => format!("r{}", r.handle()),
        })
        .collect();
    r.sort();
    r
}

pub struct Ctl(App);

impl Service<ControlFrame> for Ctl {
    type Response = ();
    type Error = PErr;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), PErr> {
        if self.0.ready("ctl").await { Ok(()) } else { Err(app_error()) }
    }
    async fn shutdown(&self) {
        self.0.down("ctl")
    }
    async fn call(&self, f: ControlFrame, _: ServiceCtx<'_, Self>) -> Result<(), PErr> {
        let _busy = self.0.enter("ctl");
        let call = match f.kind() {
            ControlFrameKind::AttachSender(a, _, l) => {
                self.0.i.borrow_mut().senders.insert(a.name().to_string(), l.clone());
                Call::AttachSender(a.name().to_string())
            }
            ControlFrameKind::AttachReceiver(a, _, l) => {
                self.0.i.borrow_mut().receivers.insert(a.name().to_string(), l.clone());
                Call::AttachReceiver(a.name().to_string())
            }
            ControlFrameKind::Flow(f, l) => Call::Flow(lch(l.session()), l.id(), f.link_credit()),
            ControlFrameKind::LocalDetachSender(_, l) => Call::LocalDetachSender(lch(l.session()), l.id()),
            ControlFrameKind::RemoteDetachSender(_, l) => Call::RemoteDetachSender(lch(l.session()), l.id()),
            ControlFrameKind::LocalDetachReceiver(_, l) => Call::LocalDetachReceiver(lch(l.session()), l.handle()),
            ControlFrameKind::RemoteDetachReceiver(_, l) => Call::RemoteDetachReceiver(lch(l.session()), l.handle()),
            ControlFrameKind::LocalSessionEnded(l) => Call::LocalSessionEnded(links(l)),
            ControlFrameKind::RemoteSessionEnded(l) => Call::RemoteSessionEnded(links(l)),
            ControlFrameKind::ProtocolError(e) => Call::ProtocolError(short(&format!("{e:?}"))),
            ControlFrameKind::Disconnected(_) => Call::Disconnected,
            ControlFrameKind::Closed => Call::Closed,
        };
        let no = self.0.see(Seen::Ctl(f.kind()));
        if !self.0.gate_ctl(call).await || self.0.fails("ctl") {
            return Err(app_error());
        }
        no.map_or(Ok(()), Err)
    }
}

pub fn short(s: &str) -> String {
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '(').take(60).collect()
}

#[derive(Clone)]
pub struct Pub(App);

pub fn body_bytes(t: &pr::Transfer) -> Vec<u8> {
    use ntex_amqp::codec::Encode;
    match t.body() {
        Some(TransferBody::Data(d)) => d.to_vec(),
        Some(TransferBody::Message(m)) => {
            let mut b = BytesMut::with_capacity(m.encoded_size());
            m.encode(&mut b);
            b.to_vec()
        }
        None => vec![],
    }
}

pub fn rmsg(d: &Delivery, t: &pr::Transfer) -> RMsg {
    RMsg {
        id: d.id(),
        tag: d.tag().to_vec(),
        settled: t.settled(),
        format: t.message_format(),
        body: body_bytes(t),
    }
}

impl Service<Message> for Pub {
    type Response = ();
    type Error = PErr;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), PErr> {
        if self.0.ready("pub").await { Ok(()) } else { Err(app_error()) }
    }
    async fn shutdown(&self) {
        self.0.down("pub")
    }
    async fn call(&self, m: Message, _: ServiceCtx<'_, Self>) -> Result<(), PErr> {
        let _busy = self.0.enter("pub");
        let app = &self.0;
        let (call, link) = match &m {
            Message::Attached(a, l) => {
                if !l.is_closed() {
                    app.i.borrow_mut().receivers.insert(a.name().to_string(), l.clone());
                }
                (Call::MAttached(a.name().to_string()), None)
            }
            Message::Detached(l) => (Call::MDetached(lch(l.session()), l.handle()), None),
            Message::DetachedAll(l) => {
                let mut v: Vec<u32> = l.iter().map(|l| l.handle()).collect();
                v.sort();
                (Call::MDetachedAll(v), None)
            }
            Message::Transfer(l) => (Call::MTransfer(lch(l.session()), l.handle()), Some(l.clone())),
        };
        let no = app.see(Seen::Msg(&m));
        let ok = app.gate_msg(call).await;
        if let Some(l) = link
            && app.cfg.take
            && ok
        {
            // any deliveries ready are taken, in order
            while let Some((d, t)) = l.get_delivery() {
                let m = rmsg(&d, &t);
                let mut i = app.i.borrow_mut();
                i.auto_op += 1;
                let op = i.auto_op;
                i.deliveries.insert(op, d);
                i.log.push(Obs::Take(op, lch(l.session()), l.handle(), m));
            }
        }
        match no {
            _ if !ok || app.fails("pub") => Err(app_error()),
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}

/// handler service of the router configuration
pub struct Handler(App, String, ReceiverLink);

impl Service<pr::Transfer> for Handler {
    type Response = Outcome;
    type Error = ntex_amqp::error::AmqpError;
    async fn call(
        &self,
        t: pr::Transfer,
        _: ServiceCtx<'_, Self>,
    ) -> Result<Outcome, Self::Error> {
        let _busy = self.0.enter(&self.1);
        let m = RMsg {
            id: t.delivery_id().unwrap_or(u32::MAX),
            tag: t.delivery_tag().map(|t| t.to_vec()).unwrap_or_default(),
            settled: t.settled(),
            format: t.message_format(),
            body: body_bytes(&t),
        };
        match self.0.gate_hnd(Call::HCall(self.1.clone(), m)).await {
            0 => Ok(Outcome::Accept),
            1 => Ok(Outcome::Reject),
            2 => Ok(Outcome::Error(app_error())),
            _ => Err(ntex_amqp::error::AmqpError::not_allowed()),
        }
    }
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Self::Error> {
        if self.0.ready(&self.1).await { Ok(()) } else { Err(ntex_amqp::error::AmqpError::not_allowed()) }
    }
    async fn shutdown(&self) {
        self.0.down(&self.1);
        self.0.gate_hnd(Call::HDrop(self.1.clone())).await;
    }
}

pub struct World {
    pub app: App,
    pub peer: Option<IoTest>,
    rd: IoTest,
    buf: Vec<u8>,
    pub mon: Mon,
    pub trace: Vec<String>,
    eof: bool,
    pub dead: bool,
    pub polls: u64,
    pub keep_trace: bool,
    pub tap: Option<Vec<(u64, Obs)>>,
    ins: BTreeMap<u64, usize>,
    pub pending_ops: BTreeMap<OpId, Ev>,
}

fn mk_cfg(c: &Cfg) -> SharedCfg {
    let mut a = AmqpServiceConfig::new()
        .set_channel_max(c.channel_max)
        .set_max_frame_size(c.max_frame)
        .set_max_size(c.max_size)
        .set_handshake_timeout(Seconds(c.hs_timeout));
    a.idle_time_out = c.idle;
    if let Some(h) = c.hostname {
        a = a.set_hostname(h)
    }
    TWEAK.with(|t| {
        if let Some(t) = &*t.borrow() {
            a = t(std::mem::take(&mut a))
        }
    });
    let io = IoConfig::new()
        .set_keepalive_timeout(Seconds(c.keepalive))
        .set_disconnect_timeout(Seconds(1));
    SharedCfg::new("MC").add(a).add(io).into()
}

impl World {
    pub fn app_inner(&self) -> std::cell::RefMut<'_, Inner> {
        self.app.i.borrow_mut()
    }

    /// build endpoint; nothing has run yet
    pub fn new(cfg: Cfg) -> World {
        let (peer, eut) = IoTest::create();
        peer.remote_buffer_cap(1 << 30);
        let rd = peer.clone();
        let app = App {
            i: Rc::new(RefCell::new(Inner {
                hook: None,
                svc: Default::default(),
                log: vec![],
                conn: None,
                sessions: Default::default(),
                senders: Default::default(),
                receivers: Default::default(),
                waited: Default::default(),
                deliveries: Default::default(),
                cancels: Default::default(),
                ctl: vec![],
                msg: vec![],
                hnd: vec![],
                hs: vec![],
                calls_ctl: vec![],
                calls_msg: vec![],
                auto_op: 1000,
            })),
            cfg: Rc::new(cfg.clone()),
        };
        let scfg = mk_cfg(&cfg);
        let io = Io::new(eut, scfg.clone());
        let iob = IoBoxed::from(io);
        match cfg.role {
            Role::Server => start_server(&app, iob, scfg),
            Role::Client => start_client(&app, iob, scfg),
        }
        World {
            mon: Mon::new(&cfg),
            app,
            peer: Some(peer),
            rd,
            buf: vec![],
            trace: vec![],
            eof: false,
            dead: false,
            polls: 0,
            keep_trace: false,
            tap: None,
            ins: Default::default(),
            pending_ops: Default::default(),
        }
    }

    fn note(&mut self, o: Obs) {
        if self.keep_trace && self.trace.len() < 4000 {
            self.trace.push(show_obs(&o));
        }
        if let Obs::Op(id, _) = &o {
            self.pending_ops.remove(id);
        }
        if let Some(t) = &mut self.tap {
            t.push((futures_timer::mc_now(), o));
            return;
        }
        self.mon.obs(&o);
    }

    pub fn drain(&mut self) {
        let l: Vec<Obs> = std::mem::take(&mut self.app.i.borrow_mut().log);
        // frames first: they were produced not later than the completion
        let b = self.rd.read_any();
        self.buf.extend_from_slice(&b);
        while let Some(it) = refc::next_item(&mut self.buf) {
            self.note(Obs::Out(it))
        }
        for o in l {
            self.note(o)
        }
        if !self.eof && self.rd.is_closed() {
            self.eof = true;
            self.note(Obs::Eof);
        }
    }

    /// run one task
    pub fn step(&mut self, poll: &mut dyn FnMut() -> bool) -> bool {
        if self.dead {
            return false;
        }
        self.polls += 1;
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| poll()));
        match r {
            Ok(more) => {
                self.drain();
                more
            }
            Err(_) => {
                let m = crate::exec::take_panic().unwrap_or_else(|| "panic".into());
                self.dead = true;
                self.note(Obs::Panic(m));
                false
            }
        }
    }

    pub fn quiesce(&mut self, poll: &mut dyn FnMut() -> bool) {
        let mut n = 0;
        self.drain();
        while self.step(poll) {
            n += 1;
            if n > 20_000 {
                self.dead = true;
                self.note(Obs::Livelock);
                return;
            }
        }
        if !self.dead {
            self.drain();
            self.mon.app_view(&self.app, &self.pending_ops);
            self.note(Obs::Quiet);
            self.mon.app_state(&self.app);
        }
    }

    /// frames of this kind the peer has sent
    pub fn n_in(&self, code: u64) -> usize {
        self.ins.get(&code).copied().unwrap_or(0)
    }

    pub fn conn(&self) -> Option<ConnectionRef> {
        self.app.i.borrow().conn.clone()
    }

    fn op<F: Future<Output = Res> + 'static>(&mut self, id: OpId, ev: &Ev, f: F) {
        self.pending_ops.insert(id, ev.clone());
        let c = Rc::new(Cancel::default());
        self.app.i.borrow_mut().cancels.insert(id, c.clone());
        let app = self.app.clone();
        let mut f = Some(Box::pin(f));
        ntex_rt::spawn(async move {
            let r = poll_fn(|cx| {
                if c.on.get() {
                    f = None;
                    return Poll::Ready(None);
                }
                *c.waker.borrow_mut() = Some(cx.waker().clone());
                match f.as_mut().unwrap().as_mut().poll(cx) {
                    Poll::Ready(v) => Poll::Ready(Some(v)),
                    Poll::Pending => Poll::Pending,
                }
            })
            .await;
            drop(f);
            if let Some(r) = r {
                app.log(Obs::Op(id, r));
            }
        });
    }

    fn pwrite(&mut self, b: &[u8]) {
        if let Some(p) = &self.peer {
            p.write(b)
        }
    }

    /// find a session by scenario name; remote opened sessions are looked up by channel
    fn session(&self, name: &str) -> Option<Session> {
        if let Some(s) = self.app.i.borrow().sessions.get(name) {
            return Some(s.clone());
        }
        let ch: u16 = name.strip_prefix('#')?.parse().ok()?;
        self.conn()?.get_session_by_local_id(ch)
    }

    pub fn inject(&mut self, ev: &Ev) {
        if self.dead {
            return;
        }
        // the application has no such session (any more)
        if let Ev::EndSession(_, n) | Ev::AttachS(_, n, _) | Ev::AttachR(_, n, _) = ev
            && self.session(n).is_none()
        {
            return;
        }
        // the monitor's bookkeeping happens before the endpoint can react
        self.note(Obs::In(ev.clone()));
        if let Ev::P(_, p) = ev {
            *self.ins.entry(p.code).or_default() += 1;
        }
        let app = self.app.clone();
        let snd = |n: &str| app.i.borrow().senders.get(n).cloned();
        let rcv = |n: &str| app.i.borrow().receivers.get(n).cloned();
        match ev {
            Ev::P(ch, p) => {
                let b = if (SASL_MECHS..=SASL_OUTCOME).contains(&p.code) {
                    refc::sasl_frame(p)
                } else {
                    refc::frame(*ch, p)
                };
                self.pwrite(&b)
            }
            Ev::PEmpty => self.pwrite(&[0, 0, 0, 8, 2, 0, 0, 0]),
            Ev::PBytes(b) => self.pwrite(b),
            Ev::PDrop => {
                self.peer.take();
            }
            Ev::PReadErr => {
                if let Some(p) = &self.peer {
                    p.read_error(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "mc"));
                }
            }
            Ev::OpenSession(id, name) => {
                let Some(c) = self.conn() else { return };
                self.op(*id, ev, {
                    let (app, name) = (app.clone(), name.to_string());
                    async move {
                        match c.open_session().await {
                            Ok(s) => {
                                let r = Res::Session {
                                    eut: s.local_channel_id(),
                                    peer: s.remote_channel_id(),
                                };
                                app.i.borrow_mut().sessions.insert(name, s);
                                r
                            }
                            Err(e) => err(e),
                        }
                    }
                });
            }
            Ev::EndSession(id, n) => {
                let Some(s) = self.session(n) else { return };
                self.op(*id, ev, async move { unit(s.end().await) });
            }
            Ev::AttachS(id, sn, name) => {
                let Some(s) = self.session(sn) else { return };
                let (app, name) = (app.clone(), *name);
                self.op(*id, ev, async move {
                    match s.build_sender_link(name, format!("addr-{name}")).attach().await {
                        Ok(l) => {
                            let r = Res::Sender {
                                handle: l.id(),
                                peer: l.remote_handle(),
                                name: l.name().to_string(),
                            };
                            app.i.borrow_mut().senders.insert(name.into(), l);
                            r
                        }
                        Err(e) => err(e),
                    }
                });
            }
            Ev::AttachR(id, sn, name) => {
                let Some(s) = self.session(sn) else { return };
                let (app, name) = (app.clone(), *name);
                self.op(*id, ev, async move {
                    match s.build_receiver_link(name, format!("addr-{name}")).attach().await {
                        Ok(l) => {
                            let r = Res::Receiver {
                                handle: l.handle(),
                                peer: l.remote_handle(),
                                name: l.name().to_string(),
                            };
                            app.i.borrow_mut().receivers.insert(name.into(), l);
                            r
                        }
                        Err(e) => err(e),
                    }
                });
            }
            Ev::Send(id, l, tag, body, settled) => {
                let Some(l) = snd(l) else { return };
                let mut b = l.transfer(Bytes::from(body.clone()));
                if let Some(t) = tag {
                    b = b.tag(Bytes::from(t.clone()))
                }
                if *settled {
                    b = b.settled()
                }
                let (app, id2) = (app.clone(), *id);
                self.op(*id, ev, sent(app, id2, b));
            }
            Ev::SendFmt(id, l, body, fmt) => {
                let Some(l) = snd(l) else { return };
                let b = l.transfer(Bytes::from(body.clone())).format(*fmt);
                let (app, id2) = (app.clone(), *id);
                self.op(*id, ev, sent(app, id2, b));
            }
            Ev::SendMsg(id, l, body) => {
                let Some(l) = snd(l) else { return };
                let m = ntex_amqp::codec::Message::with_body(Bytes::from(body.clone()));
                let b = l.transfer(m);
                let (app, id2) = (app.clone(), *id);
                self.op(*id, ev, sent(app, id2, b));
            }
            Ev::Ready(id, l) => {
                let Some(l) = snd(l) else { return };
                self.op(*id, ev, async move { Res::Bool(l.ready().await) });
            }
            Ev::OnCloseS(id, l) => {
                let Some(l) = snd(l) else { return };
                self.op(*id, ev, async move {
                    l.on_close().await;
                    Res::Ok
                });
            }
            Ev::OnCredit(id, l) => {
                let Some(l) = snd(l) else { return };
                let w = l.on_credit_update();
                self.op(*id, ev, async move {
                    w.await;
                    Res::Ok
                });
            }
            Ev::Wait(id, d) => {
                // the delivery stays owned by the world: it is taken out while waited for
                let dl = {
                    let mut i = app.i.borrow_mut();
                    match (i.deliveries.remove(d), i.waited.get(d).and_then(|x| x.upgrade())) {
                        (Some(dl), _) => {
                            let dl = Rc::new(dl);
                            i.waited.insert(*d, Rc::downgrade(&dl));
                            dl
                        }
                        (_, Some(dl)) => dl,
                        _ => return,
                    }
                };
                let (app, d) = (app.clone(), *d);
                let guard = PutBack { app, d, dl: Some(dl) };
                self.op(*id, ev, async move {
                    match guard.dl.as_ref().unwrap().wait().await {
                        Ok(s) => Res::State(s.as_ref().map(St::of_ds)),
                        Err(e) => err(e),
                    }
                });
            }
            Ev::Settle(d, st) => self.guarded(|w| {
                let dl = w.app.i.borrow_mut().deliveries.remove(d);
                if let Some(mut dl) = dl {
                    dl.settle(st.to_ds());
                    w.app.i.borrow_mut().deliveries.insert(*d, dl);
                }
            }),
            Ev::Update(d, st) => self.guarded(|w| {
                let dl = w.app.i.borrow_mut().deliveries.remove(d);
                if let Some(mut dl) = dl {
                    dl.update_state(st.to_ds());
                    w.app.i.borrow_mut().deliveries.insert(*d, dl);
                }
            }),
            Ev::DropDelivery(d) => self.guarded(|w| {
                let dl = w.app.i.borrow_mut().deliveries.remove(d);
                drop(dl);
            }),
            Ev::Recv(id, l) => {
                let Some(l) = rcv(l) else { return };
                let (app, id2) = (app.clone(), *id);
                self.op(*id, ev, async move {
                    match l.recv().await {
                        Some(Ok((d, t))) => {
                            let m = rmsg(&d, &t);
                            app.i.borrow_mut().deliveries.insert(id2, d);
                            Res::Msg(m)
                        }
                        Some(Err(e)) => err(e),
                        None => Res::End,
                    }
                });
            }
            Ev::Take(id, l) => {
                let Some(l) = rcv(l) else { return };
                if let Some((d, t)) = l.get_delivery() {
                    let m = rmsg(&d, &t);
                    app.i.borrow_mut().deliveries.insert(*id, d);
                    app.log(Obs::Op(*id, Res::Msg(m)));
                } else {
                    app.log(Obs::Op(*id, Res::End));
                }
            }
            Ev::Credit(l, n) => {
                let Some(l) = rcv(l) else { return };
                let n = *n;
                self.guarded(move |_| l.set_link_credit(n))
            }
            Ev::MaxSize(l, n) => {
                let Some(l) = rcv(l) else { return };
                l.set_max_message_size(*n)
            }
            Ev::MaxSizeS(l, n) => {
                let Some(l) = snd(l) else { return };
                l.set_max_message_size(*n)
            }
            Ev::CloseS(id, l, e) => {
                let Some(l) = snd(l) else { return };
                let e = *e;
                self.op(*id, ev, async move {
                    unit(if e {
                        l.close_with_error(app_error()).await
                    } else {
                        l.close().await
                    })
                });
            }
            Ev::CloseR(id, l, e) => {
                let Some(l) = rcv(l) else { return };
                let e = *e;
                self.op(*id, ev, async move {
                    unit(if e {
                        l.close_with_error(app_error()).await
                    } else {
                        l.close().await
                    })
                });
            }
            Ev::DetachS(id, s, h) => {
                let Some(s) = self.session(s) else { return };
                let h = *h;
                self.op(*id, ev, async move { unit(s.detach_sender_link(h, None).await) });
            }
            Ev::DetachR(id, s, h) => {
                let Some(s) = self.session(s) else { return };
                let h = *h;
                self.op(*id, ev, async move { unit(s.detach_receiver_link(h, None).await) });
            }
            Ev::Cancel(id) => {
                let c = app.i.borrow().cancels.get(id).cloned();
                self.pending_ops.remove(id);
                if let Some(c) = c {
                    c.on.set(true);
                    let w = c.waker.borrow_mut().take();
                    if let Some(w) = w {
                        w.wake()
                    }
                }
            }
            Ev::Close(id) => {
                let Some(c) = self.conn() else { return };
                self.op(*id, ev, async move { unit(c.close().await) });
            }
            Ev::CloseErr(id) => {
                let Some(c) = self.conn() else { return };
                self.op(*id, ev, async move { unit(c.close_with_error(app_error()).await) });
            }
            Ev::Force => {
                let Some(c) = self.conn() else { return };
                self.guarded(move |_| c.force_close())
            }
            Ev::Ctl(i, ok) => {
                let tx = app.i.borrow_mut().ctl.get_mut(*i).and_then(|g| g.tx.take());
                if let Some(tx) = tx {
                    let _ = tx.send(*ok);
                }
            }
            Ev::Msg(i, ok) => {
                let tx = app.i.borrow_mut().msg.get_mut(*i).and_then(|g| g.tx.take());
                if let Some(tx) = tx {
                    let _ = tx.send(*ok);
                }
            }
            Ev::Hnd(i, o) => {
                let tx = app.i.borrow_mut().hnd.get_mut(*i).and_then(|g| g.tx.take());
                if let Some(tx) = tx {
                    let _ = tx.send(*o);
                }
            }
            Ev::Time(_) => {}
        }
        self.drain();
    }

    /// lets the application take its next step of the opening
    pub fn hs_release(&mut self) -> bool {
        let tx = self.app.i.borrow_mut().hs.pop();
        tx.map(|t| t.send(true)).is_some()
    }

    /// indices of gated calls that are still unanswered
    pub fn open_ctl(&self) -> Vec<usize> {
        open(&self.app.i.borrow().ctl)
    }
    pub fn open_msg(&self) -> Vec<usize> {
        open(&self.app.i.borrow().msg)
    }
    pub fn open_hnd(&self) -> Vec<usize> {
        self.app.i.borrow().hnd.iter().enumerate().filter(|(_, g)| g.tx.is_some()).map(|x| x.0).collect()
    }
    pub fn ctl_call(&self, i: usize) -> Call {
        self.app.i.borrow().calls_ctl[i].clone()
    }

    fn guarded(&mut self, f: impl FnOnce(&mut World)) {
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(self)));
        if r.is_err() {
            let m = crate::exec::take_panic().unwrap_or_else(|| "panic".into());
            self.dead = true;
            self.note(Obs::Panic(m));
        }
    }

    /// advance virtual time to `now + ms`, firing every timer on the way
    pub fn advance(&mut self, ms: u64, poll: &mut dyn FnMut() -> bool) {
        let end = futures_timer::mc_now() + ms * 1_000_000;
        self.quiesce(poll);
        let mut n = 0;
        while let Some(d) = futures_timer::mc_next_deadline() {
            if d > end || self.dead {
                break;
            }
            n += 1;
            if n > 100_000 {
                self.dead = true;
                self.note(Obs::Livelock);
                return;
            }
            futures_timer::mc_advance_to(d.max(futures_timer::mc_now()));
            self.quiesce(poll);
        }
        futures_timer::mc_advance_to(end);
        self.quiesce(poll);
    }

    /// end of execution: tear down and run to quiescence
    pub fn teardown(&mut self, poll: &mut dyn FnMut() -> bool) {
        if self.dead {
            return;
        }
        self.mon.enabled = false;
        self.peer.take();
        self.release_gates();
        if let Some(c) = self.conn() {
            c.force_close();
        }
        self.quiesce(poll);
        self.advance(3_000, poll);
        let (d, s, r, se, c) = {
            let mut i = self.app.i.borrow_mut();
            (
                std::mem::take(&mut i.deliveries),
                std::mem::take(&mut i.senders),
                std::mem::take(&mut i.receivers),
                std::mem::take(&mut i.sessions),
                i.conn.take(),
            )
        };
        self.guarded(move |_| {
            drop(d);
            drop((s, r, se, c));
        });
        self.quiesce(poll);
    }

    /// forget what has been recorded; `keep`: sessions and links the application goes on with, deliveries below 10 stay
    pub fn forget(&mut self, keep: &[&str]) {
        {
            let mut i = self.app.i.borrow_mut();
            i.log = vec![];
            i.svc = Default::default();
            i.cancels = Default::default();
            i.ctl = vec![];
            i.msg = vec![];
            i.hnd = vec![];
            i.calls_ctl = vec![];
            i.calls_msg = vec![];
            i.auto_op = 1000;
        }
        let (a, b, c, d) = {
            let i = &mut *self.app.i.borrow_mut();
            let k = |n: &String| !keep.contains(&n.as_str());
            (
                i.sessions.extract_if(.., |n, _| k(n)).collect::<Vec<_>>(),
                i.senders.extract_if(.., |n, _| k(n)).collect::<Vec<_>>(),
                i.receivers.extract_if(.., |n, _| k(n)).collect::<Vec<_>>(),
                i.deliveries.extract_if(.., |d, _| *d >= 10).collect::<Vec<_>>(),
            )
        };
        drop((d, c, b, a));
        self.trace = vec![];
        self.ins = Default::default();
        self.pending_ops = Default::default();
        self.buf.shrink_to_fit();
        if self.tap.is_some() {
            self.tap = Some(vec![]);
        }
    }

    pub fn release_gates(&mut self) {
        // the answers count as stimuli too
        if self.mon.enabled {
            let (c, m, h) = (self.open_ctl(), self.open_msg(), self.open_hnd());
            c.into_iter().for_each(|i| self.inject(&Ev::Ctl(i, true)));
            m.into_iter().for_each(|i| self.inject(&Ev::Msg(i, true)));
            h.into_iter().for_each(|i| self.inject(&Ev::Hnd(i, 0)));
            return;
        }
        {
            let mut i = self.app.i.borrow_mut();
            let c: Vec<_> = i.ctl.iter_mut().filter_map(|g| g.tx.take()).collect();
            let m: Vec<_> = i.msg.iter_mut().filter_map(|g| g.tx.take()).collect();
            let h: Vec<_> = i.hnd.iter_mut().filter_map(|g| g.tx.take()).collect();
            drop(i);
            c.into_iter().for_each(|t| drop(t.send(true)));
            m.into_iter().for_each(|t| drop(t.send(true)));
            h.into_iter().for_each(|t| drop(t.send(0)));
        }
    }
}

struct PutBack {
    app: App,
    d: OpId,
    dl: Option<Rc<Delivery>>,
}
impl Drop for PutBack {
    fn drop(&mut self) {
        // the last waiter gives it back
        if let Some(d) = self.dl.take().and_then(|d| Rc::try_unwrap(d).ok())
            && let Ok(mut i) = self.app.i.try_borrow_mut()
        {
            i.deliveries.insert(self.d, d);
        }
    }
}

fn open(v: &[Gate]) -> Vec<usize> {
    v.iter().enumerate().filter(|(_, g)| g.tx.is_some()).map(|x| x.0).collect()
}

async fn sent(app: App, id: OpId, b: ntex_amqp::TransferBuilder) -> Res {
    match b.send().await {
        Ok(d) => {
            let r = Res::Sent { id: d.id(), tag: d.tag().to_vec() };
            app.i.borrow_mut().deliveries.insert(id, d);
            r
        }
        Err(e) => err(e),
    }
}

fn err<E: std::fmt::Debug>(e: E) -> Res {
    Res::Err(format!("{e:?}").chars().take(160).collect())
}
fn unit<E: std::fmt::Debug>(r: Result<(), E>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(e) => err(e),
    }
}

fn set_conn(app: &App, c: ConnectionRef) {
    app.i.borrow_mut().conn = Some(c.clone());
    let a = app.clone();
    let w = c.on_close();
    ntex_rt::spawn(async move {
        w.await;
        a.log(Obs::Op(999, Res::Ok));
    });
}

#[derive(Debug)]
pub struct HsErr(#[allow(dead_code)] HandshakeError);
impl From<HandshakeError> for HsErr {
    fn from(e: HandshakeError) -> Self {
        HsErr(e)
    }
}
impl From<HsErr> for PErr {
    fn from(_: HsErr) -> Self {
        app_error()
    }
}

fn refused() -> HsErr {
    HsErr(HandshakeError::Timeout)
}

fn syms(v: &[ntex_amqp::codec::types::Symbol]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

fn start_server(app: &App, io: IoBoxed, scfg: SharedCfg) {
    let a0 = app.clone();
    let hs = fn_service(move |h: Handshake| {
        let app = a0.clone();
        async move {
            let opened = match h {
                Handshake::Amqp(h) => {
                    app.log(Obs::Hs("amqp".into()));
                    if app.cfg.hs.refuse == 1 {
                        return Err(refused());
                    }
                    app.gate_hs().await;
                    h.open().await?
                }
                Handshake::Sasl(mut h) => {
                    app.log(Obs::Hs("sasl".into()));
                    let pol = app.cfg.hs.clone();
                    if pol.refuse == 1 {
                        return Err(refused());
                    }
                    for m in &pol.mechs {
                        h = h.mechanism(*m)
                    }
                    app.gate_hs().await;
                    let init = h.init().await?;
                    app.log(Obs::Hs(format!(
                        "init {} {:?} {:?}",
                        init.mechanism(),
                        init.initial_response(),
                        init.hostname()
                    )));
                    if pol.refuse == 2 {
                        return Err(refused());
                    }
                    app.gate_hs().await;
                    let succ = if let Some(c) = &pol.challenge {
                        let r = if c.is_empty() {
                            init.challenge().await?
                        } else {
                            init.challenge_with(Bytes::from(c.clone())).await?
                        };
                        app.log(Obs::Hs(format!("response {:?}", r.response())));
                        app.gate_hs().await;
                        r.outcome(pol.outcome).await?
                    } else {
                        init.outcome(pol.outcome).await?
                    };
                    if pol.outcome != SaslCode::Ok && !pol.keep_on {
                        return Err(refused());
                    }
                    app.gate_hs().await;
                    succ.open().await?
                }
            };
            let f = opened.frame();
            let r = opened.remote_config();
            app.see(Seen::Open(&opened));
            app.log(Obs::Hs(format!(
                "open {} {:?} {} {} {:?} {:?} {:?} {:?} {:?} {} | {} {} {} {:?} {:?} {:?}",
                f.container_id(),
                f.hostname().map(|h| h.to_string()),
                f.max_frame_size(),
                f.channel_max(),
                f.idle_time_out(),
                f.outgoing_locales().map(|l| syms(&l.0)),
                f.incoming_locales().map(|l| syms(&l.0)),
                f.offered_capabilities().map(|l| syms(&l.0)),
                f.desired_capabilities().map(|l| syms(&l.0)),
                f.properties().map(|p| p.len()).unwrap_or(0),
                r.max_frame_size,
                r.channel_max,
                r.idle_time_out,
                r.hostname.as_ref().map(|h| h.to_string()),
                r.offered_capabilities.as_ref().map(|l| syms(&l.0)),
                r.desired_capabilities.as_ref().map(|l| syms(&l.0)),
            )));
            if app.cfg.hs.refuse == 3 {
                return Err(refused());
            }
            app.gate_hs().await;
            set_conn(&app, opened.sink().get_ref());
            Ok::<_, HsErr>(opened.ack(()))
        }
    });
    let (a1, a2, a3) = (app.clone(), app.clone(), app.clone());
    let ctl = fn_factory_with_config(move |_: State<()>| {
        let a = a1.clone();
        async move {
            a.up("ctl");
            a.log(Obs::Hs("control-created".into()));
            Ok::<_, PErr>(Ctl(a))
        }
    });
    macro_rules! go {
        ($srv:expr) => {{
            let srv = $srv;
            ntex_rt::spawn(async move {
                let s: Result<ntex_service::Pipeline<_>, _> =
                    ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&srv, scfg).await;
                let Ok(s) = s else { return };
                let r = s.call(io).await;
                a3.log(Obs::TaskEnd(r.map_err(|e| short(&format!("{e:?}")))));
            });
        }};
    }
    if app.cfg.router {
        let mk = move |name: &'static str| {
            let a = a2.clone();
            fn_factory_with_config(move |l: Link<()>| {
                let a = a.clone();
                async move {
                    a.see(Seen::Link(&l));
                    let n = l.receiver().name().to_string();
                    a.i.borrow_mut().receivers.insert(n.clone(), l.receiver().clone());
                    a.gate_hnd(Call::HCreate(format!("{name}:{n}"))).await;
                    if !a.create(&format!("{name}:{n}")).await {
                        return Err(ntex_amqp::error::LinkError::force_detach());
                    }
                    a.up(&format!("{name}:{n}"));
                    Ok::<_, ntex_amqp::error::LinkError>(Handler(
                        a,
                        format!("{name}:{n}"),
                        l.receiver().clone(),
                    ))
                }
            })
        };
        let router = ntex_amqp::server::Router::<()>::builder()
            .service("q1", mk("q1"))
            .service("q2", mk("q2"))
            .service("t/{id}", mk("t"))
            .build();
        go!(Server::build(hs).control(ctl).finish(router))
    } else {
        let pb = fn_factory_with_config(move |_: State<()>| {
            let a = a2.clone();
            async move {
                a.up("pub");
                a.log(Obs::Hs("publish-created".into()));
                Ok::<_, PErr>(Pub(a))
            }
        });
        go!(Server::build(hs).control(ctl).finish(pb))
    }
}

fn start_client(app: &App, io: IoBoxed, scfg: SharedCfg) {
    let app = app.clone();
    ntex_rt::spawn(async move {
        let cell = Rc::new(RefCell::new(Some(io)));
        let c2 = cell.clone();
        let f = ntex_service::fn_service(move |_: ntex_net::connect::Connect<String>| {
            let io = c2.borrow_mut().take().unwrap();
            async move { Ok::<_, ntex_error::Error<ntex_net::connect::ConnectError>>(io) }
        });
        let f = ntex_service::fn_factory_with_config(move |_: SharedCfg| {
            let f = f.clone();
            async move { Ok::<_, ()>(f) }
        });
        let con = Connector::<String, _>::with(f);
        let svc: ConnectorService<String, _> =
            match ServiceFactory::<ntex_amqp::client::Connect<String>, SharedCfg>::create(&con, scfg)
                .await
            {
                Ok(s) => s,
                Err(_) => return,
            };
        let hn = app.cfg.chostname.map(ByteString::from);
        let r = if app.cfg.connector {
            let mut c = ntex_amqp::client::Connect::new("peer:1".to_string());
            if let Some((z, n, p)) = app.cfg.csasl {
                c = c.sasl_auth(z.into(), n.into(), p.into())
            }
            if let Some(h) = hn {
                c = c.hostname(h)
            }
            ntex_service::Pipeline::new(svc).call(c).await
        } else {
            let io = cell.borrow_mut().take().unwrap();
            if let Some((z, n, p)) = app.cfg.csasl {
                svc.negotiate_sasl(
                    io,
                    ntex_amqp::client::SaslAuth {
                        authz_id: z.into(),
                        authn_id: n.into(),
                        password: p.into(),
                    },
                    hn,
                )
                .await
            } else {
                svc.negotiate(io, hn).await
            }
        };
        match r {
            Ok(client) => {
                app.log(Obs::Hs("connected".into()));
                set_conn(&app, client.sink());
                let a = app.clone();
                let r = client.start(Ctl(a)).await;
                app.log(Obs::TaskEnd(r.map_err(|e| short(&format!("{e:?}")))));
            }
            Err(e) => {
                app.log(Obs::Hs(format!("failed {}", short_err(&format!("{:?}", *e)))));
                app.log(Obs::TaskEnd(Err("connect".into())));
            }
        }
    });
}

fn short_err(s: &str) -> String {
    s.chars().take(60).collect()
}

pub fn show_obs(o: &Obs) -> String {
    match o {
        Obs::In(e) => format!("  --> {}", show_ev(e)),
        Obs::Out(Item::Frame(t, ch, p, n)) => {
            format!("<--      {}ch{ch} {} ({n}B)", if *t == 1 { "sasl " } else { "" }, p.show())
        }
        Obs::Out(i) => format!("<--      {i:?}"),
        Obs::Quiet => "   .".into(),
        o => format!("       * {o:?}"),
    }
}

pub fn show_ev(e: &Ev) -> String {
    match e {
        Ev::P(ch, p) => format!("peer ch{ch} {}", p.show()),
        Ev::PBytes(b) => format!("peer bytes {b:02x?}"),
        e => format!("{e:?}"),
    }
}
