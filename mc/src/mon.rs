//! The specification: an independent model of what the endpoint may and must
//! do, fed with every stimulus and every observable reaction.
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

use crate::refc::*;
use crate::sut::*;

#[derive(Clone, Debug)]
pub struct Viol {
    pub rule: &'static str,
    pub props: &'static [&'static str],
    pub msg: String,
}

#[derive(Default, Debug, Hash)]
pub struct SessM {
    pub name: String,
    pub local: bool,
    pub op: Option<OpId>,
    pub eut_ch: Option<u16>,
    pub peer_ch: Option<u16>,
    pub begin_out: bool,
    pub begin_in: bool,
    pub end_out: bool,
    pub end_in: bool,
    pub end_cause: bool,
    pub end_op: bool,
    // outgoing transfers
    pub init_out: u32,
    pub tx: u32,
    /// (next-incoming-id, incoming-window) of Begin / Flows; the last one counts
    pub wins: Vec<(Option<u32>, u32)>,
    /// what this side last told the peer: next-incoming-id, incoming-window
    pub p_win: Option<(u32, u32)>,
    pub p_win0: u32,
    pub last_id: Option<u32>,
    // incoming transfers
    pub p_init: u32,
    pub rx: u32,
    pub rx_proc: u32,
    pub flows_out: u32,
    pub echo_due: Option<u32>,
    pub sent: BTreeMap<u32, usize>,
    pub rcv: BTreeMap<u32, usize>,
    /// what the peer would put into its next transfer
    pub p_next_delivery: u32,
}

impl SessM {
    pub fn up(&self) -> bool {
        self.begin_in && self.begin_out && !self.end_in && !self.end_out && !self.end_cause
    }
    pub fn gone(&self) -> bool {
        self.end_in && (self.end_out || self.end_cause)
    }
    fn rem(&self, w: (Option<u32>, u32)) -> i64 {
        let begin = w.0.unwrap_or(self.init_out);
        i64::from(w.1) - i64::from(self.init_out.wrapping_add(self.tx).wrapping_sub(begin) as i32)
    }
    pub fn window(&self) -> i64 {
        self.wins.last().map(|w| self.rem(*w)).unwrap_or(0)
    }
    pub fn p_next_out(&self) -> u32 {
        self.p_init.wrapping_add(self.rx)
    }
}

#[derive(Default, Debug, Hash)]
pub struct LinkM {
    pub sess: usize,
    pub name: String,
    pub eut_sender: bool,
    pub local: bool,
    pub op: Option<OpId>,
    pub eh: Option<u32>,
    pub ph: Option<u32>,
    pub attach_out: bool,
    pub attach_in: bool,
    pub detach_out: bool,
    pub detach_in: bool,
    /// something that justifies this side detaching it / operations on it failing
    pub cause: bool,
    pub call: Option<usize>,
    pub mcall: Option<usize>,
    pub refused: bool,
    /// the application (or the router) refused or failed the link with this error
    pub want_err: bool,
    pub estab: bool,
    // sending
    pub init_dc: u32,
    pub started: u32,
    pub lims: Vec<(Option<u32>, u32)>,
    pub cur: Option<usize>,
    pub q: Vec<OpId>,
    pub max_send: Option<u64>,
    // receiving
    pub p_dc: u32,
    pub begun: u32,
    pub completed: u32,
    pub completed_proc: u32,
    /// processed before anything ended the link
    pub completed_safe: u32,
    pub granted: u64,
    /// how much was granted depends on when the library counted
    pub vague: bool,
    /// credit of aborted deliveries, not announced again yet
    pub refund: u64,
    /// grants not announced yet, each with the total granted so far
    pub credit_ev: Vec<(u32, u64)>,
    pub credit_n: u32,
    pub ann: Option<(u32, u32)>,
    pub rq: Vec<usize>,
    pub handed: usize,
    pub part: Option<usize>,
    pub over: bool,
    pub oversize: bool,
    pub max_size: u64,
    pub addr: Option<String>,
}

impl LinkM {
    pub fn open(&self) -> bool {
        self.attach_in && self.attach_out && !self.detach_in && !self.detach_out && !self.cause
    }
    pub fn gone(&self) -> bool {
        self.detach_in && self.detach_out
    }
    fn rem(&self, l: (Option<u32>, u32)) -> i64 {
        let dc = l.0.unwrap_or(self.init_dc);
        i64::from(l.1) - i64::from(self.init_dc.wrapping_add(self.started).wrapping_sub(dc) as i32)
    }
    pub fn credit(&self) -> i64 {
        self.lims.last().map(|l| self.rem(*l)).unwrap_or(0)
    }
    /// credit the peer has left on a link this side receives on
    pub fn p_credit(&self) -> i64 {
        match self.ann {
            Some((dc, c)) => {
                i64::from(c) - i64::from(self.p_dc.wrapping_add(self.begun).wrapping_sub(dc) as i32)
            }
            None => 0,
        }
    }
}

#[derive(Default, Debug, Hash)]
pub struct SentM {
    pub link: usize,
    pub op: OpId,
    pub id: u32,
    pub tag: Vec<u8>,
    pub settled: bool,
    pub body: Vec<u8>,
    pub done: bool,
    pub states: Vec<St>,
    pub fresh: bool,
    pub terminal: bool,
    pub p_settled: bool,
    pub p_bare: bool,
    pub l_settled: u32,
    pub want: Option<Option<St>>,
    pub want_sure: bool,
    pub waited: bool,
}

#[derive(Default, Debug, Hash)]
pub struct RcvM {
    pub link: usize,
    pub id: u32,
    pub tag: Vec<u8>,
    pub settled: Option<bool>,
    pub format: Option<u32>,
    pub body: Vec<u8>,
    pub complete: bool,
    pub aborted: bool,
    pub bad: bool,
    pub handed: Option<OpId>,
    pub disp: u32,
    pub want: Option<Option<St>>,
    pub want_sure: bool,
    pub want_void: bool,
    pub p_settled: bool,
    pub states: Vec<St>,
    pub fresh: bool,
    pub upd: Vec<St>,
    pub hcall: Option<usize>,
    pub maybe: bool,
    pub hout: Option<u8>,
}

#[derive(Debug)]
pub struct OpM {
    pub ev: Ev,
    pub sess: Option<usize>,
    pub link: Option<usize>,
    pub sent: Option<usize>,
    pub rcv: Option<usize>,
    pub done: Option<Res>,
    pub cancelled: bool,
    pub cancel_sure: bool,
    pub flow_seen: bool,
    pub flow_maybe: bool,
}

#[derive(Debug, Clone, PartialEq, Hash)]
enum Exp {
    AttachS(usize),
    AttachR(usize),
    Flow(usize, Option<u32>),
    LDetach(usize),
    RDetach(usize),
    // links of the session, number of links still being opened by the peer (may be named too)
    LEnd(usize, (Vec<String>, usize)),
    REnd(usize, (Vec<String>, usize)),
    // message service
    MAtt(usize),
    MDet(usize),
}

/// the links named with the end of a session
fn names((must, may): &(Vec<String>, usize), v: &[String]) -> bool {
    must.iter().all(|x| v.contains(x))
        && v.len() <= must.len() + may
        && v.iter().all(|x| must.contains(x) || x.starts_with('r'))
}

pub struct Mon {
    pub enabled: bool,
    /// hostile peer: only absence of crashes and hangs is judged
    pub lite: bool,
    pub cfg: Cfg,
    pub viols: Vec<Viol>,
    pub strict: bool,
    pub lag: u32,
    /// the peer sent something the endpoint may refuse by dropping the connection
    pub astray: bool,
    pub sess: Vec<SessM>,
    pub links: Vec<LinkM>,
    pub sent: Vec<SentM>,
    pub rcv: Vec<RcvM>,
    pub out_map: BTreeMap<u16, usize>,
    pub in_map: BTreeMap<u16, usize>,
    pub ops: BTreeMap<OpId, OpM>,
    pub snames: BTreeMap<String, usize>,
    pub cur_s: BTreeMap<String, usize>,
    pub cur_r: BTreeMap<String, usize>,
    exp: Vec<(Exp, bool, bool)>,
    pub ctl_open: BTreeMap<usize, (Call, Option<usize>)>,
    pub msg_open: BTreeMap<usize, (Call, Option<usize>)>,
    pub hnd_open: BTreeMap<usize, usize>,
    // connection
    pub open_out: bool,
    pub open_in: bool,
    pub close_out: u32,
    pub close_in: bool,
    close_in_sure: bool,
    pub close_req: bool,
    pub forced: bool,
    pub lost: bool,
    pub garbage: bool,
    pub task_end: Option<Result<(), String>>,
    pub eof: bool,
    pub on_close: bool,
    pub is_opened: bool,
    pub n_closed_calls: u32,
    pub n_reason_calls: u32,
    pub panic: Option<String>,
    pub livelock: bool,
    pub events: u64,
    pub states: Vec<u64>,
    pub tags: BTreeSet<&'static str>,
}

/// the property being decided; rules of other properties are left out
pub static ONLY: std::sync::OnceLock<String> = std::sync::OnceLock::new();

macro_rules! bad {
    ($s:expr, $rule:expr, [$($p:expr),*], $($a:tt)*) => {
        $s.viol($rule, &[$($p),*], format!($($a)*))
    };
}

/// further properties a rule decides
pub fn also(rule: &str) -> &'static [&'static str] {
    match rule {
        "handed-extra" => &["C19", "C11"],
        "handed-wrong" | "not-handed" => &["C19", "C11", "C17"],
        "recv-ended" => &["C17", "C19", "C08"],
        "handed-unknown-link" => &["C11", "C19"],
        "handler-unknown" | "handler-not-called" => &["C16", "C11"],
        "close-unjustified" | "task-end-unjustified" => &["C19", "C09", "C10", "C16", "C17", "C20", "C08"],
        "detach-unjustified" => &["C19", "C20", "C16"],
        "end-unjustified" => &["C20"],
        "attach-before-answer" | "detach-error-lost" | "route-missing-accepted" => &["C10", "C20"],
        "over-credit-accepted" | "over-size-accepted" => &["C16"],
        "attach-unanswered" | "begin-unanswered" => &["C11", "C19"],
        "attach-stuck" | "open-session-stuck" => &["C11"],
        "end-unanswered" | "end-missing" | "detach-unanswered" => &["C11", "C20"],
        "detach-unknown" | "flow-unattached" | "handle-in-use" => &["C11"],
        "transfer-unattached" | "frame-outside-session" => &["C11", "C09", "C10"],
        "send-stuck" => &["C08", "C14"],
        "ready-false" | "credit-wakeup-spurious" => &["C12"],
        "order" => &["C11"],
        "sent-nothing" | "sent-failed" | "sent-partly" => &["C11", "C08"],
        "send-error" => &["C12", "C13"],
        "flow-delivery-count" => &["C13"],
        "flow-next-incoming" | "flow-next-outgoing" => &["C11"],
        "credit-unannounced" => &["C11", "C16"],
        "disp-missing" | "disp-twice" | "disp-state" | "disp-unrequested" | "disp-unknown" => {
            &["C11", "C19"]
        }
        "disp-after-gone" => &["C10", "C11"],
        "outcome-wrong" | "outcome-none" | "outcome-stuck" => &["C11", "C08"],
        "sdisp-missing" | "sdisp-unrequested" | "sdisp-state" | "sdisp-twice" => &["C11"],
        "disp-range" => &["C19"],
        "msg-unexpected" => &["C10", "C11", "C19"],
        "ctl-missing" => &["C11"],
        "ctl-unexpected" => &["C07"],
        "op-stuck-closed" => &["C07"],
        "op-stuck" => &["C09", "C10", "C11"],
        "task-alive" => &["C08"],
        "recv-stuck" => &["C11"],
        _ => &[],
    }
}

fn is_send(e: &Ev) -> bool {
    matches!(e, Ev::Send(..) | Ev::SendFmt(..) | Ev::SendMsg(..))
}

impl Mon {
    pub fn new(cfg: &Cfg) -> Mon {
        Mon {
            enabled: true,
            lite: false,
            cfg: cfg.clone(),
            viols: vec![],
            strict: false,
            lag: 0,
            sess: vec![],
            links: vec![],
            sent: vec![],
            rcv: vec![],
            out_map: Default::default(),
            astray: false,
            in_map: Default::default(),
            ops: Default::default(),
            snames: Default::default(),
            cur_s: Default::default(),
            cur_r: Default::default(),
            exp: vec![],
            ctl_open: Default::default(),
            msg_open: Default::default(),
            hnd_open: Default::default(),
            open_out: false,
            open_in: false,
            close_out: 0,
            close_in: false,
            close_in_sure: false,
            close_req: false,
            forced: false,
            lost: false,
            garbage: false,
            task_end: None,
            eof: false,
            on_close: false,
            is_opened: false,
            n_closed_calls: 0,
            n_reason_calls: 0,
            panic: None,
            livelock: false,
            events: 0,
            states: vec![],
            tags: Default::default(),
        }
    }

    fn viol(&mut self, rule: &'static str, props: &'static [&'static str], msg: String) {
        if let Some(p) = ONLY.get()
            && !props.contains(&p.as_str())
            && !also(rule).contains(&p.as_str())
        {
            return;
        }
        if self.viols.len() < 50 {
            self.viols.push(Viol { rule, props, msg });
        }
    }

    /// the connection is on its way down for a reason the scenario gave
    pub fn down(&self) -> bool {
        self.close_in
            || self.close_req
            || self.forced
            || self.lost
            || self.garbage
            || self.task_end.is_some()
            || self.eof
    }

    pub fn obs(&mut self, o: &Obs) {
        if let Obs::Panic(m) = o {
            self.panic = Some(m.clone());
            return;
        }
        if !self.enabled {
            return;
        }
        self.events += 1;
        match o {
            Obs::Livelock => self.livelock = true,
            Obs::TaskEnd(r) => {
                if self.task_end.is_some() {
                    bad!(self, "task-end-twice", ["C07"], "connection task ended twice");
                }
                if !self.down() && !self.lite && self.open_out {
                    bad!(
                        self,
                        "task-end-unjustified",
                        ["C11", "C07", "C22"],
                        "the connection ended ({r:?}) although neither side closed or lost it"
                    );
                }
                self.task_end = Some(r.clone());
            }
            Obs::Eof => {
                // a Begin of the peer may find all channels taken, also by opens made after it
                // was sent or given up since
                let max = self.cfg.channel_max.min(self.cfg.p_channel_max.unwrap_or(65535));
                let used = self.sess.len()
                    + self.ops.values().filter(|o| matches!(o.ev, Ev::OpenSession(..))).count();
                let full = used > max as usize + 1 && self.sess.iter().any(|s| !s.local);
                if !self.down() && !self.lite && self.open_out && !self.astray && !full {
                    bad!(
                        self,
                        "task-end-unjustified",
                        ["C11", "C07", "C22"],
                        "the endpoint dropped the connection although neither side closed or lost it"
                    );
                }
                self.eof = true;
            }
            Obs::Op(999, _) => {
                if !self.down() && !self.lite {
                    bad!(self, "on-close-early", ["C07"], "on_close fired on an open connection");
                }
                self.on_close = true;
            }
            _ if self.lite => match o {
                Obs::Out(i) => self.lite_out(i),
                Obs::In(e) => {
                    self.lite_in(e);
                    self.lag += 1;
                    self.strict = false;
                }
                Obs::Quiet => {
                    self.strict = true;
                    self.lag = 0;
                    self.push_state();
                }
                _ => {}
            },
            Obs::In(e) => {
                if !self.strict {
                    // two inputs at once: which came first is open
                    self.close_in_sure = false;
                }
                self.on_in(e);
                self.lag += 1;
                self.strict = false;
            }
            Obs::Out(i) => self.on_out(i),
            Obs::Op(id, r) => self.on_op(*id, r),
            Obs::Ctl(i, c) => self.on_ctl(*i, c),
            Obs::Msg(i, c) => self.on_msg(*i, c),
            Obs::Svc(_) => {}
            Obs::Hnd(i, c) => self.on_hnd(*i, c),
            Obs::Take(op, ch, h, m) => {
                let l = self.find_eh(*ch, *h, false);
                match l {
                    Some(l) => self.handed(*op, l, m),
                    None => bad!(
                        self,
                        "handed-unknown-link",
                        ["C16"],
                        "message handed out on unknown link ch{ch} handle {h}"
                    ),
                }
            }
            Obs::Hs(_) => {}
            Obs::Quiet => {
                self.quiet();
                self.close_in_sure |= self.close_in;
                self.strict = true;
                self.lag = 0;
                self.push_state();
            }
            Obs::Panic(_) => {}
        }
    }

    fn push_state(&mut self) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.sess.hash(&mut h);
        self.links.hash(&mut h);
        self.sent.hash(&mut h);
        self.rcv.hash(&mut h);
        self.exp.hash(&mut h);
        (
            self.close_out,
            self.close_in,
            self.close_req,
            self.lost,
            self.task_end.is_some(),
            self.eof,
            self.on_close,
            self.is_opened,
        )
            .hash(&mut h);
        self.ctl_open.keys().for_each(|k| k.hash(&mut h));
        self.msg_open.keys().for_each(|k| k.hash(&mut h));
        self.hnd_open.keys().for_each(|k| k.hash(&mut h));
        for (k, o) in &self.ops {
            k.hash(&mut h);
            format!("{:?}{}", o.done, o.cancelled).hash(&mut h);
        }
        self.states.push(h.finish());
    }

    pub fn app_view(&mut self, app: &App, _: &BTreeMap<OpId, Ev>) {
        if !self.enabled {
            return;
        }
        let i = app.i.borrow();
        self.is_opened = i.conn.as_ref().map(|c| c.is_opened()).unwrap_or(false);
    }

    // ---------------------------------------------------------------- what the application can ask

    /// answers of the public accessors in a state where everything received was processed
    pub fn app_state(&mut self, app: &App) {
        if !self.enabled || self.lite || !self.open_in || !self.open_out {
            return;
        }
        let i = app.i.borrow();
        let down = self.down();
        let Some(conn) = i.conn.as_ref() else { return };
        let mut v: Vec<String> = vec![];
        if down && conn.is_opened() {
            v.push("is_opened() of the connection says yes after its end".into());
        }
        if !down && !conn.is_opened() {
            v.push("is_opened() of the connection says no".into());
        }
        // sessions
        let chans: BTreeSet<u16> =
            self.sess.iter().filter_map(|s| s.eut_ch).chain(0..4).collect();
        for ch in chans {
            if down {
                break;
            }
            let m = self.sess.iter().rposition(|s| s.eut_ch == Some(ch) && s.up());
            let busy = self.sess.iter().any(|s| {
                s.eut_ch == Some(ch) && !s.up() && !(s.end_in && s.end_out)
            });
            let got = conn.get_session_by_local_id(ch);
            match (m, got) {
                (Some(m), Some(s)) => {
                    let k = &self.sess[m];
                    if s.local_channel_id() != ch || Some(s.remote_channel_id()) != k.peer_ch {
                        v.push(format!(
                            "session on channels {ch} and {:?} says it is on {} and {}",
                            k.peer_ch,
                            s.local_channel_id(),
                            s.remote_channel_id()
                        ));
                    }
                    if !self.flow_gated(m) {
                        let w = k.window().max(0) as u32;
                        if s.remote_window_size() != w {
                            v.push(format!(
                                "window of the session on channel {ch} is {w}, remote_window_size() says {}",
                                s.remote_window_size()
                            ));
                        }
                    }
                    self.view_links(m, &s, &mut v);
                }
                (Some(_), None) => {
                    v.push(format!("get_session_by_local_id({ch}) does not find an open session"))
                }
                (None, Some(_)) if !busy => v.push(format!(
                    "get_session_by_local_id({ch}) finds a session, there is none (any more)"
                )),
                _ => {}
            }
        }
        // what the application holds
        for (n, l) in &i.senders {
            let Some(x) = self.cur_s.get(n).copied() else { continue };
            self.view_held(x, n, l.is_closed(), true, &mut v);
            if l.is_opened() == l.is_closed() {
                v.push(format!("sender {n} is neither opened nor closed"));
            }
        }
        for (n, l) in &i.receivers {
            let Some(x) = self.cur_r.get(n).copied() else { continue };
            self.view_held(x, n, l.is_closed(), false, &mut v);
        }
        for (op, d) in &i.deliveries {
            let Some(o) = self.ops.get(op) else { continue };
            if let Some(x) = o.sent {
                let k = &self.sent[x];
                if !self.alive(k.link) || k.settled || k.l_settled > 0 || k.want.is_some() {
                    continue;
                }
                if d.id() != k.id || d.tag()[..] != k.tag[..] {
                    v.push(format!("delivery {} says its id is {}", k.id, d.id()));
                }
                if d.is_remote_settled() != k.p_settled {
                    v.push(format!(
                        "delivery {}: is_remote_settled() says {}",
                        k.id,
                        d.is_remote_settled()
                    ));
                }
                let st = d.remote_state().map(|s| St::of_ds(&s));
                // a state that is not final is taken by whoever waits
                let taken = st.is_none() && k.waited && k.states.last() == Some(&St::Modified);
                if st != k.states.last().copied() && !taken {
                    v.push(format!(
                        "delivery {}: remote_state() says {st:?}, the peer said {:?}",
                        k.id, k.states
                    ));
                }
            } else if let Some(x) = o.rcv {
                let k = &self.rcv[x];
                if d.id() != k.id || d.tag()[..] != k.tag[..] {
                    v.push(format!("delivery {} says its id is {}", k.id, d.id()));
                }
                if !self.alive(k.link) || k.settled == Some(true) || k.want.is_some() {
                    continue;
                }
                if d.is_remote_settled() != k.p_settled {
                    v.push(format!(
                        "received delivery {}: is_remote_settled() says {}",
                        k.id,
                        d.is_remote_settled()
                    ));
                }
            }
        }
        drop(i);
        for m in v {
            bad!(self, "accessor", ["C23"], "{m}");
        }
    }

    fn view_held(&self, x: usize, n: &str, closed: bool, snd: bool, v: &mut Vec<String>) {
        let k = &self.links[x];
        let what = if snd { "sender" } else { "receiver" };
        let s = &self.sess[k.sess];
        if self.alive(x) && !self.gated(x) && closed {
            v.push(format!("{what} {n}: is_closed() says yes, the link is attached"));
        }
        if !closed && (self.down() || s.gone() || k.gone()) {
            v.push(format!("{what} {n}: is_closed() says no, the link is gone"));
        }
    }

    fn view_links(&self, m: usize, s: &ntex_amqp::Session, v: &mut Vec<String>) {
        let mut handles: BTreeSet<u32> = (0..4).collect();
        let mut phandles: BTreeSet<u32> = (0..4).collect();
        let mut names: BTreeSet<&str> = BTreeSet::new();
        for l in self.links.iter().filter(|l| l.sess == m) {
            handles.extend(l.eh);
            phandles.extend(l.ph);
            names.insert(&l.name);
            names.extend(l.addr.as_deref());
        }
        let of = |f: &dyn Fn(&LinkM) -> bool| {
            self.links.iter().enumerate().rposition(|(i, l)| {
                l.sess == m && f(l) && self.alive(i) && !self.gated(i)
            })
        };
        // something else may be found there
        let busy = |f: &dyn Fn(&LinkM) -> bool| {
            self.links.iter().enumerate().any(|(i, l)| {
                l.sess == m
                    && f(l)
                    && !(self.alive(i) && !self.gated(i))
                    && !(l.detach_in && l.detach_out)
            })
        };
        for h in handles {
            for (snd, local) in [(true, true), (false, true)] {
                self.view_handle(h, snd, local, s, &of, &busy, v);
            }
        }
        for h in phandles {
            for (snd, local) in [(true, false), (false, false)] {
                self.view_handle(h, snd, local, s, &of, &busy, v);
            }
        }
        for n in names {
            let fit = |l: &LinkM| {
                l.eut_sender && (if l.local { l.name == n } else { l.addr.as_deref() == Some(n) })
            };
            let got = s.get_sender_link(n);
            let live: Vec<u32> = self
                .links
                .iter()
                .enumerate()
                .filter(|(i, l)| l.sess == m && fit(l) && self.alive(*i) && !self.gated(*i))
                .filter_map(|(_, l)| l.eh)
                .collect();
            match got {
                Some(g) if !live.contains(&g.id()) && !busy(&fit) => {
                    v.push(format!("get_sender_link({n:?}) finds handle {}, not {live:?}", g.id()))
                }
                None if live.len() == 1
                    // a later link may have taken the name over
                    && self.links.iter().filter(|l| l.sess == m && fit(l)).count() == 1 =>
                {
                    v.push(format!("get_sender_link({n:?}) does not find handle {}", live[0]))
                }
                _ => {}
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn view_handle(
        &self,
        h: u32,
        snd: bool,
        local: bool,
        s: &ntex_amqp::Session,
        of: &dyn Fn(&dyn Fn(&LinkM) -> bool) -> Option<usize>,
        busy: &dyn Fn(&dyn Fn(&LinkM) -> bool) -> bool,
        v: &mut Vec<String>,
    ) {
        let fit =
            |l: &LinkM| l.eut_sender == snd && (if local { l.eh } else { l.ph }) == Some(h);
        let x = of(&fit);
        // (id, remote handle, name, closed, credit, deliveries ready)
        let got = if snd {
            let l = if local {
                s.get_sender_link_by_local_handle(h)
            } else {
                s.get_sender_link_by_remote_handle(h)
            };
            l.map(|l| {
                (l.id(), l.remote_handle(), l.name().to_string(), l.is_closed(), l.credit(), false)
            })
        } else {
            let l = if local {
                s.get_receiver_link_by_local_handle(h)
            } else {
                s.get_receiver_link_by_remote_handle(h)
            };
            l.map(|l| {
                let d = l.has_deliveries();
                (l.handle(), l.remote_handle(), l.name().to_string(), l.is_closed(), l.credit(), d)
            })
        };
        let what = format!(
            "{} with {} handle {h}",
            if snd { "sender" } else { "receiver" },
            if local { "local" } else { "remote" }
        );
        match (x, got) {
            (Some(x), Some((id, rh, name, closed, credit, ready))) => {
                let k = &self.links[x];
                if Some(id) != k.eh || Some(rh) != k.ph {
                    v.push(format!(
                        "{what}: handles are {:?} and {:?}, found {id} and {rh}",
                        k.eh, k.ph
                    ));
                    return;
                }
                // the name of a sender the peer opened is its source's address
                let named = if snd && !k.local { k.addr.clone().unwrap_or_default() } else { k.name.clone() };
                if name != named {
                    v.push(format!("{what}: name() says {name:?}, it is {named:?}"));
                }
                if closed {
                    v.push(format!("{what}: is_closed() says yes, the link is attached"));
                }
                if snd {
                    let c = k.credit().max(0) as u32;
                    if !self.flow_gated(k.sess) && credit != c {
                        v.push(format!("{what}: credit() says {credit}, it is {c}"));
                    }
                } else {
                    let c = k.granted.saturating_sub(k.completed as u64);
                    if credit as u64 != c && !k.vague {
                        v.push(format!("{what}: credit() says {credit}, it is {c}"));
                    }
                    let due = k.rq.iter().any(|r| {
                        let r = &self.rcv[*r];
                        r.complete && !r.aborted && !r.bad && r.handed.is_none()
                    });
                    if due != ready && !self.cfg.router {
                        v.push(format!("{what}: has_deliveries() says {ready}"));
                    }
                }
            }
            (Some(_), None) => v.push(format!("{what} is attached but not found")),
            (None, Some((id, ..))) if !busy(&fit) => {
                v.push(format!("{what} found as handle {id}, no such link is attached"))
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- lookups

    pub fn find_eh(&self, ch: u16, h: u32, sender: bool) -> Option<usize> {
        let s = *self.out_map.get(&ch)?;
        self.links
            .iter()
            .enumerate()
            .rev()
            .find(|(_, l)| l.sess == s && l.eh == Some(h) && l.eut_sender == sender)
            .map(|x| x.0)
    }
    /// live (not detached by EUT) link by EUT's handle on the session
    fn out_link(&self, s: usize, h: u32) -> Option<usize> {
        self.links
            .iter()
            .enumerate()
            .rev()
            .find(|(_, l)| l.sess == s && l.eh == Some(h) && l.attach_out && !l.detach_out)
            .map(|x| x.0)
    }
    fn in_link(&self, s: usize, h: u32) -> Option<usize> {
        self.links
            .iter()
            .enumerate()
            .rev()
            .find(|(_, l)| l.sess == s && l.ph == Some(h) && l.attach_in && !l.detach_in)
            .map(|x| x.0)
    }
    /// newest link with the name
    pub fn link(&self, name: &str) -> Option<&LinkM> {
        self.links.iter().rev().find(|l| l.name == name)
    }
    pub fn link_dir(&self, name: &str, eut_sender: bool) -> Option<&LinkM> {
        self.links.iter().rev().find(|l| l.name == name && l.eut_sender == eut_sender)
    }
    pub fn session(&self, name: &str) -> Option<&SessM> {
        self.sess_idx(name).map(|i| &self.sess[i])
    }
    pub fn sess_idx(&self, name: &str) -> Option<usize> {
        if let Some(i) = self.snames.get(name) {
            return Some(*i);
        }
        let ch: u16 = name.strip_prefix('#')?.parse().ok()?;
        self.out_map.get(&ch).copied()
    }
    pub fn by_peer(&self, ch: u16) -> Option<&SessM> {
        self.in_map.get(&ch).map(|i| &self.sess[*i])
    }
    pub fn op_done(&self, op: OpId) -> bool {
        self.ops.get(&op).map(|o| o.done.is_some()).unwrap_or(false)
    }
    pub fn op_pending(&self, op: OpId) -> bool {
        self.ops.get(&op).map(|o| o.done.is_none() && !o.cancelled).unwrap_or(false)
    }
    pub fn sent_of(&self, op: OpId) -> Option<&SentM> {
        self.ops.get(&op).and_then(|o| o.sent).map(|i| &self.sent[i])
    }
    fn gated(&self, l: usize) -> bool {
        self.ctl_open.values().any(|(_, x)| *x == Some(l))
            || self.msg_open.values().any(|(_, x)| *x == Some(l))
    }
    fn flow_gated(&self, s: usize) -> bool {
        self.ctl_open.values().any(|(c, l)| {
            matches!(c, Call::Flow(..)) && l.map(|l| self.links[l].sess == s).unwrap_or(true)
        })
    }
    pub fn alive(&self, l: usize) -> bool {
        self.links[l].open() && self.sess[self.links[l].sess].up() && !self.down()
    }
    /// failing or finishing early is justified for things on this link
    fn link_excuse(&self, l: usize) -> bool {
        let l = &self.links[l];
        l.cause || l.detach_in || l.detach_out || self.sess_excuse(l.sess)
    }
    fn sess_excuse(&self, s: usize) -> bool {
        let s = &self.sess[s];
        s.end_in || s.end_out || s.end_cause || self.down()
    }

    // ---------------------------------------------------------------- stimuli

    fn new_op(&mut self, id: OpId, ev: &Ev, sess: Option<usize>, link: Option<usize>) {
        self.ops.insert(
            id,
            OpM {
                ev: ev.clone(),
                sess,
                link,
                sent: None,
                rcv: None,
                done: None,
                cancelled: false,
                cancel_sure: false,
                flow_seen: false,
                flow_maybe: false,
            },
        );
    }

    fn established(&self, s: usize) -> (Vec<String>, usize) {
        let mut v: Vec<String> = self
            .links
            .iter()
            .filter(|l| l.sess == s && l.open() && l.estab)
            .map(|l| format!("{}{}", if l.eut_sender { "s" } else { "r" }, l.eh.unwrap_or(9999)))
            .collect();
        v.sort();
        let opening = self
            .links
            .iter()
            .filter(|l| l.sess == s && !l.local && !l.eut_sender && l.attach_in && !l.gone() && !l.estab)
            .count();
        (v, opening)
    }

    fn on_in(&mut self, e: &Ev) {
        let strict = self.strict;
        match e {
            Ev::P(ch, p) => {
                let late = self.close_in || self.close_out > 0 || self.down();
                if late && !strict && self.close_out == 0 && !self.close_in && !self.lost && !self.forced {
                    // the application's close may or may not have come first
                    let n = self.exp.len();
                    self.peer_frame(*ch, p, false);
                    for x in &mut self.exp[n..] {
                        x.2 = true;
                    }
                    return;
                }
                if late {
                    // too late: must have no effect
                    if p.code == CLOSE {
                        self.close_in = true;
                    }
                    return;
                }
                self.peer_frame(*ch, p, strict)
            }
            Ev::PEmpty => {}
            Ev::PBytes(_) => {}
            Ev::PDrop | Ev::PReadErr => self.lost = true,
            Ev::OpenSession(id, _) => self.new_op(*id, e, None, None),
            Ev::EndSession(id, n) => {
                let Some(s) = self.sess_idx(n) else { return };
                self.new_op(*id, e, Some(s), None);
                let first = !self.sess[s].end_op;
                self.sess[s].end_op = true;
                if first && (!self.sess[s].end_in || !strict) {
                    let l = self.established(s);
                    let opt = !strict || self.down();
                    self.exp.push((Exp::LEnd(s, l), false, opt));
                    if !strict && self.sess[s].end_in {
                        for x in &mut self.exp {
                            if matches!(x.0, Exp::REnd(k, _) if k == s) {
                                x.2 = true
                            }
                        }
                    }
                }
                self.sess[s].end_cause = true;
            }
            Ev::AttachS(id, n, _) | Ev::AttachR(id, n, _) => {
                let Some(s) = self.sess_idx(n) else { return };
                self.new_op(*id, e, Some(s), None);
            }
            Ev::Send(id, n, ..) | Ev::SendFmt(id, n, ..) | Ev::SendMsg(id, n, ..) => {
                let Some(l) = self.cur_s.get(*n).copied() else { return };
                self.new_op(*id, e, Some(self.links[l].sess), Some(l));
                self.links[l].q.push(*id);
            }
            Ev::Ready(id, n) | Ev::OnCloseS(id, n) | Ev::OnCredit(id, n) => {
                let Some(l) = self.cur_s.get(*n).copied() else { return };
                let maybe = !strict || self.flow_gated(self.links[l].sess);
                self.new_op(*id, e, Some(self.links[l].sess), Some(l));
                self.ops.get_mut(id).unwrap().flow_maybe = maybe;
            }
            Ev::Wait(id, d) => {
                let Some(o) = self.ops.get(d) else { return };
                let (s, l, sent, rcv) = (o.sess, o.link, o.sent, o.rcv);
                self.new_op(*id, e, s, l);
                let o = self.ops.get_mut(id).unwrap();
                o.sent = sent;
                o.rcv = rcv;
            }
            Ev::Settle(d, st) => self.want(*d, Some(*st), strict),
            Ev::DropDelivery(d) => self.want(*d, None, strict),
            Ev::Update(d, st) => {
                if let Some(r) = self.ops.get(d).and_then(|o| o.rcv) {
                    self.rcv[r].upd.push(*st)
                }
            }
            Ev::Recv(id, n) | Ev::Take(id, n) => {
                let Some(l) = self.cur_r.get(*n).copied() else { return };
                self.new_op(*id, e, Some(self.links[l].sess), Some(l));
            }
            Ev::Credit(n, c) => {
                let Some(l) = self.cur_r.get(*n).copied() else { return };
                let l = &mut self.links[l];
                // a total above what a flow can state is held at its maximum
                let most = u64::from(l.completed) + u64::from(u32::MAX);
                let sure = u64::from(l.completed_proc) + u64::from(u32::MAX);
                if l.granted + u64::from(*c) > sure && sure != most {
                    l.vague = true;
                }
                l.granted = (l.granted + u64::from(*c)).min(most);
                let t = l.granted;
                l.credit_ev.push((*c, t));
                l.credit_n += 1;
            }
            Ev::MaxSize(n, v) => {
                let Some(l) = self.cur_r.get(*n).copied() else { return };
                self.links[l].max_size = *v;
            }
            Ev::MaxSizeS(n, v) => {
                let Some(l) = self.cur_s.get(*n).copied() else { return };
                self.links[l].max_send = Some(*v as u64);
            }
            Ev::CloseS(id, n, er) => {
                let Some(l) = self.cur_s.get(*n).copied() else { return };
                self.close_link(*id, e, l, *er, strict)
            }
            Ev::CloseR(id, n, er) => {
                let Some(l) = self.cur_r.get(*n).copied() else { return };
                self.close_link(*id, e, l, *er, strict)
            }
            Ev::DetachS(id, n, h) | Ev::DetachR(id, n, h) => {
                let Some(s) = self.sess_idx(n) else { return };
                let snd = matches!(e, Ev::DetachS(..));
                let l = self
                    .links
                    .iter()
                    .rposition(|l| l.sess == s && l.eh == Some(*h) && l.eut_sender == snd);
                match l {
                    Some(l) if !self.links[l].gone() => self.close_link(*id, e, l, false, strict),
                    _ => self.new_op(*id, e, Some(s), None),
                }
            }
            Ev::Cancel(id) => {
                if let Some(o) = self.ops.get_mut(id)
                    && o.done.is_none()
                {
                    o.cancelled = true;
                    o.cancel_sure = strict;
                }
            }
            Ev::Close(id) | Ev::CloseErr(id) => {
                self.new_op(*id, e, None, None);
                self.close_req = true;
            }
            Ev::Force => self.forced = true,
            Ev::Ctl(i, ok) => {
                if let Some((c, l)) = self.ctl_open.remove(i)
                    && let Some(l) = l
                {
                    match c {
                        Call::AttachSender(_) | Call::AttachReceiver(_) => {
                            self.links[l].estab = *ok;
                            if !ok {
                                self.links[l].cause = true;
                                self.links[l].refused = true;
                                self.links[l].want_err = true;
                            }
                        }
                        Call::Flow(..) if !ok => {
                            if self.links[l].open() {
                                self.links[l].want_err = true;
                                if self.links[l].estab && !self.down() {
                                    self.exp.push((Exp::LDetach(l), false, !strict));
                                }
                            }
                            self.late_detach(l, strict);
                            self.links[l].cause = true;
                        }
                        _ => {}
                    }
                }
            }
            Ev::Msg(i, ok) => {
                if let Some((c, l)) = self.msg_open.remove(i)
                    && let Some(l) = l
                    && !ok
                {
                    if matches!(c, Call::MAttached(_)) {
                        self.links[l].refused = true;
                        self.links[l].want_err = true;
                        self.links[l].cause = true;
                    } else if matches!(c, Call::MTransfer(..)) {
                        if self.links[l].open() {
                            self.links[l].want_err = true;
                            self.exp.push((Exp::LDetach(l), false, !strict));
                        }
                        self.late_detach(l, strict);
                        self.links[l].cause = true;
                    }
                }
            }
            Ev::Hnd(i, o) => {
                if let Some(r) = self.hnd_open.remove(i) {
                    self.rcv[r].hout = Some(*o);
                    let sure = strict && self.alive(self.rcv[r].link);
                    let gone = self.gone_for(self.rcv[r].link) && strict;
                    let r = &mut self.rcv[r];
                    r.want = Some(Some(if *o == 0 { St::Accepted } else { St::Rejected }));
                    r.want_sure = sure;
                    r.want_void = gone;
                }
            }
            Ev::Time(_) => {}
        }
    }

    /// the link fails while a Detach of the peer may not have been read
    fn late_detach(&mut self, l: usize, strict: bool) {
        if !strict && self.links[l].detach_in {
            for x in &mut self.exp {
                if x.0 == Exp::RDetach(l) {
                    x.2 = true
                }
            }
            self.exp.push((Exp::LDetach(l), false, true));
        }
    }

    fn gone_for(&self, l: usize) -> bool {
        let l = &self.links[l];
        l.gone() || self.sess[l.sess].gone() || self.down()
    }

    fn want(&mut self, d: OpId, st: Option<St>, strict: bool) {
        let Some(o) = self.ops.get(&d) else { return };
        if let Some(r) = o.rcv {
            let sure = strict && self.alive(self.rcv[r].link);
            let gone = strict && self.gone_for(self.rcv[r].link);
            let r = &mut self.rcv[r];
            if r.want.is_none() {
                r.want = Some(st);
                r.want_sure = sure;
                r.want_void = gone;
            }
        } else if let Some(s) = o.sent {
            let sure = strict && self.alive(self.sent[s].link) && !self.sent[s].p_settled;
            let s = &mut self.sent[s];
            if s.want.is_none() {
                s.want = Some(st);
                s.want_sure = sure;
            }
        }
    }

    fn close_link(&mut self, id: OpId, e: &Ev, l: usize, er: bool, strict: bool) {
        self.new_op(id, e, Some(self.links[l].sess), Some(l));
        let up = self.links[l].open() && self.sess[self.links[l].sess].up() && !self.down();
        if self.links[l].estab {
            self.exp.push((Exp::LDetach(l), false, !strict || !up));
            if !strict {
                for x in &mut self.exp {
                    if x.0 == Exp::RDetach(l) {
                        x.2 = true
                    }
                }
            }
        }
        if up && self.links[l].estab {
            self.links[l].want_err = er;
        }
        self.links[l].cause = true;
    }

    fn peer_frame(&mut self, ch: u16, p: &Perf, strict: bool) {
        match p.code {
            OPEN => self.open_in = true,
            CLOSE => {
                self.close_in = true;
                self.close_in_sure = strict;
            }
            BEGIN => {
                let nout = p.u32(1).unwrap_or(0);
                let win = p.u32(2).unwrap_or(0);
                if let V::U16(rc) = p.get(0) {
                    if let Some(i) = self
                        .sess
                        .iter()
                        .rposition(|s| s.local && s.eut_ch == Some(*rc) && !s.begin_in)
                    {
                        let s = &mut self.sess[i];
                        s.peer_ch = Some(ch);
                        s.begin_in = true;
                        s.p_init = nout;
                        s.wins.push((None, win));
                        self.in_map.insert(ch, i);
                    }
                } else {
                    self.sess.push(SessM {
                        peer_ch: Some(ch),
                        begin_in: true,
                        p_init: nout,
                        wins: vec![(None, win)],
                        ..Default::default()
                    });
                    self.in_map.insert(ch, self.sess.len() - 1);
                }
            }
            END => {
                let Some(s) = self.in_map.remove(&ch) else {
                    self.astray = true;
                    return;
                };
                if !self.sess[s].end_op {
                    let l = self.established(s);
                    self.exp.push((Exp::REnd(s, l), false, self.sess[s].end_cause));
                } else if !strict {
                    // both at once: either may be reported
                    let l = self.established(s);
                    self.exp.push((Exp::REnd(s, l), false, true));
                    for x in &mut self.exp {
                        if matches!(x.0, Exp::LEnd(k, _) if k == s) {
                            x.2 = true
                        }
                    }
                }
                self.sess[s].end_in = true;
            }
            _ => {
                let Some(s) = self.in_map.get(&ch).copied() else {
                    self.astray = true;
                    return;
                };
                self.session_frame(s, p, strict)
            }
        }
    }

    fn session_frame(&mut self, s: usize, p: &Perf, strict: bool) {
        let ended = self.sess[s].end_cause || self.sess[s].end_out;
        match p.code {
            ATTACH => {
                let V::Str(name) = p.get(0).clone() else { return };
                let h = p.u32(1).unwrap_or(0);
                let eut_sender = p.bool(2) == Some(true);
                let own = self.links.iter().rposition(|l| {
                    l.sess == s
                        && l.local
                        && l.name == name
                        && l.eut_sender == eut_sender
                        && !l.attach_in
                });
                let pdc = p.u32(9);
                let mms = match p.get(10) {
                    V::U64(x) => Some(*x),
                    _ => None,
                };
                if let Some(l) = own {
                    let l = &mut self.links[l];
                    l.attach_in = true;
                    l.estab = true;
                    l.ph = Some(h);
                    if !eut_sender {
                        l.p_dc = pdc.unwrap_or(0);
                    } else {
                        l.max_send = mms.filter(|m| *m != 0);
                    }
                } else if !ended || !strict {
                    let term = if eut_sender { p.get(5) } else { p.get(6) };
                    let addr = if let V::Desc(_, v) = term
                        && let V::List(f) = &**v
                        && let Some(V::Str(a)) = f.first()
                    {
                        Some(a.clone())
                    } else {
                        None
                    };
                    self.links.push(LinkM {
                        sess: s,
                        name,
                        eut_sender,
                        ph: Some(h),
                        attach_in: true,
                        p_dc: pdc.unwrap_or(0),
                        max_send: if eut_sender { mms.filter(|m| *m != 0) } else { None },
                        max_size: 262_144,
                        addr,
                        ..Default::default()
                    });
                    let i = self.links.len() - 1;
                    if self.cfg.router && !eut_sender && route(self.links[i].addr.as_deref()).is_none() {
                        let k = &mut self.links[i];
                        k.cause = true;
                        k.refused = true;
                        k.want_err = true;
                    }
                    // the end of the session may be carried out before or after this arrives
                    self.links[i].cause |= ended;
                    self.exp.push((
                        if eut_sender { Exp::AttachS(i) } else { Exp::AttachR(i) },
                        false,
                        ended,
                    ));
                    if !eut_sender {
                        self.exp.push((Exp::MAtt(i), false, true));
                    }
                }
            }
            DETACH => {
                let Some(l) = self.in_link(s, p.u32(0).unwrap_or(u32::MAX)) else {
                    self.astray = true;
                    return;
                };
                self.links[l].detach_in = true;
                let k = &self.links[l];
                if !ended && k.estab && k.attach_out {
                    let both = k.cause;
                    if !both {
                        self.exp.push((Exp::RDetach(l), false, false));
                    } else if !strict {
                        self.exp.push((Exp::RDetach(l), false, true));
                        for x in &mut self.exp {
                            if x.0 == Exp::LDetach(l) {
                                x.2 = true
                            }
                        }
                    }
                    if !k.eut_sender {
                        self.exp.push((Exp::MDet(l), false, true));
                    }
                } else {
                    self.exp.push((Exp::RDetach(l), false, true));
                }
            }
            FLOW => {
                let nii = p.u32(0);
                let win = p.u32(1).unwrap_or(0);
                let n = self.sess[s].flows_out;
                self.sess[s].wins.push((nii, win));
                if p.bool(9) == Some(true) && !ended {
                    self.sess[s].echo_due = Some(n);
                }
                if let Some(h) = p.u32(4)
                    && let Some(l) = self.in_link(s, h)
                    && self.links[l].eut_sender
                {
                    let k = &self.links[l];
                    let dead = ended || k.detach_out || k.cause;
                    if !dead || !strict {
                        let opt = !k.attach_out || !strict;
                        self.exp.push((Exp::Flow(l, p.u32(6)), false, opt));
                    }
                    if let Some(c) = p.u32(6) {
                        self.links[l].lims.push((p.u32(5), c));
                        let k = &self.links[l];
                        if k.credit() > 0 && k.attach_out {
                            for o in self.ops.values_mut() {
                                if o.link == Some(l) && matches!(o.ev, Ev::OnCredit(..)) {
                                    o.flow_seen = true
                                }
                            }
                        }
                    }
                }
            }
            TRANSFER => {
                self.sess[s].rx = self.sess[s].rx.wrapping_add(1);
                let Some(l) = self.in_link(s, p.u32(0).unwrap_or(u32::MAX)) else {
                    self.astray = true;
                    return;
                };
                if self.links[l].eut_sender {
                    self.astray = true;
                    return;
                }
                self.astray |= !self.links[l].attach_out;
                let dead = ended || self.links[l].cause || self.links[l].detach_out;
                let more = p.bool(5) == Some(true);
                let aborted = p.bool(9) == Some(true);
                let r = match self.links[l].part {
                    Some(r) => r,
                    None => {
                        let id = p.u32(1).unwrap_or(0);
                        let tag = match p.get(2) {
                            V::Bin(b) => b.clone(),
                            _ => vec![],
                        };
                        let k = &mut self.links[l];
                        let over = k.p_credit() <= 0 && k.begun as u64 >= k.granted + k.refund;
                        k.begun = k.begun.wrapping_add(1);
                        if over && !dead {
                            k.over = true;
                            k.cause = true;
                        }
                        self.rcv.push(RcvM {
                            link: l,
                            id,
                            tag,
                            settled: p.bool(4),
                            format: p.u32(3),
                            bad: over || dead,
                            ..Default::default()
                        });
                        let r = self.rcv.len() - 1;
                        self.links[l].rq.push(r);
                        self.links[l].part = Some(r);
                        self.sess[s].rcv.insert(id, r);
                        self.sess[s].p_next_delivery = id.wrapping_add(1);
                        r
                    }
                };
                // any of its transfers may say so
                if p.bool(4) == Some(true) {
                    self.rcv[r].settled = Some(true);
                }
                let multi = more || !self.rcv[r].body.is_empty() || self.links[l].part_frames(r);
                self.rcv[r].body.extend_from_slice(&p.payload);
                if dead {
                    self.rcv[r].bad = true;
                    // the close may be executed later than this arrives
                    self.rcv[r].maybe |= !strict && !self.links[l].detach_out;
                }
                if multi
                    && self.rcv[r].body.len() as u64 > self.links[l].max_size
                    && !self.rcv[r].bad
                    && !aborted
                {
                    self.rcv[r].bad = true;
                    // a first fragment that alone is too large may be noticed late
                    self.links[l].oversize = true;
                    self.links[l].cause = true;
                }
                if aborted {
                    self.rcv[r].aborted = true;
                    self.links[l].part = None;
                    // what it used is given back, said or not yet
                    self.links[l].refund += 1;
                    self.links[l].completed = self.links[l].completed.wrapping_add(1);
                } else if !more {
                    self.rcv[r].complete = true;
                    self.links[l].part = None;
                    if !self.rcv[r].bad {
                        self.links[l].completed = self.links[l].completed.wrapping_add(1);
                    }
                }
            }
            DISPOSITION => {
                let role_rcv = p.bool(0) == Some(true);
                let first = p.u32(1).unwrap_or(0);
                let last = p.u32(2).unwrap_or(first);
                let settled = p.bool(3) == Some(true);
                let st = St::of_v(p.get(4));
                let n = last.wrapping_sub(first);
                let inr = |id: u32| id.wrapping_sub(first) <= n;
                if role_rcv {
                    let ids: Vec<usize> = self.sess[s]
                        .sent
                        .iter()
                        .filter(|(k, _)| inr(**k))
                        .map(|(_, v)| *v)
                        .collect();
                    for i in ids {
                        let d = &mut self.sent[i];
                        if d.settled {
                            continue;
                        }
                        if let Some(st) = st {
                            d.states.push(st);
                            d.fresh = true;
                            if !matches!(st, St::Modified | St::Received) {
                                d.terminal = true;
                            }
                        }
                        if settled {
                            d.p_bare |= d.states.iter().all(|s| *s == St::Modified);
                            d.p_settled = true;
                            d.fresh = true;
                            d.terminal = true;
                            d.want_sure = d.want_sure && d.want.is_some() && strict;
                        }
                    }
                } else {
                    let ids: Vec<usize> = self.sess[s]
                        .rcv
                        .iter()
                        .filter(|(k, _)| inr(**k))
                        .map(|(_, v)| *v)
                        .collect();
                    for i in ids {
                        let d = &mut self.rcv[i];
                        d.states.extend(st);
                        d.p_settled |= settled;
                        d.fresh |= settled || st.is_some();
                    }
                }
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- wire output

    fn lite_out(&mut self, i: &Item) {
        match i {
            Item::Frame(0, _, p, _) if p.code == CLOSE => self.close_out += 1,
            Item::Frame(0, _, p, _) if p.code == OPEN => self.open_out = true,
            Item::Bad(m) => bad!(self, "bad-output", ["C01", "C14"], "undecodable output: {m}"),
            _ => {}
        }
    }

    fn lite_in(&mut self, e: &Ev) {
        match e {
            Ev::P(_, p) if p.code == CLOSE => self.close_in = true,
            Ev::P(_, p) if p.code == OPEN => self.open_in = true,
            Ev::PDrop | Ev::PReadErr => self.lost = true,
            Ev::Close(_) | Ev::CloseErr(_) => self.close_req = true,
            Ev::Force => self.forced = true,
            _ => {}
        }
    }

    fn on_out(&mut self, it: &Item) {
        if self.close_out > 0 {
            bad!(
                self,
                "after-close",
                ["C07"],
                "frame sent after this side's Close: {}",
                show_obs(&Obs::Out(it.clone())).trim()
            );
        }
        match it {
            Item::Bad(m) => bad!(self, "bad-output", ["C01", "C14"], "undecodable output: {m}"),
            Item::Header(_) => {
                if self.open_out {
                    bad!(self, "header-late", ["C05", "C06"], "protocol header after Open");
                }
            }
            Item::Empty(_) => {
                if self.close_in_sure {
                    bad!(self, "after-peer-close", ["C07"], "empty frame after the peer's Close");
                }
            }
            Item::Frame(typ, ch, p, size) => {
                if *typ != 0 {
                    if self.open_out {
                        bad!(self, "sasl-late", ["C05", "C06"], "SASL frame after Open");
                    }
                    return;
                }
                let max = self.cfg.p_max_frame.unwrap_or(u32::MAX).max(512) as usize;
                if *size > max {
                    bad!(
                        self,
                        "frame-too-long",
                        ["C14"],
                        "{} frame of {size} bytes, the peer's maximum is {max}",
                        name(p.code)
                    );
                }
                if self.close_in_sure && p.code != CLOSE {
                    bad!(
                        self,
                        "after-peer-close",
                        ["C07"],
                        "{} sent after the peer's Close",
                        name(p.code)
                    );
                }
                match p.code {
                    OPEN => {
                        if self.open_out {
                            bad!(self, "open-twice", ["C05", "C06"], "second Open");
                        }
                        self.open_out = true;
                    }
                    CLOSE => {
                        self.close_out += 1;
                        if *ch != 0 {
                            bad!(self, "close-channel", ["C07"], "Close on channel {ch}");
                        }
                        if self.close_out > 1 {
                            bad!(self, "close-twice", ["C07"], "more than one Close");
                        }
                        if !self.down() {
                            bad!(
                                self,
                                "close-unjustified",
                                ["C11", "C07"],
                                "this side closed the connection: {}",
                                p.show()
                            );
                        }
                    }
                    BEGIN => self.out_begin(*ch, p),
                    _ => self.out_session(*ch, p),
                }
            }
        }
    }

    fn out_begin(&mut self, ch: u16, p: &Perf) {
        if let Some(s) = self.out_map.get(&ch)
            && !self.sess[*s].end_out
        {
            bad!(self, "begin-channel-in-use", ["C09"], "Begin on channel {ch} which is in use");
        }
        let max = self.cfg.channel_max.min(self.cfg.p_channel_max.unwrap_or(65535));
        if ch > max {
            bad!(self, "begin-channel-max", ["C09"], "Begin on channel {ch}, channel-max is {max}");
        }
        let init = p.u32(1).unwrap_or(0);
        match p.get(0) {
            V::U16(rc) => {
                let i = self
                    .sess
                    .iter()
                    .position(|s| !s.local && s.peer_ch == Some(*rc) && !s.begin_out);
                match i {
                    Some(i) => {
                        let s = &mut self.sess[i];
                        s.eut_ch = Some(ch);
                        s.begin_out = true;
                        s.init_out = init;
                        s.p_win0 = p.u32(2).unwrap_or(0);
                        self.out_map.insert(ch, i);
                    }
                    None => bad!(
                        self,
                        "begin-unsolicited",
                        ["C09"],
                        "Begin answers channel {rc}, which has no unanswered Begin"
                    ),
                }
            }
            _ => {
                let op = self
                    .ops
                    .iter()
                    .find(|(id, o)| {
                        matches!(o.ev, Ev::OpenSession(..))
                            && !self.sess.iter().any(|s| s.op == Some(**id))
                            && o.done.is_none()
                    })
                    .map(|x| *x.0);
                if op.is_none() {
                    bad!(self, "begin-unrequested", ["C09"], "Begin nobody asked for");
                }
                self.sess.push(SessM {
                    local: true,
                    op,
                    eut_ch: Some(ch),
                    begin_out: true,
                    init_out: init,
                    p_win0: p.u32(2).unwrap_or(0),
                    ..Default::default()
                });
                let i = self.sess.len() - 1;
                self.out_map.insert(ch, i);
                if let Some(op) = op {
                    self.ops.get_mut(&op).unwrap().sess = Some(i);
                }
            }
        }
    }

    fn out_session(&mut self, ch: u16, p: &Perf) {
        let s = match self.out_map.get(&ch) {
            Some(s) if !self.sess[*s].end_out => *s,
            _ => {
                bad!(
                    self,
                    "frame-outside-session",
                    ["C09"],
                    "{} on channel {ch}, which has no session",
                    p.show()
                );
                return;
            }
        };
        match p.code {
            END => {
                let k = &self.sess[s];
                let ok = k.end_in || k.end_cause;
                self.sess[s].end_out = true;
                if !ok {
                    bad!(
                        self,
                        "end-unjustified",
                        ["C09", "C11"],
                        "End on channel {ch} though neither side ended that session"
                    );
                }
            }
            ATTACH => self.out_attach(s, p),
            DETACH => {
                let h = p.u32(0).unwrap_or(u32::MAX);
                let Some(l) = self.out_link(s, h) else {
                    bad!(self, "detach-unknown", ["C10"], "Detach of handle {h}, not attached");
                    return;
                };
                self.links[l].detach_out = true;
                let k = &self.links[l];
                let cond = err_cond(p.get(2));
                if !(k.detach_in || k.cause) {
                    bad!(
                        self,
                        "detach-unjustified",
                        ["C10", "C11", "C17"],
                        "link {} detached by this side for no reason: {}",
                        self.links[l].name.clone(),
                        p.show()
                    );
                }
                let k = &self.links[l];
                let (nm, over, osz, werr, din) =
                    (k.name.clone(), k.over, k.oversize, k.want_err, k.detach_in);
                if over && cond.as_deref() != Some("amqp:link:transfer-limit-exceeded") && !din {
                    bad!(
                        self,
                        "over-credit-error",
                        ["C17"],
                        "link {nm} was overrun but detached with {cond:?}"
                    );
                } else if osz && cond.as_deref() != Some("amqp:link:message-size-exceeded") && !din {
                    bad!(
                        self,
                        "over-size-error",
                        ["C17"],
                        "link {nm} got an oversized delivery but was detached with {cond:?}"
                    );
                } else if werr && !din && !over && !osz {
                    let want = cond.as_deref() == Some(LIB_ERR)
                        || (self.cfg.router && cond.is_some());
                    if !want {
                        bad!(
                            self,
                            "detach-error-lost",
                            ["C20"],
                            "link {nm} detached with {cond:?} instead of the application's error"
                        );
                    }
                }
            }
            FLOW => self.out_flow(s, p),
            TRANSFER => self.out_transfer(s, p),
            DISPOSITION => self.out_disp(s, p),
            c => bad!(self, "frame-unknown", ["C09"], "unexpected frame {c:#x}"),
        }
    }

    fn out_attach(&mut self, s: usize, p: &Perf) {
        let V::Str(nm) = p.get(0).clone() else {
            bad!(self, "attach-name", ["C10"], "Attach without name");
            return;
        };
        let h = p.u32(1).unwrap_or(u32::MAX);
        let eut_sender = p.bool(2) != Some(true);
        if self.out_link(s, h).is_some() {
            bad!(self, "handle-in-use", ["C10"], "Attach {nm:?} uses handle {h}, which is in use");
        }
        let rem = self.links.iter().position(|l| {
            l.sess == s
                && !l.local
                && l.name == nm
                && l.eut_sender == eut_sender
                && l.attach_in
                && !l.attach_out
        });
        let idc = p.u32(9).unwrap_or(0);
        if eut_sender && p.u32(9).is_none() {
            bad!(self, "attach-no-count", ["C12"], "Attach of sender {nm:?} has no initial-delivery-count");
        }
        if let Some(i) = rem {
            let both = self.ops.values().any(|o| {
                o.done.is_none()
                    && o.link.is_none()
                    && match &o.ev {
                        Ev::AttachS(_, _, n) => eut_sender && *n == nm,
                        Ev::AttachR(_, _, n) => !eut_sender && *n == nm,
                        _ => false,
                    }
            });
            if both {
                // both ends open this very link at once: the peer's Attach may
                // or may not be taken for the answer
                self.enabled = false;
                return;
            }
            if self.gated(i) && !self.links[i].refused && !self.links[i].detach_in {
                bad!(
                    self,
                    "attach-before-answer",
                    ["C20"],
                    "link {nm:?} confirmed while the application still decides"
                );
            }
            let l = &mut self.links[i];
            l.eh = Some(h);
            l.attach_out = true;
            if eut_sender {
                l.init_dc = idc;
            }
            return;
        }
        let op = self
            .ops
            .iter()
            .find(|(id, o)| {
                o.sess == Some(s)
                    && match &o.ev {
                        Ev::AttachS(_, _, n) => eut_sender && *n == nm,
                        Ev::AttachR(_, _, n) => !eut_sender && *n == nm,
                        _ => false,
                    }
                    && !self.links.iter().any(|l| l.op == Some(**id))
            })
            .map(|x| *x.0);
        match op {
            Some(op) => {
                self.links.push(LinkM {
                    sess: s,
                    name: nm,
                    eut_sender,
                    local: true,
                    op: Some(op),
                    eh: Some(h),
                    attach_out: true,
                    init_dc: idc,
                    max_size: 262_144,
                    ..Default::default()
                });
                let i = self.links.len() - 1;
                self.ops.get_mut(&op).unwrap().link = Some(i);
            }
            None => bad!(
                self,
                "attach-unsolicited",
                ["C10"],
                "Attach {nm:?} as {} answers nothing and was not asked for",
                if eut_sender { "sender" } else { "receiver" }
            ),
        }
    }

    fn out_flow(&mut self, s: usize, p: &Perf) {
        self.sess[s].flows_out += 1;
        let k = &self.sess[s];
        let nout = k.init_out.wrapping_add(k.tx);
        if p.u32(2) != Some(nout) {
            bad!(
                self,
                "flow-next-outgoing",
                ["C13"],
                "Flow states next-outgoing-id {:?}, {} transfers were sent so it is {nout}",
                p.u32(2),
                self.sess[s].tx
            );
        }
        self.sess[s].p_win = p.u32(0).zip(p.u32(1)).or(self.sess[s].p_win);
        let k = &self.sess[s];
        let least = k.wins.iter().map(|w| k.rem(*w)).min().unwrap_or(0);
        if (p.u32(3).unwrap_or(0) as i64) < least as i64 {
            bad!(
                self,
                "flow-outgoing-window",
                ["C13"],
                "Flow states outgoing-window {:?}, the peer's window lets it send {least}",
                p.u32(3)
            );
        }
        let k = &self.sess[s];
        if k.begin_in {
            let lo = k.p_init.wrapping_add(k.rx_proc);
            let span = k.rx.wrapping_sub(k.rx_proc);
            let ok = match p.u32(0) {
                Some(n) => n.wrapping_sub(lo) <= span,
                None => false,
            };
            if !ok {
                bad!(
                    self,
                    "flow-next-incoming",
                    ["C13"],
                    "Flow states next-incoming-id {:?}, {} transfers were received so it is {}",
                    p.u32(0),
                    self.sess[s].rx,
                    lo.wrapping_add(span)
                );
            }
        }
        if let Some(h) = p.u32(4) {
            let Some(l) = self.out_link(s, h) else {
                bad!(self, "flow-unattached", ["C10"], "Flow for handle {h}, not attached");
                return;
            };
            if !self.links[l].eut_sender {
                let k = &mut self.links[l];
                let c = p.u32(6).unwrap_or(0);
                // the number of deliveries the peer may have sent in total after this flow
                let limit = p.u32(6).map(|c| {
                    let dc = p.u32(5).unwrap_or(k.p_dc);
                    u64::from(dc.wrapping_sub(k.p_dc)) + u64::from(c)
                });
                let mut wrong = None;
                if let Some(t) = limit {
                    if k.vague {
                        k.granted = t;
                        k.credit_ev.clear();
                    } else if let Some(x) = k.credit_ev.iter().position(|x| x.1 == t) {
                        k.credit_ev.drain(..=x);
                    } else if !k.credit_ev.is_empty() {
                        wrong = Some((k.credit_ev[0].1, t));
                        k.credit_ev.remove(0);
                    } else if t < k.granted {
                        wrong = Some((k.granted, t));
                    } else {
                        // granted by the library itself
                        k.refund = k.refund.saturating_sub(t - k.granted);
                        k.granted = t;
                    }
                }
                let lo = k.p_dc.wrapping_add(k.completed_proc);
                let hi = k.p_dc.wrapping_add(k.begun.max(k.completed));
                let dc = p.u32(5);
                let ok = dc.map(|d| d.wrapping_sub(lo) <= hi.wrapping_sub(lo)).unwrap_or(false);
                let (nm, comp, exp) = (k.name.clone(), k.completed, k.p_dc.wrapping_add(k.completed));
                if p.u32(6).is_some() {
                    k.ann = Some((dc.unwrap_or(k.p_dc), c));
                }
                if let Some((want, got)) = wrong {
                    bad!(
                        self,
                        "flow-credit-total",
                        ["C17"],
                        "Flow for {nm} lets the peer send {got} deliveries in all, {want} were granted"
                    );
                }
                if !ok {
                    bad!(
                        self,
                        "flow-delivery-count",
                        ["C17"],
                        "Flow for {nm} states delivery-count {dc:?}, {comp} deliveries were received so it is {exp}"
                    );
                }
            }
        }
    }

    fn out_transfer(&mut self, s: usize, p: &Perf) {
        // session window
        let ok = self.sess[s].wins.iter().any(|w| self.sess[s].rem(*w) > 0);
        if !ok {
            bad!(
                self,
                "window-exceeded",
                ["C13"],
                "transfer {} sent with the session window at {}",
                self.sess[s].tx + 1,
                self.sess[s].window()
            );
        }
        self.sess[s].tx = self.sess[s].tx.wrapping_add(1);
        let h = p.u32(0).unwrap_or(u32::MAX);
        let Some(l) = self.out_link(s, h) else {
            bad!(
                self,
                "transfer-unattached",
                ["C10", "C14"],
                "Transfer on handle {h}, which is not attached"
            );
            return;
        };
        if !self.links[l].eut_sender {
            bad!(self, "transfer-wrong-role", ["C10"], "Transfer on a receiving link");
            return;
        }
        let more = p.bool(5) == Some(true);
        let nm = self.links[l].name.clone();
        if let Some(d) = self.links[l].cur {
            // continuation
            if let Some(id) = p.u32(1)
                && id != self.sent[d].id
            {
                bad!(
                    self,
                    "interleaved",
                    ["C14"],
                    "link {nm}: delivery {id} starts inside delivery {}",
                    self.sent[d].id
                );
            }
            if let V::Bin(t) = p.get(2)
                && *t != self.sent[d].tag
            {
                bad!(self, "tag-changed", ["C14"], "link {nm}: tag changes inside a delivery");
            }
            self.sent[d].body.extend_from_slice(&p.payload);
            if p.bool(9) == Some(true) {
                self.sent[d].done = true;
                self.links[l].cur = None;
            } else if !more {
                self.links[l].cur = None;
                self.sent[d].done = true;
                self.check_body(d);
            }
            return;
        }
        // a new delivery
        let ok = self.links[l].lims.iter().any(|x| self.links[l].rem(*x) > 0);
        if !ok {
            bad!(
                self,
                "credit-exceeded",
                ["C12"],
                "link {nm}: delivery {} started with credit {}",
                self.links[l].started + 1,
                self.links[l].credit()
            );
        }
        self.links[l].started = self.links[l].started.wrapping_add(1);
        let id = match p.u32(1) {
            Some(i) => i,
            None => {
                bad!(self, "no-delivery-id", ["C14"], "link {nm}: first transfer without id");
                0
            }
        };
        if let Some(prev) = self.sess[s].last_id
            && id != prev.wrapping_add(1)
        {
            bad!(self, "delivery-id-gap", ["C14"], "delivery {id} follows {prev}");
        }
        self.sess[s].last_id = Some(id);
        let tag = match p.get(2) {
            V::Bin(b) => b.clone(),
            _ => {
                bad!(self, "no-tag", ["C14"], "link {nm}: first transfer without tag");
                vec![]
            }
        };
        if tag.len() > 32 {
            bad!(self, "tag-long", ["C14"], "link {nm}: tag of {} bytes", tag.len());
        }
        // which send is it?
        let mut first = None;
        let mut found = None;
        for op in &self.links[l].q {
            let o = &self.ops[op];
            if o.sent.is_some() {
                continue;
            }
            if matches!(&o.done, Some(Res::Err(_))) || (o.cancelled && o.cancel_sure) {
                continue;
            }
            let m = match &o.ev {
                Ev::Send(_, _, t, b, st) => {
                    (!o.cancelled || *st == (p.bool(4) == Some(true)))
                        && t.as_ref().map(|t| *t == tag).unwrap_or(true)
                        && b.starts_with(&p.payload)
                        && (more || b.len() == p.payload.len())
                }
                Ev::SendFmt(_, _, b, _) => {
                    b.starts_with(&p.payload) && (more || b.len() == p.payload.len())
                }
                Ev::SendMsg(_, _, b) => {
                    if more {
                        let n = p.payload.len();
                        (0..n.min(12)).any(|k| n - k > 4 && b.starts_with(&p.payload[k..]))
                    } else {
                        msg_data(&p.payload).as_deref() == Some(&b[..])
                    }
                }
                _ => false,
            };
            if m {
                found = Some(*op);
                break;
            }
            if first.is_none() && !o.cancelled {
                first = Some(*op);
            }
        }
        let Some(op) = found else {
            let late = self.links[l].q.iter().any(|op| {
                let o = &self.ops[op];
                (o.cancelled || matches!(o.done, Some(Res::Err(_)))) && o.sent.is_none()
            });
            bad!(
                self,
                "transfer-unknown",
                ["C14"],
                "link {nm}: delivery {id} ({}) is no pending send's message{}",
                hex(&p.payload),
                if late { " (an abandoned or failed send?)" } else { "" }
            );
            self.links[l].cur = None;
            return;
        };
        if let Some(f) = first {
            bad!(
                self,
                "order",
                ["C14", "C12"],
                "link {nm}: send {op} overtakes send {f}, which waited longer"
            );
        }
        let (settled, fmt) = match &self.ops[&op].ev {
            Ev::Send(_, _, _, _, s) => (*s, None),
            Ev::SendFmt(_, _, _, f) => (false, Some(*f)),
            _ => (false, None),
        };
        if (p.bool(4) == Some(true)) != settled {
            bad!(
                self,
                "settled-flag",
                ["C14"],
                "link {nm}: settled is {:?}, the application chose {settled}",
                p.bool(4)
            );
        }
        if let Some(f) = fmt
            && p.u32(3) != Some(f)
        {
            bad!(
                self,
                "format",
                ["C14"],
                "link {nm}: message-format is {:?}, the application chose {f}",
                p.u32(3)
            );
        }
        let dup = self.sent.iter().any(|d| {
            d.link == l && d.tag == tag && !d.settled && !d.p_settled && d.l_settled == 0
        });
        let chosen = matches!(&self.ops[&op].ev, Ev::Send(_, _, Some(_), _, _));
        if dup && !chosen {
            bad!(self, "tag-reused", ["C14"], "link {nm}: tag {} is in use", hex(&tag));
        }
        self.sent.push(SentM {
            link: l,
            op,
            id,
            tag,
            settled,
            body: p.payload.clone(),
            done: !more,
            ..Default::default()
        });
        let d = self.sent.len() - 1;
        self.sess[s].sent.insert(id, d);
        self.ops.get_mut(&op).unwrap().sent = Some(d);
        if more {
            self.links[l].cur = Some(d);
        } else {
            self.check_body(d);
        }
    }

    fn check_body(&mut self, d: usize) {
        let s = &self.sent[d];
        let ok = match &self.ops[&s.op].ev {
            Ev::Send(_, _, _, b, _) | Ev::SendFmt(_, _, b, _) => s.body == *b,
            Ev::SendMsg(_, _, b) => msg_data(&s.body).as_deref() == Some(&b[..]),
            _ => true,
        };
        if !ok {
            bad!(
                self,
                "body",
                ["C14"],
                "delivery {} of send {} carries other bytes than were sent",
                s.id,
                s.op
            );
        }
    }

    fn out_disp(&mut self, s: usize, p: &Perf) {
        let first = p.u32(1).unwrap_or(0);
        let last = p.u32(2).unwrap_or(first);
        let settled = p.bool(3) == Some(true);
        let st = St::of_v(p.get(4));
        if last.wrapping_sub(first) > 10_000 {
            bad!(self, "disp-range", ["C18", "C15"], "disposition for {first}..{last}");
            return;
        }
        for k in 0..=last.wrapping_sub(first) {
            let id = first.wrapping_add(k);
            if p.bool(0) == Some(true) {
                let Some(r) = self.sess[s].rcv.get(&id).copied() else {
                    bad!(
                        self,
                        "disp-unknown",
                        ["C18"],
                        "disposition for delivery {id}, which was never received"
                    );
                    continue;
                };
                let hout = self.rcv[r].hout;
                let d = &mut self.rcv[r];
                if d.settled == Some(true) {
                    bad!(self, "disp-presettled", ["C18"], "disposition for settled delivery {id}");
                    continue;
                }
                if d.disp > 0 {
                    bad!(self, "disp-twice", ["C18"], "delivery {id} settled, then another one");
                    continue;
                }
                if !settled {
                    let ok = st.map(|s| d.upd.contains(&s)).unwrap_or(false);
                    if !ok {
                        bad!(
                            self,
                            "disp-state",
                            ["C18"],
                            "unsettled disposition {st:?} for delivery {id} nobody asked for"
                        );
                    }
                    continue;
                }
                d.disp += 1;
                let (want, void, ab) = (d.want, d.want_void, d.aborted || !d.complete || d.bad);
                match want {
                    None if ab => {}
                    None => bad!(
                        self,
                        "disp-unrequested",
                        ["C18", "C19"],
                        "delivery {id} settled with {st:?}, the application did not settle it"
                    ),
                    Some(_) if void => bad!(
                        self,
                        "disp-after-gone",
                        ["C18"],
                        "delivery {id} settled after its link or session was gone"
                    ),
                    Some(w) => {
                        let exp = w.unwrap_or(St::Rejected);
                        if st != Some(exp) {
                            bad!(
                                self,
                                "disp-state",
                                ["C18", "C19"],
                                "delivery {id} settled with {st:?} instead of {exp:?}"
                            );
                        } else if hout == Some(2) {
                            // the handler's error travels with the rejection
                            let e = match p.get(4) {
                                V::Desc(_, v) => match &**v {
                                    V::List(f) => err_cond(f.first().unwrap_or(&V::Null)),
                                    _ => None,
                                },
                                _ => None,
                            };
                            if e.as_deref() != Some(LIB_ERR) {
                                bad!(
                                    self,
                                    "reject-error",
                                    ["C19"],
                                    "delivery {id} rejected with error {e:?} instead of the handler's"
                                );
                            }
                        }
                    }
                }
            } else {
                let Some(i) = self.sess[s].sent.get(&id).copied() else {
                    bad!(
                        self,
                        "disp-unknown",
                        ["C15"],
                        "sender disposition for delivery {id}, which was never sent"
                    );
                    continue;
                };
                let strict_p = self.sent[i].p_settled && self.lag <= 1;
                let d = &mut self.sent[i];
                if settled {
                    d.l_settled += 1;
                }
                let (n, want) = (d.l_settled, d.want);
                if d.settled {
                    bad!(
                        self,
                        "sdisp-presettled",
                        ["C15"],
                        "disposition for delivery {id}, which was sent settled"
                    );
                } else if strict_p {
                    bad!(
                        self,
                        "sdisp-after-peer",
                        ["C15"],
                        "disposition for delivery {id}, which the peer has settled"
                    );
                } else if n > 1 {
                    bad!(self, "sdisp-twice", ["C15"], "delivery {id} settled twice");
                } else if settled {
                    let gone = self.ops[&self.sent[i].op].cancelled;
                    match want {
                        // an abandoned send
                        None if gone => {}
                        None => bad!(
                            self,
                            "sdisp-unrequested",
                            ["C15"],
                            "delivery {id} settled, the application did not settle it"
                        ),
                        Some(Some(w)) if st != Some(w) => bad!(
                            self,
                            "sdisp-state",
                            ["C15"],
                            "delivery {id} settled with {st:?} instead of {w:?}"
                        ),
                        _ => {}
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- results

    fn handed(&mut self, op: OpId, l: usize, m: &RMsg) {
        let k = &self.links[l];
        let next = k
            .rq
            .iter()
            .copied()
            .filter(|r| {
                let r = &self.rcv[*r];
                r.complete
                    && !r.aborted
                    && (!r.bad || (r.maybe && r.id == m.id && r.body == m.body))
                    && r.handed.is_none()
            })
            .next();
        let nm = k.name.clone();
        let mut at = None;
        match next {
            None => bad!(
                self,
                "handed-extra",
                ["C16", "C17", "C07"],
                "link {nm}: a message ({} {}) was handed out that is not due",
                m.id,
                hex(&m.body)
            ),
            Some(r) => {
                let e = RMsg {
                    id: self.rcv[r].id,
                    tag: self.rcv[r].tag.clone(),
                    settled: self.rcv[r].settled,
                    format: self.rcv[r].format,
                    body: self.rcv[r].body.clone(),
                };
                at = Some(r);
                if !rmsg_eq(&e, m) {
                    bad!(
                        self,
                        "handed-wrong",
                        ["C16"],
                        "link {nm}: handed out {m:?} instead of {e:?}"
                    );
                }
                self.rcv[r].handed = Some(op);
                self.links[l].handed += 1;
            }
        }
        let s = self.links[l].sess;
        let o = self.ops.entry(op).or_insert(OpM {
            ev: Ev::Recv(op, ""),
            sess: Some(s),
            link: Some(l),
            sent: None,
            rcv: None,
            done: None,
            cancelled: false,
            cancel_sure: false,
            flow_seen: false,
                flow_maybe: false,
        });
        o.rcv = at;
        o.done = Some(Res::Msg(m.clone()));
    }

    fn on_op(&mut self, id: OpId, r: &Res) {
        let Some(o) = self.ops.get_mut(&id) else { return };
        o.done = Some(r.clone());
        let (ev, sess, link) = (o.ev.clone(), o.sess, o.link);
        let is_err = matches!(r, Res::Err(_));
        match (&ev, r) {
            (Ev::OpenSession(_, n), Res::Session { eut, peer }) => {
                // which call a Begin on the wire belongs to shows only now (abandoned calls may
                // not have sent any)
                let ops = &self.ops;
                if let Some(i) = self.sess.iter().rposition(|s| {
                    s.eut_ch == Some(*eut)
                        && s.op.map(|o| o != id && !matches!(ops[&o].done, Some(Res::Session { .. })))
                            .unwrap_or(false)
                }) {
                    let old = self.sess[i].op.unwrap();
                    let mine = self.sess.iter().position(|s| s.op == Some(id)).or_else(|| {
                        if ops[&old].cancelled {
                            return None;
                        }
                        self.sess.iter().position(|s| {
                            s.op.map(|o| ops[&o].cancelled && ops[&o].done.is_none()).unwrap_or(false)
                        })
                    });
                    if let Some(j) = mine {
                        let o = self.sess[j].op.replace(old).unwrap();
                        self.ops.get_mut(&o).unwrap().sess = None;
                    }
                    self.sess[i].op = Some(id);
                    self.ops.get_mut(&old).unwrap().sess = mine;
                    self.ops.get_mut(&id).unwrap().sess = Some(i);
                }
                let i = self.sess.iter().position(|s| s.op == Some(id));
                match i {
                    Some(i) => {
                        let s = &self.sess[i];
                        if !s.begin_in || s.eut_ch != Some(*eut) || s.peer_ch != Some(*peer) {
                            bad!(
                                self,
                                "open-session-result",
                                ["C09"],
                                "open_session returned channels {eut}/{peer}, on the wire it is {:?}/{:?}",
                                self.sess[i].eut_ch,
                                self.sess[i].peer_ch
                            );
                        }
                        self.sess[i].name = n.to_string();
                        self.snames.insert(n.to_string(), i);
                    }
                    None => bad!(
                        self,
                        "open-session-early",
                        ["C09"],
                        "open_session returned a session that was never begun"
                    ),
                }
            }
            (Ev::OpenSession(..), Res::Err(e)) => {
                if self.down() || sess.map(|s| self.sess_excuse(s)).unwrap_or(false) {
                    return;
                }
                let used = self.sess.iter().filter(|s| !s.gone()).count() as u32
                    + self
                        .ops
                        .iter()
                        .filter(|(k, o)| {
                            matches!(o.ev, Ev::OpenSession(..))
                                && o.done.is_none()
                                && !self.sess.iter().any(|s| s.op == Some(**k))
                        })
                        .count() as u32;
                let max = self.cfg.channel_max.min(self.cfg.p_channel_max.unwrap_or(65535)) as u32;
                if !(e.contains("TooManyChannels") && used >= max) {
                    bad!(
                        self,
                        "open-session-error",
                        ["C09", "C11"],
                        "open_session failed on a healthy connection with {used} sessions: {e}"
                    );
                }
            }
            (Ev::EndSession(..), _) => {
                if let Some(s) = sess {
                    let s = &self.sess[s];
                    if !s.end_in && !self.down() {
                        bad!(
                            self,
                            "end-early",
                            ["C09", "C08"],
                            "session end completed before the peer's End"
                        );
                    }
                }
            }
            (Ev::AttachS(_, sn, n), Res::Sender { handle, peer, name })
            | (Ev::AttachR(_, sn, n), Res::Receiver { handle, peer, name }) => {
                let snd = matches!(ev, Ev::AttachS(..));
                if !self.links.iter().any(|l| l.op == Some(id)) {
                    let ops = &self.ops;
                    if let Some(i) = self.links.iter().position(|l| {
                        l.eh == Some(*handle)
                            && l.name == *name
                            && l.eut_sender == snd
                            && Some(l.sess) == sess
                            && l.op.map(|o| ops[&o].cancelled).unwrap_or(false)
                    }) {
                        let old = self.links[i].op.replace(id);
                        self.ops.get_mut(&old.unwrap()).unwrap().link = None;
                        self.ops.get_mut(&id).unwrap().link = Some(i);
                    }
                }
                let i = self.links.iter().position(|l| l.op == Some(id));
                let good = i.map(|i| {
                    let l = &self.links[i];
                    l.attach_in
                        && l.eh == Some(*handle)
                        && l.ph == Some(*peer)
                        && l.name == *name
                        && name == n
                });
                if good != Some(true) {
                    bad!(
                        self,
                        "attach-result",
                        ["C10"],
                        "attach of {n} on {sn} returned handles {handle}/{peer} name {name}, on the wire: {:?}",
                        i.map(|i| (
                            self.links[i].eh,
                            self.links[i].ph,
                            self.links[i].attach_in
                        ))
                    );
                }
                if let Some(i) = i {
                    if snd {
                        self.cur_s.insert(n.to_string(), i);
                    } else {
                        self.cur_r.insert(n.to_string(), i);
                    }
                }
            }
            (Ev::AttachS(..) | Ev::AttachR(..), _) => {
                let ex = link.map(|l| self.link_excuse(l)).unwrap_or(false)
                    || sess.map(|s| self.sess_excuse(s)).unwrap_or(false);
                if !ex {
                    bad!(
                        self,
                        "attach-error",
                        ["C10", "C11"],
                        "attach failed on a healthy session: {r:?}"
                    );
                }
            }
            (Ev::CloseS(..) | Ev::CloseR(..) | Ev::DetachS(..) | Ev::DetachR(..), _) => {}
            (Ev::OnCloseS(..), _) => {
                if let Some(l) = link
                    && !self.link_excuse(l)
                {
                    bad!(self, "on-close-early", ["C11"], "on_close fired for an open link");
                }
            }
            (Ev::Ready(..), Res::Bool(b)) => {
                if let Some(l) = link {
                    if !*b && !self.link_excuse(l) {
                        bad!(self, "ready-false", ["C11"], "ready() says no for an open link");
                    }
                }
            }
            (Ev::OnCredit(..), _) => {
                let o = &self.ops[&id];
                if let Some(l) = link
                    && !o.flow_seen
                    && !o.flow_maybe
                    && !self.link_excuse(l)
                {
                    bad!(
                        self,
                        "credit-wakeup-spurious",
                        ["C11"],
                        "on_credit_update fired without any credit"
                    );
                }
            }
            (Ev::Wait(_, d), Res::State(st)) if self.ops[&id].rcv.is_some() => {
                let k = &mut self.rcv[self.ops[&id].rcv.unwrap()];
                let ok = match st {
                    Some(st) => k.states.contains(st),
                    None => k.settled == Some(true) || k.want.is_some() || (k.p_settled && k.states.iter().all(|s| *s == St::Modified)),
                };
                // a state that is not final is taken by who waits
                k.fresh &= st.is_none() || k.p_settled;
                if !ok {
                    let (i, have) = (k.id, k.states.clone());
                    bad!(
                        self,
                        "rcv-outcome-wrong",
                        ["C23"],
                        "waiting for received delivery {i} ({d}) returned {st:?}, the peer said {have:?}"
                    );
                }
            }
            (Ev::Wait(_, d), Res::Err(e)) if self.ops[&id].rcv.is_some() => {
                let k = &self.rcv[self.ops[&id].rcv.unwrap()];
                if !self.link_excuse(k.link) && k.want.is_none() {
                    let i = k.id;
                    bad!(
                        self,
                        "rcv-outcome-error",
                        ["C23"],
                        "waiting for received delivery {i} ({d}) failed on a healthy link: {e}"
                    );
                }
            }
            (Ev::Wait(_, d), Res::State(st)) => {
                let Some(s) = self.ops[&id].sent else { return };
                let k = &mut self.sent[s];
                k.waited = true;
                match st {
                    Some(st) => {
                        if !k.states.contains(st) {
                            let (i, have) = (k.id, k.states.clone());
                            bad!(
                                self,
                                "outcome-wrong",
                                ["C15"],
                                "waiting for send {d} (delivery {i}) returned {st:?}, the peer said {have:?}"
                            );
                        } else {
                            k.fresh = false;
                        }
                    }
                    None => {
                        let ok = k.settled || k.want.is_some() || k.p_bare;
                        let i = k.id;
                        if !ok {
                            bad!(
                                self,
                                "outcome-none",
                                ["C15"],
                                "waiting for send {d} (delivery {i}) returned no outcome, the peer said {:?}",
                                self.sent[s].states
                            );
                        }
                    }
                }
            }
            (Ev::Wait(_, d), Res::Err(e)) => {
                if let Some(s) = self.ops[&id].sent {
                    let l = self.sent[s].link;
                    if !self.link_excuse(l) && self.sent[s].want.is_none() {
                        bad!(
                            self,
                            "outcome-error",
                            ["C15", "C11"],
                            "waiting for send {d} failed on a healthy link: {e}"
                        );
                    }
                }
            }
            (Ev::Recv(..), Res::Msg(m)) => {
                if let Some(l) = link {
                    self.handed(id, l, m)
                }
            }
            (Ev::Take(..), Res::Msg(m)) => {
                if let Some(l) = link {
                    self.handed(id, l, m)
                }
            }
            (Ev::Take(..) | Ev::Recv(..), Res::End | Res::Err(_))
                if link.map(|l| self.lost(l)).unwrap_or(false) =>
            {
                bad!(
                    self,
                    "recv-lost",
                    ["C16"],
                    "link {}: reading ended with {r:?} before every delivery was handed out",
                    self.links[link.unwrap()].name.clone()
                );
            }
            (Ev::Take(..), _) => {
                if let Some(l) = link
                    && self.strict_due(l)
                {
                    bad!(
                        self,
                        "not-handed",
                        ["C16"],
                        "link {}: a complete delivery is not handed out",
                        self.links[l].name.clone()
                    );
                }
            }
            (Ev::Recv(..), Res::End | Res::Err(_)) => {
                if let Some(l) = link
                    && !self.link_excuse(l)
                {
                    bad!(
                        self,
                        "recv-ended",
                        ["C16", "C11"],
                        "link {} reports its end although it is attached: {r:?}",
                        self.links[l].name.clone()
                    );
                }
            }
            (e, Res::Sent { .. }) if is_send(e) && link.is_some() => {
                let n = size_of(e);
                let l = &self.links[link.unwrap()];
                if let Some(m) = l.max_send.filter(|m| n as u64 > *m) {
                    let name = l.name.clone();
                    bad!(
                        self,
                        "sent-too-large",
                        ["C14"],
                        "send {id}: {n} bytes sent on {name}, whose peer takes at most {m}"
                    );
                }
            }
            (e, Res::Err(m)) if is_send(e) => {
                if let Some(l) = link {
                    if m.contains("BodyTooLarge") {
                        let n = size_of(e);
                        if self.links[l].max_send.map(|m| n as u64 <= m).unwrap_or(true) {
                            bad!(self, "send-error", ["C14"], "send {id} refused as too large");
                        }
                    } else if !self.link_excuse(l) {
                        bad!(
                            self,
                            "send-error",
                            ["C14", "C11"],
                            "send {id} failed on a healthy link: {m}"
                        );
                    }
                }
            }
            _ => {
                let _ = is_err;
            }
        }
    }

    fn strict_due(&self, l: usize) -> bool {
        // only judged when everything the peer sent was processed
        self.lag <= 1
            && self.links[l].rq.iter().any(|r| {
                let r = &self.rcv[*r];
                r.complete && !r.aborted && !r.bad && r.handed.is_none()
            })
            && !self.link_excuse(l)
    }

    /// a delivery received before the link ended, which nobody was given
    fn lost(&self, l: usize) -> bool {
        let k = &self.links[l];
        let done = |r: &&usize| {
            let r = &self.rcv[**r];
            r.aborted || (r.complete && !r.bad)
        };
        k.rq.iter().filter(done).take(k.completed_safe as usize).any(|r| {
            let r = &self.rcv[*r];
            !r.aborted && r.handed.is_none()
        })
    }

    fn take_exp(&mut self, f: impl Fn(&Mon, &Exp) -> bool) -> Option<Exp> {
        let fit = |i: &usize| !self.exp[*i].1 && f(self, &self.exp[*i].0);
        let i = (0..self.exp.len())
            .find(|i| !self.exp[*i].2 && fit(i))
            .or_else(|| (0..self.exp.len()).find(fit))?;
        self.exp[i].1 = true;
        Some(self.exp[i].0.clone())
    }

    fn on_ctl(&mut self, i: usize, c: &Call) {
        let mut link = None;
        let is_link = |m: &Mon, l: usize, ch: u16, h: u32| {
            let k = &m.links[l];
            // a link the peer opened may not have an attach on the wire yet
            m.sess[k.sess].eut_ch == Some(ch) && k.eh.map(|e| e == h).unwrap_or(true)
        };
        let ok = match c {
            Call::AttachSender(n) | Call::AttachReceiver(n) => {
                let snd = matches!(c, Call::AttachSender(_));
                let e = self.take_exp(|m, e| match e {
                    Exp::AttachS(l) => snd && m.links[*l].name == *n,
                    Exp::AttachR(l) => !snd && m.links[*l].name == *n,
                    _ => false,
                });
                if let Some(Exp::AttachS(l) | Exp::AttachR(l)) = e {
                    link = Some(l);
                    self.links[l].call = Some(i);
                    if !(self.cfg.gate_ctl)(c) {
                        self.links[l].estab = true;
                    }
                    if snd {
                        self.cur_s.insert(n.clone(), l);
                    } else {
                        self.cur_r.insert(n.clone(), l);
                    }
                }
                e.is_some()
            }
            Call::Flow(ch, h, cr) => {
                let e = self.take_exp(
                    |m, e| matches!(e, Exp::Flow(l, c) if is_link(m, *l, *ch, *h) && c == cr),
                );
                if let Some(Exp::Flow(l, _)) = e {
                    link = Some(l);
                }
                e.is_some()
            }
            Call::LocalDetachSender(ch, h) | Call::LocalDetachReceiver(ch, h) => {
                let snd = matches!(c, Call::LocalDetachSender(..));
                let e = self.take_exp(|m, e| {
                    matches!(e, Exp::LDetach(l) if is_link(m, *l, *ch, *h) && m.links[*l].eut_sender == snd)
                });
                if let Some(Exp::LDetach(l)) = e {
                    link = Some(l);
                }
                e.is_some()
            }
            Call::RemoteDetachSender(ch, h) | Call::RemoteDetachReceiver(ch, h) => {
                let snd = matches!(c, Call::RemoteDetachSender(..));
                let e = self.take_exp(|m, e| {
                    matches!(e, Exp::RDetach(l) if is_link(m, *l, *ch, *h) && m.links[*l].eut_sender == snd)
                });
                if let Some(Exp::RDetach(l)) = e {
                    link = Some(l);
                }
                e.is_some()
            }
            Call::LocalSessionEnded(v) => self
                .take_exp(|_, e| matches!(e, Exp::LEnd(_, l) if names(l, v)))
                .or_else(|| {
                    if self.lag > 1 {
                        self.take_exp(|_, e| matches!(e, Exp::LEnd(..)))
                    } else {
                        None
                    }
                })
                .is_some(),
            Call::RemoteSessionEnded(v) => self
                .take_exp(|_, e| matches!(e, Exp::REnd(_, l) if names(l, v)))
                .or_else(|| {
                    if self.lag > 1 {
                        self.take_exp(|_, e| matches!(e, Exp::REnd(..)))
                    } else {
                        None
                    }
                })
                .is_some(),
            Call::ProtocolError(_) | Call::Disconnected => {
                self.n_reason_calls += 1;
                if self.n_reason_calls > 1 {
                    bad!(self, "ctl-reason-twice", ["C20"], "connection end reported twice: {c:?}");
                }
                if !self.down() {
                    bad!(
                        self,
                        "ctl-unexpected",
                        ["C20", "C11"],
                        "connection failure reported on a healthy connection: {c:?}"
                    );
                }
                true
            }
            Call::Closed => {
                self.n_closed_calls += 1;
                if self.n_closed_calls > 1 {
                    bad!(self, "ctl-closed-twice", ["C20"], "Closed reported twice");
                }
                true
            }
            _ => true,
        };
        // an over-run link is detached by this side
        let ok = ok
            || match c {
                Call::LocalDetachReceiver(ch, h) => {
                    let l = self.find_eh(*ch, *h, false);
                    l.map(|l| self.links[l].over || self.links[l].oversize).unwrap_or(false)
                }
                _ => false,
            };
        if !ok {
            bad!(
                self,
                "ctl-unexpected",
                ["C20"],
                "control service called with {c:?}, which matches no (unreported) event"
            );
        }
        if (self.cfg.gate_ctl)(c) {
            self.ctl_open.insert(i, (c.clone(), link));
        }
    }

    fn on_msg(&mut self, i: usize, c: &Call) {
        let mut link = None;
        match c {
            Call::MAttached(n) => {
                // a link that was detached before it was confirmed is told late, if at all
                let e = self
                    .take_exp(|m, e| {
                        matches!(e, Exp::MAtt(l) if m.links[*l].name == *n && m.links[*l].estab && !m.links[*l].gone())
                    })
                    .or_else(|| {
                        self.take_exp(|m, e| matches!(e, Exp::MAtt(l) if m.links[*l].name == *n))
                    });
                match e {
                    Some(Exp::MAtt(l)) => {
                        link = Some(l);
                        self.links[l].mcall = Some(i);
                        // (what was known by that name stays, if it is late)
                        if !self.links[l].gone() {
                            self.cur_r.insert(n.clone(), l);
                        }
                    }
                    _ => bad!(
                        self,
                        "msg-unexpected",
                        ["C16", "C20"],
                        "message service told twice of link {n}"
                    ),
                }
            }
            Call::MTransfer(ch, h) => link = self.find_eh(*ch, *h, false),
            _ => {}
        }
        if (self.cfg.gate_msg)(c) {
            self.msg_open.insert(i, (c.clone(), link));
        }
    }

    fn on_hnd(&mut self, i: usize, c: &Call) {
        match c {
            Call::HCreate(n) => {
                let (svc, ln) = n.split_once(':').unwrap();
                let l = self.links.iter().rposition(|l| l.name == ln && !l.eut_sender);
                match l {
                    Some(l) => {
                        let a = self.links[l].addr.clone();
                        if route(a.as_deref()) != Some(svc) {
                            bad!(
                                self,
                                "route-wrong",
                                ["C19"],
                                "link {ln} with address {a:?} went to handler {svc}"
                            );
                        }
                        self.cur_r.insert(ln.to_string(), l);
                    }
                    None => bad!(self, "route-unknown", ["C19"], "handler made for link {ln}"),
                }
            }
            Call::HCall(n, m) => {
                let (svc, ln) = n.split_once(':').unwrap();
                // the link that carries the delivery
                let l = self.links.iter().rposition(|l| {
                    l.name == ln
                        && !l.eut_sender
                        && l.rq.iter().any(|r| self.rcv[*r].id == m.id)
                });
                let Some(l) = l else {
                    bad!(
                        self,
                        "handler-unknown",
                        ["C19", "C16"],
                        "handler of link {ln} got message {} it was not sent",
                        m.id
                    );
                    return;
                };
                let a = self.links[l].addr.clone();
                if route(a.as_deref()) != Some(svc) {
                    bad!(self, "route-wrong", ["C19"], "message for {a:?} went to handler {svc}");
                }
                let before = self.viols.len();
                self.handed(100_000 + i as u32, l, m);
                for v in &mut self.viols[before..] {
                    v.props = &["C19", "C16"];
                }
                if let Some(r) = self.ops[&(100_000 + i as u32)].rcv {
                    self.rcv[r].hcall = Some(i);
                    if self.cfg.gate_hnd {
                        self.hnd_open.insert(i, r);
                    } else {
                        let sure = self.lag <= 1 && self.alive(l);
                        self.rcv[r].hout = Some(0);
                        self.rcv[r].want = Some(Some(St::Accepted));
                        self.rcv[r].want_sure = sure;
                    }
                }
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- quiescence

    fn quiet(&mut self) {
        if !self.open_out || !self.open_in {
            return;
        }
        let down = self.down();
        if self.close_in || self.close_req {
            // judged in `finish`
        }
        for s in 0..self.sess.len() {
            self.sess[s].rx_proc = self.sess[s].rx;
            if !self.flow_gated(s) {
                let k = &mut self.sess[s];
                if k.wins.len() > 1 {
                    let w = *k.wins.last().unwrap();
                    k.wins = vec![w];
                }
                if let Some(n) = self.sess[s].echo_due {
                    let k = &mut self.sess[s];
                    k.echo_due = None;
                    if k.flows_out <= n && !down && k.up() {
                        bad!(self, "echo", ["C13"], "no Flow in answer to an echo request");
                    }
                }
            }
            let k = &self.sess[s];
            if k.up() && !down {
                let (nii, w) = k.p_win.unwrap_or((k.p_init, k.p_win0));
                let rem = nii.wrapping_add(w).wrapping_sub(k.p_next_out()) as i32;
                if w < 1 << 31 && rem <= 0 {
                    bad!(
                        self,
                        "peer-window-shut",
                        ["C13", "C16"],
                        "the peer is left without window: incoming-window {w} from {nii}, its next is {}",
                        self.sess[s].p_next_out()
                    );
                }
            }
            let k = &self.sess[s];
            if !down {
                if k.begin_in && !k.begin_out {
                    bad!(
                        self,
                        "begin-unanswered",
                        ["C09"],
                        "the peer's Begin on channel {:?} is not answered",
                        k.peer_ch
                    );
                } else if k.end_in && !k.end_out {
                    bad!(
                        self,
                        "end-unanswered",
                        ["C09"],
                        "the peer's End on channel {:?} is not answered",
                        k.peer_ch
                    );
                } else if k.end_cause && !k.end_out && k.begin_out {
                    bad!(self, "end-missing", ["C09"], "session ended locally but no End sent");
                }
                let k = &self.sess[s];
                if let Some(op) = k.op
                    && k.begin_in
                    && self.op_pending(op)
                {
                    bad!(
                        self,
                        "open-session-stuck",
                        ["C09", "C08"],
                        "open_session {op} pending although the peer's Begin arrived"
                    );
                }
            }
        }
        for l in 0..self.links.len() {
            self.links[l].completed_proc = self.links[l].completed;
            if !self.link_excuse(l) {
                self.links[l].completed_safe = self.links[l].completed;
            }
            let s = self.links[l].sess;
            if !self.flow_gated(s) {
                let k = &mut self.links[l];
                if k.lims.len() > 1 {
                    let w = *k.lims.last().unwrap();
                    k.lims = vec![w];
                }
            }
            let sup = self.sess[s].up() && !down;
            let gated = self.gated(l);
            let k = &self.links[l];
            if !sup {
                continue;
            }
            let nm = k.name.clone();
            if k.attach_in && !k.attach_out && !gated {
                bad!(
                    self,
                    "attach-unanswered",
                    ["C10", "C20"],
                    "the peer's Attach {nm:?} is not answered"
                );
                continue;
            }
            if k.detach_in && k.attach_out && !k.detach_out {
                bad!(
                    self,
                    "detach-unanswered",
                    ["C10"],
                    "the peer's Detach of {nm:?} is not answered"
                );
                continue;
            }
            if k.cause && k.attach_out && !k.detach_out && !gated {
                let (o, z) = (k.over, k.oversize);
                if o {
                    bad!(
                        self,
                        "over-credit-accepted",
                        ["C17"],
                        "link {nm}: a delivery without credit did not cause a detach"
                    );
                } else if z {
                    // judged when the delivery is complete or grows
                    let late = k.part.is_none();
                    if late {
                        bad!(
                            self,
                            "over-size-accepted",
                            ["C17"],
                            "link {nm}: an oversized delivery did not cause a detach"
                        );
                    }
                } else if k.local && !k.attach_in {
                    // attach still outstanding
                } else {
                    bad!(
                        self,
                        "detach-missing",
                        ["C10", "C20"],
                        "link {nm} was closed or refused but no Detach was sent"
                    );
                }
                continue;
            }
            if self.cfg.router && !k.eut_sender && k.attach_out && !k.detach_out {
                if route(k.addr.as_deref()).is_none() {
                    bad!(
                        self,
                        "route-missing-accepted",
                        ["C19"],
                        "link {nm} to {:?} has no handler but was accepted",
                        self.links[l].addr.clone()
                    );
                    continue;
                }
            }
            let k = &self.links[l];
            if let Some(op) = k.op
                && k.attach_in
                && self.op_pending(op)
            {
                bad!(
                    self,
                    "attach-stuck",
                    ["C10", "C08"],
                    "attach {op} pending although the peer's Attach arrived"
                );
            }
            // progress of waiting sends
            let k = &self.links[l];
            if k.eut_sender && k.open() && !self.flow_gated(s) {
                let waiting: Vec<OpId> = k
                    .q
                    .iter()
                    .copied()
                    .filter(|o| {
                        self.op_pending(*o)
                            && self.ops[o].sent.map(|d| !self.sent[d].done).unwrap_or(true)
                    })
                    .collect();
                if let Some(op) = waiting.first() {
                    let started = self.ops[op].sent.is_some();
                    if self.sess[s].window() > 0 && (k.credit() > 0 || started) {
                        bad!(
                            self,
                            "send-stuck",
                            ["C12", "C13", "C11"],
                            "link {nm}: send {op} waits with credit {} and window {}",
                            self.links[l].credit(),
                            self.sess[s].window()
                        );
                    }
                }
                for (id, o) in &self.ops {
                    if o.link == Some(l) && o.done.is_none() && !o.cancelled {
                        let stuck = match o.ev {
                            Ev::Ready(..) => self.links[l].credit() > 0,
                            Ev::OnCredit(..) => o.flow_seen && self.links[l].credit() > 0,
                            _ => false,
                        };
                        if stuck {
                            let id = *id;
                            bad!(
                                self,
                                "credit-wait-stuck",
                                ["C12", "C08"],
                                "link {nm}: {id} still waits for credit, which is {}",
                                self.links[l].credit()
                            );
                            break;
                        }
                    }
                }
            }
            // receiving
            let k = &self.links[l];
            if !k.eut_sender && k.open() && k.attach_out {
                if !k.credit_ev.is_empty() {
                    let c = k.credit_ev.clone();
                    self.links[l].credit_ev.clear();
                    bad!(self, "credit-unannounced", ["C17"], "link {nm}: credit {c:?} not announced");
                }
                let due = self.links[l].rq.iter().any(|r| {
                    let r = &self.rcv[*r];
                    r.complete && !r.aborted && !r.bad && r.handed.is_none()
                });
                if due {
                    let waits = self.ops.values().any(|o| {
                        o.link == Some(l)
                            && matches!(o.ev, Ev::Recv(..))
                            && o.done.is_none()
                            && !o.cancelled
                    });
                    if waits {
                        bad!(
                            self,
                            "recv-stuck",
                            ["C16", "C08"],
                            "link {nm}: a receiver waits although a complete delivery is there"
                        );
                    } else if self.cfg.role == Role::Server
                        && self.cfg.take
                        && !self.cfg.router
                        && !self.links[l].local
                        && !self
                            .msg_open
                            .values()
                            .any(|(c, x)| *x == Some(l) && matches!(c, Call::MTransfer(..)))
                    {
                        bad!(
                            self,
                            "not-handed",
                            ["C16"],
                            "link {nm}: the application was not told of a complete delivery"
                        );
                    } else if self.cfg.router {
                        bad!(
                            self,
                            "handler-not-called",
                            ["C19"],
                            "link {nm}: the handler did not get a complete delivery"
                        );
                    }
                }
            }
        }
        // dispositions
        for r in 0..self.rcv.len() {
            let d = &self.rcv[r];
            if d.want_sure && d.settled != Some(true) && d.disp == 0 && !d.p_settled {
                let id = d.id;
                if !down && self.sess[self.links[d.link].sess].up() {
                    bad!(
                        self,
                        "disp-missing",
                        ["C18", "C19"],
                        "delivery {id} was settled by the application, no disposition was sent"
                    );
                }
                self.rcv[r].want_sure = false;
            }
        }
        for i in 0..self.sent.len() {
            let d = &self.sent[i];
            if d.want_sure && !d.settled && d.l_settled == 0 && !d.p_settled {
                let id = d.id;
                if !down && self.sess[self.links[d.link].sess].up() {
                    bad!(
                        self,
                        "sdisp-missing",
                        ["C15"],
                        "sent delivery {id} was settled or dropped here, no disposition was sent"
                    );
                }
                self.sent[i].want_sure = false;
            }
        }
        // operations
        self.pending_rule();
        for (id, o) in &self.ops {
            if !is_send(&o.ev) {
                continue;
            }
            match (&o.done, o.sent) {
                (Some(Res::Sent { .. }), None) if !down => {
                    let id = *id;
                    let l = o.link.unwrap();
                    if self.alive(l) {
                        bad!(
                            self,
                            "sent-nothing",
                            ["C14"],
                            "send {id} succeeded but nothing was sent"
                        );
                        break;
                    }
                }
                (Some(Res::Sent { id: did, tag }), Some(d)) => {
                    let k = &self.sent[d];
                    if k.id != *did || k.tag != *tag {
                        let id = *id;
                        bad!(
                            self,
                            "sent-result",
                            ["C14", "C15"],
                            "send {id} returned another delivery than it sent"
                        );
                        break;
                    }
                    if !k.done && self.alive(k.link) {
                        let id = *id;
                        bad!(self, "sent-partly", ["C14"], "send {id} succeeded, only a part was sent");
                        break;
                    }
                }
                (Some(Res::Err(e)), Some(d)) => {
                    if self.alive(self.sent[d].link) {
                        let (id, e) = (*id, e.clone());
                        bad!(self, "sent-failed", ["C14"], "send {id} failed ({e}) but was sent");
                        break;
                    }
                }
                _ => {}
            }
        }
        // control calls
        if !down {
            let miss = self
                .exp
                .iter()
                .find(|(e, seen, opt)| {
                    !seen
                        && !opt
                        && match e {
                            Exp::Flow(l, _)
                                if self.links[*l].cause
                                    || self.links[*l].detach_in
                                    || self.links[*l].detach_out =>
                            {
                                false
                            }
                            // nothing is reported for a link of an ended session
                            Exp::AttachS(l) | Exp::AttachR(l) | Exp::Flow(l, _)
                            | Exp::LDetach(l) | Exp::RDetach(l) | Exp::MAtt(l) | Exp::MDet(l) => {
                                self.sess[self.links[*l].sess].up()
                            }
                            _ => true,
                        }
                })
                .map(|x| x.0.clone());
            if let Some(e) = miss {
                for x in &mut self.exp {
                    if x.0 == e {
                        x.2 = true
                    }
                }
                bad!(self, "ctl-missing", ["C20"], "the control service was not told of {e:?}");
            }
        }
    }

    fn pending_rule(&mut self) {
        let mut v = vec![];
        for (id, o) in &self.ops {
            if o.done.is_some() || o.cancelled {
                continue;
            }
            let lgone = |l: usize| {
                let k = &self.links[l];
                k.gone() || self.sess[k.sess].gone() || self.sess[k.sess].end_in
            };
            let sgone = o.sess.map(|s| self.sess[s].end_in).unwrap_or(false);
            let stuck = match &o.ev {
                Ev::Close(_) | Ev::CloseErr(_) => true,
                Ev::EndSession(..) => sgone,
                Ev::OpenSession(..) => sgone,
                Ev::Wait(..) => {
                    let l = match (o.sent, o.rcv) {
                        (Some(s), _) => self.sent[s].link,
                        (_, Some(r)) => self.rcv[r].link,
                        _ => continue,
                    };
                    let k = o.sent.map(|s| &self.sent[s]);
                    let peer = k.map(|k| k.fresh || k.terminal || k.settled).unwrap_or(false);
                    if peer && self.alive(l) {
                        let d = k.unwrap();
                        v.push((
                            "outcome-stuck",
                            &["C15", "C08"] as &'static [&'static str],
                            format!(
                                "{id} waits for delivery {}, whose outcome {:?} arrived",
                                d.id, d.states
                            ),
                        ));
                        continue;
                    }
                    if let Some(k) = o.rcv.map(|r| &self.rcv[r])
                        && (k.fresh || k.settled == Some(true))
                        && self.alive(l)
                    {
                        v.push((
                            "rcv-outcome-stuck",
                            &["C08", "C23"] as &'static [&'static str],
                            format!(
                                "{id} waits for received delivery {}, the peer said {:?}, settled: {}",
                                k.id, k.states, k.p_settled
                            ),
                        ));
                        continue;
                    }
                    lgone(l)
                }
                _ => match o.link {
                    Some(l) => lgone(l),
                    None => sgone,
                },
            };
            if stuck && !self.down() {
                v.push((
                    "op-stuck",
                    &["C08"],
                    format!("{:?} never completes: what it depends on is gone", show_ev(&o.ev)),
                ));
            }
        }
        for (r, p, m) in v {
            self.viol(r, p, m);
        }
    }

    /// after the connection went down, all gates were released and time passed
    pub fn finish(&mut self, pending: &BTreeMap<OpId, Ev>) {
        if !self.enabled || self.panic.is_some() || self.livelock {
            return;
        }
        if !self.open_out || !self.open_in {
            return;
        }
        if self.task_end.is_none() {
            bad!(self, "task-alive", ["C07"], "the connection task does not end");
        }
        if self.is_opened {
            bad!(self, "still-open", ["C07"], "the closed connection says it is open");
        }
        if !self.on_close {
            bad!(self, "on-close-missing", ["C07", "C08"], "on_close never fires");
        }
        if !self.lost
            && !self.forced
            && !self.garbage
            && (self.close_in || self.close_req)
            && self.close_out == 0
        {
            bad!(self, "close-missing", ["C07"], "the connection was closed without a Close frame");
        }
        if self.n_closed_calls != 1 && !self.lite {
            bad!(
                self,
                "ctl-closed",
                ["C20"],
                "the control service heard {} times of the connection's end",
                self.n_closed_calls
            );
        }
        for (id, ev) in pending {
            if self.ops.get(id).map(|o| o.cancelled).unwrap_or(false) {
                continue;
            }
            bad!(
                self,
                "op-stuck-closed",
                ["C08"],
                "{} never completes after the connection's end",
                show_ev(ev)
            );
        }
    }
}

impl LinkM {
    fn part_frames(&self, _r: usize) -> bool {
        false
    }
}

pub fn route(a: Option<&str>) -> Option<&'static str> {
    match a {
        Some("q1") => Some("q1"),
        Some("q2") => Some("q2"),
        Some(x) if x.starts_with("t/") && x.len() > 2 && !x[2..].contains('/') => Some("t"),
        _ => None,
    }
}

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(24).map(|x| format!("{x:02x}")).collect();
    if b.len() > 24 { format!("{s}..({})", b.len()) } else { s }
}

/// data section of an encoded message that has only that
pub fn msg_data(b: &[u8]) -> Option<Vec<u8>> {
    let mut p = 0;
    match dec(b, &mut p, 0) {
        Ok(V::Desc(d, v)) if *d == V::U64(0x75) && p == b.len() => match *v {
            V::Bin(b) => Some(b),
            _ => None,
        },
        _ => None,
    }
}

pub fn err_cond(v: &V) -> Option<String> {
    match v {
        V::Desc(d, v) if **d == V::U64(ERROR) => match &**v {
            V::List(f) => match f.first() {
                Some(V::Sym(s)) => Some(s.clone()),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

fn rmsg_eq(a: &RMsg, b: &RMsg) -> bool {
    a.id == b.id
        && a.tag == b.tag
        && a.settled.unwrap_or(false) == b.settled.unwrap_or(false)
        && a.format == b.format
        && a.body == b.body
}

/// bytes of the message to send
fn size_of(e: &Ev) -> usize {
    match e {
        Ev::Send(_, _, _, b, _) | Ev::SendFmt(_, _, b, _) => b.len(),
        Ev::SendMsg(_, _, b) => b.len() + if b.len() < 256 { 5 } else { 8 },
        _ => 0,
    }
}
