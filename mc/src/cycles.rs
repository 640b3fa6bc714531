//! What is over leaves nothing behind: whatever is opened, used and closed again and again, the
//! memory the endpoint holds comes back to where it was.
use crate::alloc;
use crate::cgen::Drv;
use crate::exec;
use crate::peer;
use crate::refc::{self, *};
use crate::sut::*;

type Poll<'a> = &'a mut dyn FnMut() -> bool;

/// links: a receiver and a sender that stay, two the peer attaches, two attached here, one that is refused,
/// a sender that never has credit, one whose session never has a window
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    R,
    S,
    X,
    Y,
    Ls,
    Lr,
    Z,
    W,
    V,
}
const NAMES: [&str; 9] = ["R", "S", "x", "y", "ls", "lr", "z", "W", "V"];
const KEEP: [&str; 6] = ["a", "R", "S", "v", "V", "W"];
const OLD: OpId = 9;
const CYCLES: usize = 64;

/// links that come and go have another name each time
fn name(l: usize, k: usize) -> &'static str {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let n = N.get_or_init(|| (0..=CYCLES).flat_map(|k| NAMES.map(|n| format!("{n}.{k}"))).collect());
    if (2..7).contains(&l) { &n[9 * k + l] } else { NAMES[l] }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Y {
    /// attach by the peer, locally, the peer's answer, detach by the peer, close here
    Att(L),
    Open(L),
    Ans(L),
    Det(L),
    Clo(L),
    Send(L),
    Big,
    Settled,
    Cancel,
    Grant,
    Ready(L),
    OnCredit(L),
    Disp,
    DispState,
    DropSent,
    Wait,
    /// wait for a delivery that stays unsettled
    WaitOld,
    OnClose,
    In(L),
    InSettled,
    More,
    Abort,
    Settle,
    DropIn,
    Recv,
    Beg,
    End,
    LBeg,
    AnsBeg,
    LEnd,
    /// in the session the peer begins: a link, a message on it, ended by this side
    AttB,
    InB,
    LEndB,
}
use Y::*;
const ALL: [Y; 50] = [
    Att(L::X),
    Att(L::Y),
    Att(L::Z),
    Open(L::Ls),
    Open(L::Lr),
    Ans(L::Ls),
    Ans(L::Lr),
    Det(L::X),
    Det(L::Y),
    Det(L::Ls),
    Det(L::Lr),
    Clo(L::X),
    Clo(L::Y),
    Clo(L::Ls),
    Clo(L::Lr),
    Send(L::S),
    Send(L::Y),
    Big,
    Settled,
    Cancel,
    Grant,
    Send(L::W),
    Send(L::V),
    Ready(L::Y),
    Ready(L::W),
    Ready(L::V),
    OnCredit(L::Y),
    OnCredit(L::W),
    Disp,
    DispState,
    DropSent,
    Wait,
    WaitOld,
    OnClose,
    In(L::R),
    In(L::X),
    InSettled,
    More,
    Abort,
    Settle,
    DropIn,
    Recv,
    Beg,
    End,
    LBeg,
    AnsBeg,
    LEnd,
    AttB,
    InB,
    LEndB,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Server,
    Client,
    Router,
}

fn allowed(how: How, h: &[Y], s: Y) -> bool {
    let had = |x: Y| h.contains(&x);
    let n = |x: Y| h.iter().filter(|y| **y == x).count();
    let there = |l: L| match l {
        L::Ls | L::Lr => had(Open(l)),
        L::R | L::S | L::W | L::V => true,
        _ => had(Att(l)),
    };
    match s {
        Att(_) | Open(_) => n(s) < 1,
        Ans(l) => there(l) && n(s) < 1 && !had(Det(l)),
        Det(l) => there(l) && n(s) < 1,
        Clo(l) => there(l) && n(s) < 1 && (!matches!(l, L::Ls | L::Lr) || had(Ans(l))),
        Send(l) => there(l),
        Ready(l) | OnCredit(l) => there(l) && n(s) < 1,
        Grant => there(L::Y) && n(s) < 1,
        Cancel => h.iter().any(|s| matches!(s, Send(_) | Open(_) | Ready(_) | OnCredit(_) | Wait | WaitOld | OnClose | Recv | LBeg | LEnd)),
        WaitOld | OnClose => h.last() != Some(&s),
        Disp | DispState | DropSent | Wait => {
            h.iter().any(|s| matches!(s, Send(_) | Big)) && h.last() != Some(&s)
        }
        In(l) => there(l) && !had(Det(l)),
        Abort => h.iter().filter(|s| **s == More).count() > n(Abort),
        Settle | DropIn => how != How::Router && h.iter().any(|s| matches!(s, In(_) | InSettled)),
        Recv => had(Ans(L::Lr)) && n(s) < 1,
        End => had(Beg) && n(s) < 1,
        AnsBeg => had(LBeg) && n(s) < 1,
        LEnd => had(AnsBeg) && n(s) < 1,
        Beg | LBeg => n(s) < 1,
        AttB | LEndB => had(Beg) && !had(End) && n(s) < 1,
        InB => had(AttB) && !had(End),
        _ => true,
    }
}

#[derive(Default, Clone)]
struct Pl {
    eh: Option<u32>,
    p_att: bool,
    e_att: bool,
    p_det: bool,
    e_det: bool,
}
impl Pl {
    fn up(&self) -> bool {
        self.p_att && self.e_att && !self.p_det && !self.e_det
    }
}

struct C<'a> {
    w: World,
    poll: Poll<'a>,
    how: How,
    /// this side's channels: the session that stays, one the peer begins, one begun here
    ch: [Option<u16>; 4],
    l: [Pl; 9],
    /// how often it was done before
    k: usize,
    /// the next transfer of the peer, deliveries it has begun on R and x
    next: u32,
    part: bool,
    /// deliveries the peer began on R, and how many it may
    begun: u32,
    limit: u32,
    used: u32,
    took: u32,
    /// transfers and deliveries of this side
    out: u32,
    dels: u32,
    in_b: u32,
    open: Vec<u32>,
    op: OpId,
    sent: Vec<OpId>,
    log: std::collections::hash_map::DefaultHasher,
    bad: Vec<String>,
    closed: bool,
    n: u64,
}

impl<'a> C<'a> {
    fn new(how: How, poll: Poll<'a>) -> C<'a> {
        let role = if how == How::Client { Role::Client } else { Role::Server };
        let cfg = Cfg {
            role,
            router: how == How::Router,
            p_max_frame: Some(512),
            take: how != How::Router,
            ..Cfg::default()
        };
        let mut w = World::new(cfg.clone());
        w.tap = Some(vec![]);
        w.mon.enabled = false;
        let mut c = C {
            w,
            poll,
            how,
            ch: [None; 4],
            k: 0,
            l: Default::default(),
            next: 0,
            part: false,
            begun: 0,
            limit: 0,
            used: 0,
            took: 0,
            out: 0,
            dels: 0,
            in_b: 0,
            open: vec![],
            op: 10,
            sent: vec![],
            log: Default::default(),
            bad: vec![],
            closed: false,
            n: 0,
        };
        c.quiet();
        c.ev(Ev::PBytes(AMQP_HDR.to_vec()));
        c.p(0, peer::open(&cfg));
        c
    }
    /// the session and the links that stay
    fn base(&mut self) {
        if self.how == How::Client {
            self.ev(Ev::OpenSession(1, "a"));
            self.p(0, peer::begin(Some(0), 0, 1 << 20));
            self.ch[0] = Some(0);
        } else {
            self.p(0, peer::begin(None, 0, 1 << 20));
        }
        if self.how == How::Client {
            self.ev(Ev::AttachR(2, "a", "R"));
            self.ev(Ev::AttachS(3, "a", "S"));
        }
        self.att(L::R);
        self.att(L::S);
        if self.how == How::Client {
            self.ev(Ev::AttachS(4, "a", "W"));
            self.ev(Ev::OpenSession(5, "v"));
        }
        self.att(L::W);
        let a = if self.how == How::Client { self.ch[2].take() } else { None };
        self.p(3, peer::begin(a, 0, 0));
        if a.is_some() {
            self.ch[3] = a;
            self.ev(Ev::AttachS(6, "v", "V"));
        }
        self.att(L::V);
        self.credit(L::V);
        if self.how == How::Client {
            for _ in 0..20 {
                self.grant_r()
            }
        }
        self.credit(L::S);
        self.ev(Ev::Send(OLD, "S", None, vec![1; 5], false));
        self.open.clear();
        self.credit(L::S);
    }
    /// a client's application asks for its deliveries
    fn take(&mut self) {
        if self.how == How::Client && self.took < self.used {
            self.took += 1;
            let op = self.next_op();
            self.ev(Ev::Recv(op, "R"))
        }
    }
    fn quiet(&mut self) {
        self.w.quiesce(self.poll);
        for (_, o) in self.w.tap.replace(vec![]).unwrap() {
            self.n += 1;
            match o {
                Obs::Out(Item::Frame(_, ch, p, _)) => self.seen(ch, p),
                Obs::Out(Item::Bad(m)) => self.bad.push(format!("writes rubbish: {m}")),
                Obs::Panic(m) => self.bad.push(format!("panic: {m}")),
                Obs::Livelock => self.bad.push("does not come to rest".into()),
                _ => {}
            }
        }
    }
    fn seen(&mut self, ch: u16, p: Perf) {
        let main = Some(ch) == self.ch[0];
        let is = |i: usize| main && i != 8 || Some(ch) == self.ch[3] && i == 8;
        let at = |l: &[Pl; 9], h: u32| {
            (0..9).find(|i| is(*i) && l[*i].eh == Some(h) && l[*i].e_att && !l[*i].e_det)
        };
        match p.code {
            BEGIN => {
                let k = match p.f.first() {
                    Some(V::U16(0)) => 0,
                    Some(V::U16(3)) => 3,
                    Some(V::U16(_)) => 1,
                    _ => 2,
                };
                self.ch[k] = Some(ch);
            }
            ATTACH => {
                if let (Some(V::Str(n)), Some(V::U32(h))) = (p.f.first(), p.f.get(1))
                    && let Some(i) = (0..9).find(|i| name(*i, self.k) == n)
                {
                    self.l[i].e_att = true;
                    self.l[i].eh = Some(*h);
                }
            }
            CLOSE => self.closed = true,
            DETACH => {
                if let Some(V::U32(h)) = p.f.first()
                    && let Some(i) = at(&self.l, *h)
                {
                    self.l[i].e_det = true
                }
            }
            FLOW => {
                if let (Some(V::U32(h)), Some(V::U32(d)), Some(V::U32(c))) = (p.f.get(4), p.f.get(5), p.f.get(6))
                    && at(&self.l, *h) == Some(L::R as usize)
                {
                    self.limit = d.wrapping_add(*c)
                }
            }
            TRANSFER => {
                self.out += 1;
                if let (Some(V::U32(id)), Some(V::U32(h))) = (p.f.get(1), p.f.first()) {
                    if at(&self.l, *h) == Some(L::S as usize) {
                        self.dels += 1;
                    }
                    if p.f.get(4) != Some(&V::Bool(true)) {
                        self.open.push(*id)
                    }
                }
            }
            _ => {}
        }
        use std::hash::Hash;
        p.show().hash(&mut self.log)
    }
    fn ev(&mut self, e: Ev) {
        self.w.inject(&e);
        self.quiet()
    }
    fn p(&mut self, ch: u16, p: Perf) {
        self.ev(Ev::PBytes(refc::frame(ch, &p)))
    }
    fn next_op(&mut self) -> OpId {
        self.op += 1;
        self.op
    }
    fn name(&self, l: L) -> &'static str {
        name(l as usize, self.k)
    }
    fn ph(&self, l: L) -> u32 {
        let l = l as u32;
        if (2..7).contains(&l) { 10 + l + 5 * self.k as u32 } else { l }
    }
    /// the peer's channels of the sessions that come and go
    fn pch(&self, i: u16) -> u16 {
        4 + i + 2 * self.k as u16
    }
    fn sess(&self) -> &'static str {
        if self.how == How::Client { "a" } else { "#0" }
    }
    /// the peer's Attach, its own or an answer
    fn att(&mut self, l: L) {
        let i = l as usize;
        if self.l[i].p_att {
            return;
        }
        self.l[i].p_att = true;
        // the peer receives on what this side sends on
        let rcv = matches!(l, L::S | L::Y | L::Ls | L::W | L::V);
        let addr = if l == L::Z { "refuse" } else { "q1" };
        let ch = if l == L::V { 3 } else { 0 };
        self.p(ch, peer::attach(self.name(l), self.ph(l), rcv, Some(addr), if rcv { None } else { Some(0) }));
    }
    fn det(&mut self, l: L) {
        let i = l as usize;
        if self.l[i].p_att && !self.l[i].p_det {
            self.l[i].p_det = true;
            self.p(0, peer::detach(self.ph(l), false))
        }
    }
    fn credit(&mut self, l: L) {
        let i = l as usize;
        if self.l[i].up() {
            if l == L::V {
                return self.p(3, peer::flow_l(Some(1), 0, 0, self.ph(l), None, 20, false));
            }
            let (out, next) = (self.out, self.next);
            let dc = if l == L::S { Some(self.dels) } else { None };
            self.p(0, peer::flow_l(Some(out.wrapping_add(1)), 1 << 20, next, self.ph(l), dc, 20, false))
        }
    }
    fn transfer(&mut self, l: L, id: bool, more: bool, settled: bool, aborted: bool) {
        let n = self.next;
        self.next += 1;
        let t = peer::Tr {
            h: self.ph(l),
            id: id.then_some(n),
            tag: id.then(|| n.to_be_bytes().to_vec()),
            fmt: id.then_some(0),
            settled: settled.then_some(true),
            more,
            aborted,
            body: vec![7; 5],
        };
        if id && l == L::R {
            self.used += 1;
            self.begun += 1;
        }
        self.p(0, peer::transfer(t))
    }
    fn send(&mut self, l: L, n: usize, settled: bool) {
        let op = self.next_op();
        self.sent.push(op);
        self.ev(Ev::Send(op, self.name(l), None, vec![1; n], settled))
    }
    fn dels(&self, received: bool) -> Vec<OpId> {
        self.w.app_inner().deliveries.keys().copied().filter(|k| *k != OLD && (*k > 1000 || !self.sent.contains(k)) == received).collect()
    }
    fn step(&mut self, s: Y) {
        match s {
            Att(L::Z) => {
                if self.how != How::Router {
                    self.w.app.set_mode("ctl", 4);
                }
                self.att(L::Z);
                if self.how != How::Router {
                    self.w.app.set_mode("ctl", 0);
                }
            }
            Att(l) | Ans(l) => self.att(l),
            Open(l) => {
                let op = self.next_op();
                let (s, n) = (self.sess(), self.name(l));
                self.ev(if l == L::Ls { Ev::AttachS(op, s, n) } else { Ev::AttachR(op, s, n) })
            }
            Det(l) => self.det(l),
            Clo(l) => {
                let op = self.next_op();
                let n = self.name(l);
                // what the peer attached the application finds by its handle
                match (l, self.l[l as usize].eh) {
                    (L::Ls, _) => self.ev(Ev::CloseS(op, n, false)),
                    (L::Lr, _) => self.ev(Ev::CloseR(op, n, true)),
                    (L::X, Some(h)) => self.ev(Ev::DetachR(op, self.sess(), h)),
                    (_, Some(h)) => self.ev(Ev::DetachS(op, self.sess(), h)),
                    _ => {}
                }
            }
            Send(l) => self.send(l, 5, false),
            Big => self.send(L::S, 1500, false),
            Settled => self.send(L::S, 5, true),
            Cancel => {
                if let Some(op) = self.w.pending_ops.keys().next_back().copied() {
                    self.ev(Ev::Cancel(op))
                }
            }
            Grant => self.credit(L::Y),
            Ready(l) => {
                let op = self.next_op();
                self.ev(Ev::Ready(op, self.name(l)))
            }
            OnCredit(l) => {
                let op = self.next_op();
                self.ev(Ev::OnCredit(op, self.name(l)))
            }
            Disp | DispState => {
                if let (Some(a), Some(b)) = (self.open.first().copied(), self.open.last().copied()) {
                    if s == Disp {
                        self.open.clear();
                    }
                    self.p(0, peer::disp(true, a, Some(b), s == Disp, Some(St::Accepted)))
                }
            }
            DropSent => {
                if let Some(d) = self.dels(false).first().copied() {
                    self.ev(Ev::DropDelivery(d))
                }
            }
            Wait => {
                if let Some(d) = self.dels(false).first().copied() {
                    let op = self.next_op();
                    self.ev(Ev::Wait(op, d))
                }
            }
            WaitOld => {
                let op = self.next_op();
                self.ev(Ev::Wait(op, OLD))
            }
            OnClose => {
                let op = self.next_op();
                self.ev(Ev::OnCloseS(op, "S"))
            }
            In(l) => {
                if self.l[l as usize].up() && (l != L::R || !self.part && self.begun < self.limit) {
                    self.transfer(l, true, false, false, false);
                    self.take()
                }
            }
            InSettled => {
                if !self.part && self.begun < self.limit {
                    self.transfer(L::R, true, false, true, false)
                }
            }
            More => {
                let id = !self.part;
                if id && self.begun == self.limit {
                    return;
                }
                self.part = true;
                self.transfer(L::R, id, true, false, false)
            }
            Abort => {
                if self.part {
                    self.part = false;
                    self.transfer(L::R, false, false, false, true)
                }
            }
            Settle => {
                if let Some(d) = self.dels(true).first().copied() {
                    self.ev(Ev::Settle(d, St::Accepted))
                }
            }
            DropIn => {
                if let Some(d) = self.dels(true).first().copied() {
                    self.ev(Ev::DropDelivery(d))
                }
            }
            Recv => {
                let op = self.next_op();
                self.ev(Ev::Recv(op, self.name(L::Lr)))
            }
            Beg => self.p(self.pch(0), peer::begin(None, 0, 100)),
            End => self.p(self.pch(0), peer::end()),
            LBeg => {
                let op = self.next_op();
                self.ev(Ev::OpenSession(op, "b"))
            }
            AnsBeg => {
                if let Some(c) = self.ch[2] {
                    self.p(self.pch(1), peer::begin(Some(c), 0, 100))
                }
            }
            LEnd => {
                let op = self.next_op();
                self.ev(Ev::EndSession(op, "b"))
            }
            AttB => self.p(self.pch(0), peer::attach(&format!("B.{}", self.k), 3, false, Some("q1"), Some(0))),
            InB => {
                let n = self.in_b;
                self.in_b += 1;
                let body = vec![7; 5];
                let tag = Some(vec![n as u8]);
                let t = peer::Tr { h: 3, id: Some(n), tag, fmt: Some(0), settled: None, more: false, aborted: false, body };
                self.p(self.pch(0), peer::transfer(t))
            }
            LEndB => {
                let op = self.next_op();
                if let Some(c) = self.ch[1] {
                    self.ev(Ev::EndSession(op, ["#0", "#1", "#2", "#3", "#4", "#5", "#6", "#7"][c as usize]))
                }
            }
        }
    }
    fn cleanup(&mut self, seq: &[Y]) {
        if self.part {
            self.part = false;
            self.transfer(L::R, false, false, false, false);
        }
        while self.how == How::Client && self.took < self.used {
            self.take()
        }
        self.took = 0;
        for l in [L::Ls, L::Lr] {
            if self.l[l as usize].e_att {
                self.att(l)
            }
        }
        let n = seq.iter().filter(|s| matches!(s, LBeg | AnsBeg)).count();
        if n == 1
            && let Some(c) = self.ch[2]
        {
            self.p(self.pch(1), peer::begin(Some(c), 0, 100))
        }
        for l in [L::X, L::Y, L::Ls, L::Lr, L::Z] {
            self.det(l)
        }
        if seq.contains(&LBeg) && self.ch[2].is_some() {
            self.p(self.pch(1), peer::end())
        }
        if seq.contains(&Beg) && !seq.contains(&End) {
            self.p(self.pch(0), peer::end())
        }
        self.step(Disp);
        while let Some(op) = self.w.pending_ops.keys().next().copied() {
            self.ev(Ev::Cancel(op))
        }
        for r in [true, false] {
            for d in self.dels(r) {
                self.ev(Ev::DropDelivery(d))
            }
        }
        self.step(Disp);
        // what was used is granted again
        if self.how != How::Router {
            self.w.app.i.borrow_mut().receivers.remove(name(L::X as usize, self.k));
        }
        for _ in 0..std::mem::take(&mut self.used) {
            if self.how == How::Router {
                continue;
            }
            self.grant_r();
        }
        if self.begun == self.limit && !self.w.dead {
            self.bad.push(format!("no credit is left after {} deliveries", self.begun))
        }
        self.credit(L::S);
        for i in 2..7 {
            let l = &self.l[i];
            if l.p_att && !(l.e_att && l.e_det) && !self.w.dead {
                self.bad.push(format!("link {} is not detached: {:?}", name(i, self.k), (l.e_att, l.e_det)));
            }
            self.l[i] = Pl::default()
        }
        self.k += 1;
        self.ch[1] = None;
        self.in_b = 0;
        self.ch[2] = None;
        self.op = 10;
        self.open = vec![];
        self.sent = vec![];
        self.w.forget(&KEEP);
    }
    fn grant_r(&mut self) {
        let r = self.w.app_inner().receivers.get("R").cloned();
        if let Some(r) = r {
            r.set_link_credit(1);
            drop(r);
            self.quiet()
        }
    }
}

fn cycle(how: How, seq: &[Y], poll: Poll) -> (Vec<String>, u64, u64) {
    let mut c = C::new(how, poll);
    c.base();
    c.w.forget(&KEEP);
    let mut at = vec![];
    let mut done = 0;
    for k in [8, 16, 32, 64] {
        while done < k {
            for s in seq {
                c.step(*s);
            }
            c.cleanup(seq);
            done += 1;
            if c.w.dead || c.closed || !c.bad.is_empty() {
                break;
            }
        }
        at.push(alloc::held());
        // long sequences only as long as it grows
        let early = seq.len() > 3 && at.len() > 1 && !grows(&at, (0, 0));
        if c.w.dead || c.closed || !c.bad.is_empty() || early {
            break;
        }
    }
    if c.w.dead || c.closed {
        c.bad.push("the connection does not survive it".into())
    }
    if !c.l[0].up() || !c.l[1].up() || !c.l[7].up() || !c.l[8].up() {
        c.bad.push("a link that has nothing to do with it is gone".into())
    }
    if at.len() == 4 && grows(&at, (0, 0)) {
        let d = |i: usize| (at[i].0 - at[i - 1].0, at[i].1 - at[i - 1].1);
        c.bad.push(format!(
            "what is over leaves something behind: {} bytes, {} blocks more after 16 times, {}, {} after 32, {}, {} after 64",
            d(1).0,
            d(1).1,
            d(2).0,
            d(2).1,
            d(3).0,
            d(3).1
        ));
    }
    let bad = std::mem::take(&mut c.bad);
    use std::hash::Hasher;
    let (h, n) = (c.log.finish(), c.n);
    c.w.teardown(c.poll);
    (bad, h, n)
}

fn over(how: How, over: Over, seq: &[Y], base: &[(isize, isize)], poll: Poll) -> (Vec<String>, u64, u64) {
    let (mut bad, h, n, at) = conns(how, over, seq, poll);
    let d = |a: &[(isize, isize)], i: usize| (a[i].0 - a[i - 1].0, a[i].1 - a[i - 1].1);
    let more = |i: usize| (d(&at, i).0 - d(base, i).0, d(&at, i).1 - d(base, i).1);
    let (a, b) = (more(1), more(2));
    if a.1 >= 4 && b.1 >= 4 || a.0 >= 64 && b.0 >= 64 {
        bad.push(format!(
            "a connection that is over leaves something behind: {} bytes, {} blocks more after 4 times, {}, {} after 8",
            a.0, a.1, b.0, b.1
        ))
    }
    (bad, h, n)
}

/// how a connection ends, whatever is open in it
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Over {
    PeerCloses,
    PeerGone,
    Closed,
    Forced,
}
const OVERS: [(&str, Over); 4] =
    [("peer-closes", Over::PeerCloses), ("peer-gone", Over::PeerGone), ("closed", Over::Closed), ("forced", Over::Forced)];

/// a connection after the other, each with the sequence
fn conns(how: How, over: Over, seq: &[Y], poll: Poll) -> (Vec<String>, u64, u64, Vec<(isize, isize)>) {
    let (mut at, mut done, mut bad, mut n, mut h) = (vec![], 0, vec![], 0, 0);
    for k in [4, 8, 12] {
        while done < k {
            let mut c = C::new(how, &mut *poll);
            c.base();
            for s in seq {
                c.step(*s);
            }
            match over {
                Over::PeerCloses => c.p(0, peer::close(false)),
                Over::PeerGone => c.ev(Ev::PDrop),
                Over::Closed => c.ev(Ev::Close(8)),
                Over::Forced => c.ev(Ev::Force),
            }
            c.w.teardown(c.poll);
            bad.append(&mut c.bad);
            n += c.n;
            if done == 0 {
                use std::hash::Hasher;
                h = c.log.finish();
            }
            drop(c);
            done += 1;
        }
        at.push(alloc::held());
    }
    (bad, h, n, at)
}

/// more bytes or more blocks at each of the points
fn grows(at: &[(isize, isize)], by: (isize, isize)) -> bool {
    let steps = |f: &dyn Fn(&(isize, isize)) -> isize, by: isize| {
        at.windows(2).enumerate().all(|(i, w)| f(&w[1]) - f(&w[0]) > by * (8 << i))
    };
    steps(&|x| x.0, by.0) || steps(&|x| x.1, by.1)
}

fn seqs(how: How, len: usize, f: &mut dyn FnMut(&[Y])) {
    fn go(how: How, len: usize, v: &mut Vec<Y>, f: &mut dyn FnMut(&[Y])) {
        if v.len() == len {
            return f(v);
        }
        for s in ALL {
            if allowed(how, v, s) {
                v.push(s);
                go(how, len, v, f);
                v.pop();
            }
        }
    }
    go(how, len, &mut vec![], f)
}

pub fn parts(size: usize) -> Vec<String> {
    let mut o = vec![];
    let k = [1, 8, 64, 800][size.clamp(1, 4) - 1];
    for w in ["server", "client", "router"] {
        for i in 0..k {
            o.push(format!("cyc.{w}.{i}.{k}.{size}"))
        }
        if size == 4 {
            (0..64).for_each(|i| o.push(format!("cyc.{w}.{i}.64.3")))
        }
        let (k, len) = [(1, 1), (8, 2), (8, 2), (64, 3)][size.clamp(1, 4) - 1];
        for (e, _) in OVERS {
            for i in 0..k {
                o.push(format!("cyc.{w}+{e}.{i}.{k}.{len}"))
            }
        }
    }
    o
}

pub fn run(f: &[&str], d: &mut Drv) {
    let (i, k): (u64, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap());
    let len: usize = f[4].parse().unwrap();
    let (how, end) = f[1].split_once('+').unwrap_or((f[1], ""));
    let how = match how {
        "server" => How::Server,
        "client" => How::Client,
        _ => How::Router,
    };
    let end = OVERS.iter().find(|o| o.0 == end).map(|o| o.1);
    let base = end.map(|o| {
        exec::isolated(2 << 20, move || exec::with_runtime(move |poll| conns(how, o, &[], poll))).map(|r| r.3).unwrap_or_default()
    });
    let mut n = 0u64;
    seqs(how, len, &mut |seq| {
        n += 1;
        if n % k != i {
            return;
        }
        let seq = seq.to_vec();
        let mut ev = 0;
        d.any(|found| {
            let text = format!("{how:?} {seq:?} {}", end.map_or(String::new(), |e| format!("{e:?}")));
            let base = base.clone();
            let r = exec::isolated(2 << 20, move || {
                exec::with_runtime(move |poll| match (end, base) {
                    (Some(e), Some(b)) => over(how, e, &seq, &b, poll),
                    _ => cycle(how, &seq, poll),
                })
            });
            match r {
                Ok((bad, h, n)) => {
                    ev = n;
                    for m in bad {
                        found.push(("leftover", "C26", format!("{m}; {text}")))
                    }
                    (Some(h), text)
                }
                Err(m) => {
                    found.push(("panic", "*", format!("{m}; {text}")));
                    (None, text)
                }
            }
        });
        d.events(ev);
    })
}
