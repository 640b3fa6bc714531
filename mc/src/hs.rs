//! The opening handshake, both roles: every sequence of peer actions up to a
//! bound against a reference of what has to come of it.
use std::hash::{DefaultHasher, Hash, Hasher};

use ntex_amqp_codec::protocol::SaslCode;

use crate::cgen::Drv;
use crate::codec::Found;
use crate::exec;
use crate::peer;
use crate::refc::{self, *};
use crate::sut::{Cfg, Ev, HsPolicy, Obs, Role, World, show_ev};

/// what the peer may send
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum It {
    H0,
    H1,
    H2,
    H3,
    /// wrong version
    HV,
    Junk,
    InitMin,
    InitFull,
    Resp,
    RespE,
    Mechs,
    MechsMany,
    Out(u8),
    Chal,
    OpenMin,
    OpenFull,
    Begin,
    Empty,
    Close,
    /// undecodable
    BadA,
    BadS,
}
use It::*;

fn bytes(i: It) -> Vec<u8> {
    let s = |c, f| refc::sasl_frame(&Perf::new(c, f));
    match i {
        H0 => AMQP_HDR.to_vec(),
        H1 => b"AMQP\x01\x01\x00\x00".to_vec(),
        H2 => TLS_HDR.to_vec(),
        H3 => SASL_HDR.to_vec(),
        HV => b"AMQP\x00\x01\x01\x00".to_vec(),
        Junk => b"GET / HTTP/1.1\r\n\r\n".to_vec(),
        InitMin => s(SASL_INIT, vec![V::sym("EXTERNAL")]),
        InitFull => s(SASL_INIT, vec![V::sym("PLAIN"), V::Bin(b"z\0user\0p w".to_vec()), V::str("host.name")]),
        Resp => s(SASL_RESPONSE, vec![V::Bin(b"re\0sp".to_vec())]),
        RespE => s(SASL_RESPONSE, vec![V::Bin(vec![])]),
        Mechs => s(SASL_MECHS, vec![V::Arr(vec![V::sym("PLAIN")])]),
        MechsMany => s(SASL_MECHS, vec![V::Arr(vec![V::sym("EXTERNAL"), V::sym("PLAIN"), V::sym("X-Y")])]),
        Out(c) => s(SASL_OUTCOME, vec![V::U8(c)]),
        Chal => s(SASL_CHALLENGE, vec![V::Bin(b"ch".to_vec())]),
        OpenMin => refc::frame(0, &Perf::new(OPEN, vec![V::str("peer")])),
        OpenFull => refc::frame(
            0,
            &Perf::new(
                OPEN,
                vec![
                    V::str("peer 2"),
                    V::str("vhost"),
                    V::U32(4096),
                    V::U16(77),
                    V::U32(123_456_789),
                    V::Arr(vec![V::sym("en-US"), V::sym("de")]),
                    V::Null,
                    V::sym("cap1"),
                    V::Arr(vec![V::sym("d1"), V::sym("d2")]),
                    V::Map(vec![(V::sym("product"), V::str("x"))]),
                ],
            ),
        ),
        Begin => refc::frame(0, &peer::begin(None, 0, 10)),
        Empty => refc::frame_bytes(0, 0, &[]),
        Close => refc::frame(0, &peer::close(false)),
        BadA => refc::frame_bytes(0, 0, &[0, 0x53, 0x99, 0x45]),
        BadS => refc::frame_bytes(1, 0, &[0, 0x53, 0x99, 0x45]),
    }
}

/// where a header is expected but something else comes, and the other way round
fn header_like(i: It) -> bool {
    matches!(i, H0 | H1 | H2 | H3 | HV | Junk)
}

#[derive(Clone, Debug)]
enum Op {
    /// more bytes; the items complete with them; written together with what was before
    W(Vec<u8>, Vec<It>, bool),
    Gone(bool),
    T(u64),
    Rel,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum St {
    /// waits for the peer
    Wait,
    /// waits for the application
    Gate,
    /// is over
    Over,
    /// can only end, but perhaps not before the peer goes or time runs out
    Doomed,
    Up,
    /// closed by the peer in good order
    Closed,
    Unjudged,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Ref {
    outs: Vec<String>,
    evs: Vec<String>,
    st: St,
}

fn dead(i: It, want_header: bool) -> St {
    if !want_header && header_like(i) { St::Doomed } else { St::Over }
}

fn hdr(h: [u8; 8]) -> String {
    format!("header {}", h[4])
}

fn own_open(c: &Cfg) -> String {
    let host = if c.role == Role::Client { c.chostname.or(c.hostname) } else { c.hostname };
    format!(
        "open host {host:?} frame {} channels {} idle {}",
        c.max_frame, c.channel_max, c.idle
    )
}

fn peer_open(i: It) -> String {
    match i {
        OpenMin => {
            "open peer None 4294967295 65535 None None None None None 0 | 4294967295 65535 0 None None None".into()
        }
        _ => "open peer 2 Some(\"vhost\") 4096 77 Some(123456789) Some([\"en-US\", \"de\"]) None Some([\"cap1\"]) Some([\"d1\", \"d2\"]) 1 | 4096 77 123456789 Some(\"vhost\") Some([\"cap1\"]) Some([\"d1\", \"d2\"])".into(),
    }
}

fn up(r: &mut Ref, it: &mut dyn Iterator<Item = It>) {
    r.st = St::Up;
    let mut begun = false;
    for i in it {
        match i {
            Begin if !begun => {
                begun = true;
                r.outs.push("begin remote 0".into())
            }
            Empty => {}
            Close => {
                r.outs.push("close".into());
                r.st = St::Closed;
                return;
            }
            _ => {
                r.st = St::Unjudged;
                return;
            }
        }
    }
}

fn code(c: SaslCode) -> u8 {
    match c {
        SaslCode::Ok => 0,
        SaslCode::Auth => 1,
        SaslCode::Sys => 2,
        SaslCode::SysPerm => 3,
        SaslCode::SysTemp => 4,
    }
}

/// what a server has to have done after these items and application steps
fn server(c: &Cfg, items: &[It], mut rel: usize) -> Ref {
    let mut r = Ref { outs: vec![], evs: vec![], st: St::Wait };
    let mut it = items.iter().copied();
    let p = &c.hs;
    macro_rules! take {
        () => {
            match it.next() {
                Some(i) => i,
                None => return r,
            }
        };
    }
    macro_rules! over {
        ($s:expr) => {{
            r.st = $s;
            return r;
        }};
    }
    macro_rules! gate {
        () => {
            if p.gated {
                if rel == 0 {
                    over!(St::Gate)
                }
                rel -= 1;
            }
        };
    }
    match take!() {
        H0 => {
            r.outs.push(hdr(AMQP_HDR));
            r.evs.push("amqp".into());
            if p.refuse == 1 {
                over!(St::Over)
            }
        }
        H3 => {
            r.outs.push(hdr(SASL_HDR));
            r.evs.push("sasl".into());
            if p.refuse == 1 {
                over!(St::Over)
            }
            gate!();
            r.outs.push(format!("sasl mechanisms {:?}", p.mechs));
            match take!() {
                InitMin => r.evs.push("init EXTERNAL None None".into()),
                InitFull => r.evs.push(format!("init PLAIN {:?} {:?}", Some(&b"z\0user\0p w"[..]), Some("host.name"))),
                i => over!(dead(i, false)),
            }
            if p.refuse == 2 {
                over!(St::Over)
            }
            gate!();
            if let Some(c) = &p.challenge {
                r.outs.push(format!("sasl challenge {c:?}"));
                match take!() {
                    Resp => r.evs.push(format!("response {:?}", b"re\0sp")),
                    RespE => r.evs.push("response []".into()),
                    i => over!(dead(i, false)),
                }
                gate!();
            }
            r.outs.push(format!("sasl outcome {}", code(p.outcome)));
            if p.outcome != SaslCode::Ok {
                over!(St::Over)
            }
            gate!();
            match take!() {
                H0 => r.outs.push(hdr(AMQP_HDR)),
                i => over!(dead(i, true)),
            }
            return open_phase(c, r, &mut it, rel);
        }
        i => over!(dead(i, true)),
    }
    gate!();
    open_phase(c, r, &mut it, rel)
}

fn open_phase(c: &Cfg, mut r: Ref, it: &mut dyn Iterator<Item = It>, rel: usize) -> Ref {
    match it.next() {
        None => return r,
        Some(i @ (OpenMin | OpenFull)) => r.evs.push(peer_open(i)),
        Some(i) => {
            r.st = dead(i, false);
            return r;
        }
    }
    if c.hs.refuse == 3 {
        r.st = St::Over;
        return r;
    }
    if c.hs.gated && rel == 0 {
        r.st = St::Gate;
        return r;
    }
    r.outs.push(own_open(c));
    r.evs.push("control-created".into());
    r.evs.push("publish-created".into());
    up(&mut r, it);
    r
}

/// the same for a client
fn client(c: &Cfg, items: &[It], _: usize) -> Ref {
    let mut r = Ref { outs: vec![], evs: vec![], st: St::Wait };
    let mut it = items.iter().copied();
    macro_rules! take {
        () => {
            match it.next() {
                Some(i) => i,
                None => return r,
            }
        };
    }
    macro_rules! fail {
        ($i:expr, $h:expr, $($e:tt)*) => {{
            let s = dead($i, $h);
            r.st = s;
            r.evs.push(if s == St::Doomed { "failed ?".into() } else { format!("failed {}", format!($($e)*)) });
            return r;
        }};
    }
    if let Some((z, n, p)) = c.csasl {
        r.outs.push(hdr(SASL_HDR));
        match take!() {
            H3 => {}
            i => fail!(i, true, "ProtocolNegotiation"),
        }
        match take!() {
            Mechs | MechsMany => {}
            i => fail!(i, false, ""),
        }
        r.outs.push(format!("sasl init PLAIN {:?}", format!("{z}\0{n}\0{p}").into_bytes()));
        match take!() {
            Out(0) => {}
            i @ Out(n @ 1..=4) => fail!(i, false, "Sasl({})", ["", "Auth", "Sys", "SysPerm", "SysTemp"][n as usize]),
            i => fail!(i, false, ""),
        }
    }
    r.outs.push(hdr(AMQP_HDR));
    match take!() {
        H0 => {}
        i => fail!(i, true, "ProtocolNegotiation"),
    }
    r.outs.push(own_open(c));
    match take!() {
        OpenMin | OpenFull => r.evs.push("connected".into()),
        i @ (Begin | Empty | Close) => fail!(i, false, "ExpectOpenFrame"),
        i => fail!(i, false, ""),
    }
    up(&mut r, &mut it);
    r
}

fn seen(i: &Item) -> String {
    match i {
        Item::Header(h) if h[..4] == *b"AMQP" && h[5..] == [1, 0, 0] => format!("header {}", h[4]),
        Item::Frame(1, 0, p, _) => match p.code {
            SASL_MECHS => {
                let v: Vec<&str> = match p.get(0) {
                    V::Arr(v) | V::List(v) => v.iter().map(|s| if let V::Sym(s) = s { s.as_str() } else { "?" }).collect(),
                    V::Sym(s) => vec![s.as_str()],
                    _ => vec![],
                };
                format!("sasl mechanisms {v:?}")
            }
            SASL_CHALLENGE => format!("sasl challenge {:?}", bin(p.get(0))),
            SASL_INIT => format!(
                "sasl init {} {:?}",
                if let V::Sym(s) = p.get(0) { s.as_str() } else { "?" },
                bin(p.get(1))
            ),
            SASL_OUTCOME => format!("sasl outcome {}", if let V::U8(n) = p.get(0) { *n } else { 255 }),
            _ => format!("sasl {}", p.show()),
        },
        Item::Frame(0, 0, p, _) if p.code == OPEN => {
            if !matches!(p.get(0), V::Str(s) if !s.is_empty()) {
                return "open without container".into();
            }
            let host = if let V::Str(s) = p.get(1) { Some(s.as_str()) } else { None };
            format!(
                "open host {host:?} frame {} channels {} idle {}",
                p.u32(2).unwrap_or(u32::MAX),
                if let V::U16(n) = p.get(3) { *n } else { u16::MAX },
                p.u32(4).unwrap_or(0)
            )
        }
        Item::Frame(0, _, p, _) if p.code == BEGIN => {
            format!("begin remote {}", if let V::U16(n) = p.get(0) { *n as i32 } else { -1 })
        }
        Item::Frame(0, 0, p, _) if p.code == CLOSE && p.get(0).is_null() => "close".into(),
        Item::Frame(t, ch, p, _) => format!("type {t} ch {ch} {}", p.show()),
        i => format!("{i:?}"),
    }
}

fn bin(v: &V) -> Vec<u8> {
    if let V::Bin(b) = v { b.clone() } else { b"?".to_vec() }
}

fn reference(c: &Cfg, items: &[It], rel: usize) -> Ref {
    match c.role {
        Role::Server => server(c, items, rel),
        Role::Client => client(c, items, rel),
    }
}

fn show(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops {
        s.push_str(&match o {
            Op::W(b, i, j) => {
                let all: usize = i.iter().map(|i| bytes(*i).len()).sum();
                format!("{}{i:?}{}", if *j { "+" } else { " " }, if all == b.len() { String::new() } else { format!("/{}B", b.len()) })
            }
            Op::Gone(e) => format!(" {}", show_ev(if *e { &Ev::PReadErr } else { &Ev::PDrop })),
            Op::T(n) => format!(" {n}ms"),
            Op::Rel => " app-step".into(),
        })
    }
    s
}

struct Run {
    w: World,
    outs: Vec<String>,
    evs: Vec<String>,
    calls: usize,
    end: Option<Result<(), String>>,
    eof: bool,
    broken: Option<String>,
}

impl Run {
    fn new(cfg: &Cfg) -> Run {
        let mut w = World::new(cfg.clone());
        w.tap = Some(vec![]);
        w.mon.enabled = false;
        Run { w, outs: vec![], evs: vec![], calls: 0, end: None, eof: false, broken: None }
    }
    fn collect(&mut self) {
        for (_, o) in self.w.tap.replace(vec![]).unwrap() {
            match o {
                // heartbeats
                Obs::Out(Item::Empty(0)) if self.outs.iter().any(|o| o.starts_with("open")) => {}
                Obs::Out(i) => self.outs.push(seen(&i)),
                Obs::Hs(s) => self.evs.push(s),
                Obs::Ctl(..) | Obs::Msg(..) | Obs::Hnd(..) | Obs::Take(..) => self.calls += 1,
                Obs::TaskEnd(r) => self.end = Some(r),
                Obs::Eof => self.eof = true,
                Obs::Panic(m) => self.broken = Some(format!("panic: {m}")),
                Obs::Livelock => self.broken = Some("does not come to rest".into()),
                _ => {}
            }
        }
    }
}

fn ev_ok(want: &str, got: &str) -> bool {
    match want.strip_prefix("failed ") {
        Some("?") => got.starts_with("failed "),
        Some(e) => got.strip_prefix("failed ").is_some_and(|g| g.starts_with(e)),
        None => want == got,
    }
}

fn is_prefix(want: &[String], got: &[String]) -> bool {
    got.len() <= want.len() && want.iter().zip(got).all(|(w, g)| ev_ok(w, g))
}

/// order of the two services' creation is the endpoint's business
fn norm(mut v: Vec<String>) -> Vec<String> {
    if let Some(i) = v.iter().position(|s| s.ends_with("-created"))
        && v.len() >= i + 2
    {
        v[i..].sort();
    }
    v
}

fn execute(cfg: &Cfg, ops: &[Op], poll: &mut dyn FnMut() -> bool) -> (Vec<(&'static str, String)>, u64) {
    let mut r = Run::new(cfg);
    let mut bad: Vec<(&'static str, String)> = vec![];
    let mut items: Vec<It> = vec![];
    let (mut rel, mut t, mut gone) = (0usize, 0u64, false);
    let mut frozen: Option<Ref> = None;
    let limit = if cfg.hs_timeout == 0 || cfg.role == Role::Client && !cfg.connector { u64::MAX } else { cfg.hs_timeout as u64 * 1000 };
    let mut hash = DefaultHasher::new();

    macro_rules! compare {
        ($when:expr) => {{
            r.collect();
            let all = reference(cfg, &items, rel);
            let e = frozen.clone().unwrap_or(all.clone());
            e.hash(&mut hash);
            if let Some(m) = &r.broken {
                bad.push(("hs-broken", format!("{m} {}", $when)));
            } else if all.st == St::Unjudged {
            } else if gone {
                // anything up to what the sequence stands for
                let full = reference(cfg, &items, 99);
                if !is_prefix(&full.outs, &r.outs) {
                    bad.push(("hs-out", format!("sent {:?}, after the peer is gone, where at most {:?} {}", r.outs, full.outs, $when)))
                }
                let evs = norm(r.evs.iter().filter(|e| !e.starts_with("failed")).cloned().collect());
                if !is_prefix(&full.evs, &evs) {
                    bad.push(("hs-events", format!("application saw {evs:?}, after the peer is gone, where at most {:?} {}", full.evs, $when)))
                }
            } else {
                if r.outs != e.outs {
                    bad.push(("hs-out", format!("sent {:?} instead of {:?} {}", r.outs, e.outs, $when)))
                }
                let (evs, mut want) = (norm(r.evs.clone()), norm(e.evs.clone()));
                let may = matches!(e.st, St::Doomed);
                if may && evs.len() + 1 == want.len() && want.last().is_some_and(|x| x.starts_with("failed")) {
                    want.pop();
                }
                if evs.len() != want.len() || !is_prefix(&want, &evs) {
                    bad.push(("hs-events", format!("application saw {evs:?} instead of {want:?} {}", $when)))
                }
                let ended = r.end.is_some();
                match e.st {
                    St::Wait | St::Gate if ended => bad.push(("hs-ended", format!("ended with {:?} while the sequence is in order {}", r.end, $when))),
                    St::Up if ended => bad.push(("hs-ended", format!("open connection ended with {:?} {}", r.end, $when))),
                    St::Over if !ended => bad.push(("hs-goes-on", format!("has not ended {}", $when))),
                    St::Over | St::Doomed if matches!(r.end, Some(Ok(()))) => bad.push(("hs-ok", format!("reported as a good connection {}", $when))),
                    _ => {}
                }
                if !matches!(e.st, St::Up | St::Closed) && r.calls > 0 {
                    bad.push(("hs-calls", format!("service called before the connection is open {}", $when)))
                }
            }
            e
        }};
    }

    r.w.quiesce(poll);
    compare!("at the start");
    let mut last = St::Wait;
    for (n, op) in ops.iter().enumerate() {
        if !bad.is_empty() {
            break;
        }
        match op {
            Op::W(b, i, _) => {
                r.w.inject(&Ev::PBytes(b.clone()));
                items.extend(i);
            }
            Op::Gone(e) => {
                r.w.inject(if *e { &Ev::PReadErr } else { &Ev::PDrop });
                gone = true;
            }
            Op::T(ms) => {
                t += ms;
                r.w.advance(*ms, poll);
                if t >= limit && frozen.is_none() {
                    let mut e = reference(cfg, &items, rel);
                    if !matches!(e.st, St::Up | St::Closed | St::Unjudged) {
                        if e.st != St::Over && cfg.role == Role::Client {
                            e.evs.retain(|e| !e.starts_with("failed"));
                            e.evs.push("failed HandshakeTimeout".into());
                        }
                        e.st = St::Over;
                        frozen = Some(e);
                    }
                }
            }
            Op::Rel => {
                if r.w.hs_release() {
                    rel += 1
                }
            }
        }
        if matches!(ops.get(n + 1), Some(Op::W(_, _, true) | Op::Gone(true)))
            && !matches!(op, Op::T(_))
        {
            continue;
        }
        r.w.quiesce(poll);
        last = compare!(format!("at step {}", n + 1)).st;
    }
    // everything comes to an end
    if bad.is_empty() && last != St::Unjudged {
        let alone = last == St::Over && !gone;
        if !alone {
            if !gone {
                gone = true;
                r.w.inject(&Ev::PDrop);
            }
            r.w.quiesce(poll);
            while r.w.hs_release() {
                rel += 1;
                r.w.quiesce(poll);
            }
        }
        r.w.advance(5_000, poll);
        compare!("at the end");
        if bad.is_empty() {
            if r.end.is_none() {
                bad.push(("hs-goes-on", "has not ended after the peer is gone".into()))
            }
            if alone && !r.eof {
                bad.push(("hs-not-closed", "connection still up long after the attempt failed".into()))
            }
            if cfg.role == Role::Client && !r.evs.iter().any(|e| e.starts_with("failed") || e == "connected") {
                bad.push(("hs-no-answer", "connector never answered".into()))
            }
        }
    }
    // tear down inside the execution
    r.w.tap = Some(vec![]);
    r.w.teardown(poll);
    r.collect();
    if bad.is_empty() && let Some(m) = &r.broken {
        bad.push(("hs-broken", format!("{m} at the very end")))
    }
    (bad, hash.finish())
}

// ------------------------------------------------------------------ cases ---

fn w(i: It, join: bool) -> Op {
    Op::W(bytes(i), vec![i], join)
}

fn cfgs() -> Vec<(&'static str, Cfg)> {
    let s = |p: HsPolicy| Cfg { auto_open: false, hs: p, hs_timeout: 2, ..Cfg::default() };
    let d = HsPolicy::default;
    let c = |c: Cfg| Cfg { auto_open: false, role: Role::Client, hs_timeout: 2, ..c };
    let b = Cfg::default;
    vec![
        ("ok", Cfg { hostname: Some("me"), max_frame: 1000, channel_max: 5, idle: 70_000, ..s(d()) }),
        ("many", s(HsPolicy { mechs: vec!["PLAIN", "EXTERNAL", "SCRAM-SHA-256"], ..d() })),
        ("challenge", s(HsPolicy { challenge: Some(b"c\0h".to_vec()), ..d() })),
        ("challenge-empty", s(HsPolicy { challenge: Some(vec![]), ..d() })),
        ("auth", s(HsPolicy { outcome: SaslCode::Auth, ..d() })),
        ("sys", s(HsPolicy { outcome: SaslCode::SysTemp, keep_on: true, ..d() })),
        ("auth-on", s(HsPolicy { outcome: SaslCode::Auth, keep_on: true, ..d() })),
        ("challenge-auth", s(HsPolicy { challenge: Some(vec![7; 300]), outcome: SaslCode::Auth, keep_on: true, ..d() })),
        ("refuse1", s(HsPolicy { refuse: 1, ..d() })),
        ("refuse2", s(HsPolicy { refuse: 2, ..d() })),
        ("refuse3", s(HsPolicy { refuse: 3, ..d() })),
        ("none", Cfg { hs_timeout: 0, ..s(HsPolicy { mechs: vec![], ..d() }) }),
        ("gated", s(HsPolicy { gated: true, ..d() })),
        ("gated-challenge", s(HsPolicy { gated: true, challenge: Some(b"x".to_vec()), ..d() })),
        ("gated-auth", s(HsPolicy { gated: true, outcome: SaslCode::Auth, keep_on: true, ..d() })),
        // clients
        ("c-plain", c(Cfg { hostname: Some("me"), max_frame: 1000, channel_max: 5, idle: 70_000, ..b() })),
        ("c-plain-con", c(Cfg { connector: true, hostname: Some("me"), chostname: Some("vh"), ..b() })),
        ("c-sasl", c(Cfg { csasl: Some(("", "user", "pass word")), ..b() })),
        ("c-sasl-con", c(Cfg { connector: true, csasl: Some(("z", "u\u{e9}", "")), chostname: Some("vh"), ..b() })),
        ("c-sasl-con-0", Cfg { hs_timeout: 0, ..c(Cfg { connector: true, csasl: Some(("", "", "p")), ..b() }) }),
    ]
}

fn cfg(n: &str) -> Cfg {
    cfgs().into_iter().find(|c| c.0 == n).expect("configuration").1
}

const SRV: &[It] = &[
    H0, H1, H2, H3, HV, Junk, InitMin, InitFull, Resp, RespE, Mechs, Out(0), Chal, OpenMin, OpenFull, Begin, Empty, Close, BadA, BadS,
];
const CLI: &[It] = &[
    H0, H1, H2, H3, HV, Junk, InitFull, Resp, Mechs, MechsMany, Out(0), Out(1), Out(2), Out(3), Out(4), Out(5), Chal, OpenMin, OpenFull, Begin, Empty, Close, BadA, BadS,
];
/// what might make a dead attempt come to life
const LURE_S: &[It] = &[H0, H3, InitFull, Resp, OpenMin, Begin];
const LURE_C: &[It] = &[H0, H3, Mechs, Out(0), OpenMin, Begin];

fn alive(s: St) -> bool {
    matches!(s, St::Wait | St::Gate | St::Up)
}

/// all sequences, all groupings into reads
fn seqs(c: &Cfg, max: usize, after: usize, ops: &mut Vec<Op>, items: &mut Vec<It>, emit: &mut dyn FnMut(&[Op])) {
    emit(ops);
    if !matches!(ops.last(), Some(Op::T(_))) && !ops.is_empty() {
        // gone in the same breath
        ops.push(Op::Gone(true));
        emit(ops);
        ops.pop();
    }
    if ops.len() >= max {
        return;
    }
    let st = reference(c, items, 0).st;
    let (alpha, left) = if alive(st) {
        (if c.role == Role::Server { SRV } else { CLI }, after)
    } else if after > 0 && st != St::Unjudged && st != St::Closed {
        (if c.role == Role::Server { LURE_S } else { LURE_C }, after - 1)
    } else {
        return;
    };
    for i in alpha {
        for j in [false, true] {
            if j && ops.is_empty() {
                continue;
            }
            ops.push(w(*i, j));
            items.push(*i);
            seqs(c, max, left, ops, items, emit);
            items.pop();
            ops.pop();
        }
    }
}

/// good sequences of a configuration, as far as they go
fn good(c: &Cfg) -> Vec<Vec<It>> {
    let mut o = vec![];
    fn go(c: &Cfg, v: &mut Vec<It>, o: &mut Vec<Vec<It>>) {
        let alpha: &[It] = if c.role == Role::Server {
            &[H0, H3, InitMin, InitFull, Resp, RespE, OpenMin, OpenFull, Begin]
        } else {
            &[H0, H3, Mechs, MechsMany, Out(0), Out(1), OpenMin, OpenFull, Begin]
        };
        let r = reference(c, v, 99);
        let mut end = true;
        if alive(r.st) && v.last() != Some(&Begin) {
            for i in alpha {
                v.push(*i);
                let n = reference(c, v, 99);
                if alive(n.st) || (n.outs.len() > r.outs.len() || n.evs.last().is_some_and(|e| e.starts_with("failed Sasl"))) && n.st == St::Over {
                    end = false;
                    go(c, v, o)
                }
                v.pop();
            }
        }
        if end {
            o.push(v.clone())
        }
    }
    go(c, &mut vec![], &mut o);
    o
}

/// a stretch of the byte stream of `v` as one write
fn stretch(v: &[It], from: usize, to: usize, join: bool) -> Op {
    let (mut all, mut done) = (vec![], vec![]);
    for i in v {
        all.extend(bytes(*i));
        if all.len() > from && all.len() <= to {
            done.push(*i)
        }
    }
    Op::W(all[from..to].to_vec(), done, join)
}

fn cuts(c: &Cfg, deep: bool, emit: &mut dyn FnMut(&[Op])) {
    for v in good(c) {
        let n: usize = v.iter().map(|i| bytes(*i).len()).sum();
        let each: Vec<Op> = (0..n).map(|i| stretch(&v, i, i + 1, false)).collect();
        emit(&each);
        for i in 1..=n {
            emit(&[stretch(&v, 0, i, false)]);
            emit(&[stretch(&v, 0, i, false), Op::Gone(true)]);
            emit(&[stretch(&v, 0, i, false), Op::T(1_600), Op::T(800), stretch(&v, i, n, false)]);
            emit(&[stretch(&v, 0, i, false), Op::T(1_600), stretch(&v, i, n, false), Op::T(5_000)]);
            emit(&[stretch(&v, 0, i, false), stretch(&v, i, n, false)]);
            if deep {
                for j in i + 1..n {
                    emit(&[stretch(&v, 0, i, false), stretch(&v, i, j, false), stretch(&v, j, n, false)]);
                }
            }
        }
    }
}

/// pauses between the steps
fn pauses(c: &Cfg, emit: &mut dyn FnMut(&[Op])) {
    fn go(v: &[It], at: usize, left: usize, ops: &mut Vec<Op>, emit: &mut dyn FnMut(&[Op])) {
        if at == v.len() {
            ops.push(Op::T(3_000));
            emit(ops);
            ops.pop();
            return;
        }
        for k in 0..=left {
            let len = ops.len();
            ops.extend(std::iter::repeat_n(Op::T(800), k));
            for rel in [false, true] {
                if rel {
                    ops.push(Op::Rel)
                }
                ops.push(w(v[at], false));
                go(v, at + 1, left - k, ops, emit);
                ops.pop();
                if rel {
                    ops.pop();
                }
            }
            ops.truncate(len);
        }
    }
    for v in good(c) {
        go(&v, 0, 3, &mut vec![], emit)
    }
    // for ever
    if c.hs_timeout == 0 || c.role == Role::Client && !c.connector {
        for v in good(c) {
            for i in 0..v.len() {
                let mut ops: Vec<Op> = v.iter().map(|i| w(*i, false)).collect();
                ops.insert(i, Op::T(1_000_000));
                emit(&ops);
            }
        }
    }
}

/// application steps at every point
fn steps(c: &Cfg, max: usize, ops: &mut Vec<Op>, items: &mut Vec<It>, rel: usize, emit: &mut dyn FnMut(&[Op])) {
    emit(ops);
    ops.push(Op::Gone(true));
    emit(ops);
    ops.pop();
    let now = reference(c, items, rel).st;
    if ops.len() >= max || matches!(now, St::Over | St::Closed | St::Unjudged | St::Doomed) {
        return;
    }
    // what the peer sends is judged by what comes of it in the end
    let ahead = reference(c, items, 99).st;
    if now == St::Gate {
        ops.push(Op::Rel);
        steps(c, max, ops, items, rel + 1, emit);
        ops.pop();
    }
    let alpha: &[It] = &[H0, H3, InitFull, Resp, OpenMin, Begin];
    if !alive(ahead) || items.last() == Some(&Begin) {
        return;
    }
    for i in alpha {
        items.push(*i);
        let f = reference(c, items, 99).st;
        if f != St::Unjudged {
            for j in [false, true] {
                if j && ops.is_empty() {
                    continue;
                }
                ops.push(w(*i, j));
                steps(c, max, ops, items, rel, emit);
                ops.pop();
            }
        }
        items.pop();
    }
}

pub fn parts(role: Role, size: usize) -> Vec<String> {
    let tier = if size > 1 { "t" } else { "q" };
    let mut o = vec![];
    for (n, c) in cfgs() {
        if c.role != role {
            continue;
        }
        let k = if size > 1 { 160 } else { 16 };
        for i in 0..k {
            if c.hs.gated {
                o.push(format!("hs.steps.{n}.{i}.{k}.{tier}"));
            } else {
                // the others differ in what is said, not in when
                if size > 1 || !["many", "challenge-empty", "none", "sys", "auth", "c-plain", "c-sasl-con-0"].contains(&n) {
                    o.push(format!("hs.seq.{n}.{i}.{k}.{tier}"));
                }
                o.push(format!("hs.cut.{n}.{i}.{k}.{tier}"));
            }
            o.push(format!("hs.time.{n}.{i}.{k}.{tier}"));
        }
    }
    o
}

pub fn run(f: &[&str], d: &mut Drv) {
    let c = cfg(f[2]);
    let (i, k): (u64, u64) = (f[3].parse().unwrap(), f[4].parse().unwrap());
    let deep = f[5] == "t";
    let prop = if c.role == Role::Server { "C05" } else { "C06" };
    let mut n = 0u64;
    let mut emit = |ops: &[Op]| {
        n += 1;
        if n % k != i {
            return;
        }
        let ops2 = ops.to_vec();
        let cfg = c.clone();
        let text = || format!("{}:{}", f[2], show(ops));
        d.any(|found: &mut Vec<Found>| {
            let r = exec::isolated(2 << 20, move || {
                exec::with_runtime(move |poll| execute(&cfg, &ops2, poll))
            });
            let h = match r {
                Ok((bad, h)) => {
                    for (rule, m) in bad {
                        found.push((rule, prop, format!("{m}; {}", text())))
                    }
                    h
                }
                Err(m) => {
                    found.push(("panic", "*", format!("{m}; {}", text())));
                    0
                }
            };
            (Some(h), text())
        });
        d.events(ops.len() as u64);
    };
    match f[1] {
        "seq" => seqs(&c, if deep { 8 } else { 7 }, if deep { 2 } else { 1 }, &mut vec![], &mut vec![], &mut emit),
        "cut" => cuts(&c, deep, &mut emit),
        "time" => pauses(&c, &mut emit),
        "steps" => steps(&c, if deep { 11 } else { 9 }, &mut vec![], &mut vec![], 0, &mut emit),
        x => panic!("{x}"),
    }
}
