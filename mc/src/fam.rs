//! Scenario families: endpoint configuration, scripted setup, and the menu of
//! stimuli that may come next in a given model state.
use crate::explore::{Fam, Run};
use crate::peer::*;
use crate::refc::*;
use crate::sut::*;

// ------------------------------------------------------------------ helpers

pub fn hello(r: &mut Run) {
    let c = r.w.app.cfg.clone();
    match c.role {
        Role::Server => {
            r.q();
            r.go(Ev::PBytes(AMQP_HDR.to_vec()));
            r.go(Ev::P(0, open(&c)));
        }
        Role::Client => {
            r.q();
            r.go(Ev::PBytes(AMQP_HDR.to_vec()));
            r.go(Ev::P(0, open(&c)));
        }
    }
}

fn next_op(r: &Run) -> OpId {
    r.m().ops.keys().copied().filter(|k| *k < 900).max().unwrap_or(0) + 1
}

fn pch(r: &Run, s: usize) -> u16 {
    r.m().sess[s].peer_ch.unwrap_or(0)
}
/// next-incoming-id the peer states: all it has seen
fn nii(r: &Run, s: usize) -> u32 {
    let s = &r.m().sess[s];
    s.init_out.wrapping_add(s.tx)
}
fn win(r: &Run, s: usize) -> (Option<u32>, u32) {
    r.m().sess[s].wins.last().copied().unwrap_or((None, 0))
}
/// a Flow restating the window in force, for the link, granting `credit`
fn grant(r: &Run, name: &str, dc: Option<u32>, credit: u32) -> Option<Ev> {
    let l = r.m().link_dir(name, true)?;
    let s = l.sess;
    let w = r.m().sess[s].window().max(0) as u32;
    Some(Ev::P(
        pch(r, s),
        flow_l(Some(nii(r, s)), w, r.m().sess[s].p_next_out(), l.ph?, dc, credit, false),
    ))
}
fn seen_dc(r: &Run, name: &str) -> Option<u32> {
    let l = r.m().link_dir(name, true)?;
    Some(l.init_dc.wrapping_add(l.started))
}

/// answers to everything this side started: Begin, Attach, Detach, End
/// (one event per outstanding request)
fn answers(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    for (i, s) in m.sess.iter().enumerate() {
        if s.local && s.begin_out && !s.begin_in && !s.end_out {
            v.push(Ev::P(free_ch(r, i), begin(s.eut_ch, 100, 50)));
        }
        if s.end_out && s.begin_in && !s.end_in {
            v.push(Ev::P(pch(r, i), end()));
        }
    }
    for l in &m.links {
        let s = &m.sess[l.sess];
        if s.end_in || s.end_out {
            continue;
        }
        if l.local && l.attach_out && !l.attach_in {
            v.push(Ev::P(pch(r, l.sess), answer_attach(r, l)));
        }
        if l.attach_in && l.detach_out && !l.detach_in {
            v.push(Ev::P(pch(r, l.sess), detach(l.ph.unwrap(), false)));
        }
    }
}
fn answer_attach(r: &Run, l: &crate::mon::LinkM) -> Perf {
    attach(&l.name, free_ph(r, l.sess), l.eut_sender, Some("x"), if l.eut_sender { None } else { Some(7) })
}
/// the peer's channels are 5, 4, 3 ... so they collide crosswise with this side's
fn free_ch(r: &Run, _i: usize) -> u16 {
    let m = r.m();
    (0..6u16).rev().find(|c| !m.in_map.contains_key(c)).unwrap_or(9)
}
fn free_ph(r: &Run, s: usize) -> u32 {
    let m = r.m();
    (0..5u32)
        .rev()
        .find(|h| !m.links.iter().any(|l| l.sess == s && l.ph == Some(*h) && l.attach_in && !l.detach_in))
        .unwrap_or(9)
}
fn gates(r: &Run, v: &mut Vec<Ev>, errs: bool) {
    for i in r.w.open_ctl() {
        v.push(Ev::Ctl(i, true));
        if errs
            && matches!(
                r.w.ctl_call(i),
                Call::AttachSender(_) | Call::AttachReceiver(_) | Call::Flow(..)
            )
        {
            v.push(Ev::Ctl(i, false));
        }
    }
    for i in r.w.open_msg() {
        v.push(Ev::Msg(i, true));
        if errs {
            v.push(Ev::Msg(i, false));
        }
    }
}
fn body(op: OpId, n: usize) -> Vec<u8> {
    (0..n).map(|i| (op as usize * 31 + i * 7) as u8).collect()
}
fn n_ops(r: &Run, f: impl Fn(&Ev) -> bool) -> usize {
    r.m().ops.values().filter(|o| f(&o.ev)).count()
}
fn is_send(e: &Ev) -> bool {
    matches!(e, Ev::Send(..) | Ev::SendFmt(..) | Ev::SendMsg(..))
}
fn n_sends(r: &Run) -> usize {
    n_ops(r, is_send)
}
fn pending_sends(r: &Run) -> Vec<OpId> {
    r.m().ops.iter().filter(|(_, o)| is_send(&o.ev) && o.done.is_none() && !o.cancelled).map(|x| *x.0).collect()
}
fn n_flows(r: &Run) -> usize {
    r.w.n_in(FLOW)
}

// ------------------------------------------------------------------ senders

fn snd_setup(r: &mut Run, winsz: u32, links: &[&str]) {
    hello(r);
    r.go(Ev::P(1, begin(None, 10, winsz)));
    for (i, n) in links.iter().enumerate() {
        r.go(Ev::P(1, attach(n, 3 - i as u32, true, Some("a"), None)));
    }
}

fn cfg_srv() -> Cfg {
    Cfg::default()
}

/// credit: one remote-opened sending link, wide window
fn credit_setup(r: &mut Run) {
    snd_setup(r, 1000, &["s"]);
}
fn credit_menu(r: &Run, v: &mut Vec<Ev>) {
    flow_menu(r, v, "s", &[0, 1, 2]);
    send_menu(r, v, &["s"], 3, 4, false);
    cancel_menu(r, v);
    if n_ops(r, |e| matches!(e, Ev::Ready(..) | Ev::OnCredit(..))) < 1 {
        v.push(Ev::Ready(next_op(r), "s"));
        v.push(Ev::OnCredit(next_op(r), "s"));
    }
}
fn flow_menu(r: &Run, v: &mut Vec<Ev>, n: &str, credits: &[u32]) {
    let Some(l) = r.m().link_dir(n, true) else { return };
    if !l.attach_in || l.detach_in || r.m().down() {
        return;
    }
    let dc = seen_dc(r, n).unwrap();
    let last = l.lims.last().map(|x| x.0.unwrap_or(l.init_dc)).unwrap_or(l.init_dc);
    for c in credits {
        v.extend(grant(r, n, Some(dc), *c));
    }
    // a Flow that crossed the last delivery on the way
    if dc != last {
        for c in credits {
            if *c > 0 || credits.len() == 1 {
                v.extend(grant(r, n, Some(dc.wrapping_sub(1)), *c));
            }
        }
    }
}
fn send_menu(r: &Run, v: &mut Vec<Ev>, links: &[&'static str], max: usize, size: usize, settled: bool) {
    if n_sends(r) < max {
        for l in links {
            let op = next_op(r);
            v.push(Ev::Send(op, l, None, body(op, size), settled));
        }
    }
}
fn cancel_menu(r: &Run, v: &mut Vec<Ev>) {
    let p = pending_sends(r);
    if let Some(x) = p.first() {
        v.push(Ev::Cancel(*x));
    }
    if p.len() > 1 {
        v.push(Ev::Cancel(*p.last().unwrap()));
    }
}


/// two links sharing a session, credit one by one
fn credit2_setup(r: &mut Run) {
    snd_setup(r, 1000, &["s", "t"]);
}
fn credit2_menu(r: &Run, v: &mut Vec<Ev>) {
    flow_menu(r, v, "s", &[1]);
    flow_menu(r, v, "t", &[1]);
    send_menu(r, v, &["s", "t"], 4, 4, false);
    if let Some(x) = pending_sends(r).first() {
        v.push(Ev::Cancel(*x));
    }
    if n_det(r) == 0 && !r.m().down() {
        if let Some(l) = r.m().link_dir("s", true).filter(|l| !l.detach_in) {
            v.push(Ev::P(1, detach(l.ph.unwrap(), true)));
        }
        if n_ops(r, |e| matches!(e, Ev::CloseS(..))) == 0 {
            v.push(Ev::CloseS(next_op(r), "s", false));
        }
    }
    answers(r, v);
}
fn n_det(r: &Run) -> usize {
    r.w.n_in(DETACH)
}

/// locally opened session and sending link, client role
fn lsnd_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::OpenSession(1, "A"));
    r.go(Ev::P(4, begin(Some(0), 20, 1000)));
    r.go(Ev::AttachS(2, "A", "s"));
    r.go(Ev::P(4, attach("s", 6, true, Some("x"), None)));
}
fn cfg_cli() -> Cfg {
    Cfg { role: Role::Client, ..Cfg::default() }
}

/// credit in the first flights: the peer's Attach and Flow come together
fn early_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 10, 2)));
}
fn early_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    match m.link_dir("s", true) {
        None => v.push(Ev::P(1, attach("s", 3, true, Some("a"), Some(7)))),
        Some(l) if !l.detach_in => {
            let dc = if l.attach_out { seen_dc(r, "s") } else { None };
            for c in [0, 1, 2] {
                v.extend(grant(r, "s", dc, c));
            }
            if r.w.app_inner().senders.contains_key("s") {
                send_menu(r, v, &["s"], 2, 4, false);
            }
            if !l.detach_in && n_det(r) == 0 {
                v.push(Ev::P(1, detach(3, false)));
            }
        }
        _ => {}
    }
    gates(r, v, true);
}
fn is_attach(c: &Call) -> bool {
    matches!(c, Call::AttachSender(_) | Call::AttachReceiver(_))
}
fn cfg_gate_attach() -> Cfg {
    Cfg { gate_ctl: is_attach, ..Cfg::default() }
}

/// session window; plenty of link credit
fn window_setup(r: &mut Run) {
    snd_setup(r, 1, &["s", "t"]);
    let e = grant(r, "s", Some(0), 100).unwrap();
    r.go(e);
    let e = grant(r, "t", Some(0), 100).unwrap();
    r.go(e);
}
fn window_flows(r: &Run, v: &mut Vec<Ev>, ch: u16, wins: &[u32], echo: bool) {
    let m = r.m();
    let Some(si) = m.in_map.get(&ch).copied() else { return };
    if m.down() || !m.sess[si].begin_out {
        return;
    }
    let s = &m.sess[si];
    let exact = nii(r, si);
    let last = win(r, si).0.unwrap_or(s.init_out);
    for w in wins {
        v.push(Ev::P(ch, flow_s(Some(exact), *w, s.p_next_out(), false)));
    }
    if last != exact {
        // sent before the last transfer arrived there
        for w in wins {
            if *w > 0 {
                v.push(Ev::P(ch, flow_s(Some(exact.wrapping_sub(1)), *w, s.p_next_out(), false)));
            }
        }
    }
    if echo && r.w.n_in(FLOW) < 4 {
        v.push(Ev::P(ch, flow_s(Some(exact), s.window().max(0) as u32, s.p_next_out(), true)));
    }
}
fn window_menu(r: &Run, v: &mut Vec<Ev>) {
    window_flows(r, v, 1, &[0, 1, 2], true);
    send_menu(r, v, &["s", "t"], 4, 4, false);
    cancel_menu(r, v);
}
/// a Flow racing the answer to Begin carries no next-incoming-id
fn window0_setup(r: &mut Run) {
    hello(r);
    r.ev(Ev::P(1, begin(None, 10, 0)));
    r.ev(Ev::P(1, flow_s(None, 2, 10, false)));
    r.q();
    r.go(Ev::P(1, attach("s", 3, true, Some("a"), None)));
    let h = r.m().link_dir("s", true).unwrap().ph.unwrap();
    r.go(Ev::P(1, flow_l(Some(1), 1, 10, h, Some(0), 100, false)));
}
fn window0_menu(r: &Run, v: &mut Vec<Ev>) {
    window_flows(r, v, 1, &[0, 1], false);
    send_menu(r, v, &["s"], 3, 4, false);
}

/// window and teardown of the links or session whose sends wait for it
fn wend_menu(r: &Run, v: &mut Vec<Ev>) {
    window_flows(r, v, 1, &[0, 2], false);
    send_menu(r, v, &["s", "t"], 3, 4, false);
    let m = r.m();
    if m.down() {
        return;
    }
    if let Some(x) = pending_sends(r).first() {
        v.push(Ev::Cancel(*x));
    }
    if m.in_map.contains_key(&1) {
        if let Some(l) = m.link_dir("s", true).filter(|l| !l.detach_in) {
            v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
            if l.detach_out {
                // answered above
            } else if n_ops(r, |e| matches!(e, Ev::CloseS(..))) == 0 {
                v.push(Ev::CloseS(next_op(r), "s", true));
            }
        }
        v.push(Ev::P(1, end()));
        if n_ops(r, |e| matches!(e, Ev::EndSession(..))) == 0 {
            v.push(Ev::EndSession(next_op(r), "#0"));
        }
    }
}

/// multi-frame messages
fn frag_setup(r: &mut Run) {
    snd_setup(r, 3, &["s", "t"]);
    let e = grant(r, "s", Some(0), 2).unwrap();
    r.go(e);
    let e = grant(r, "t", Some(0), 2).unwrap();
    r.go(e);
}
fn frag_menu(r: &Run, v: &mut Vec<Ev>) {
    window_flows(r, v, 1, &[0, 1, 2], true);
    flow_menu(r, v, "s", &[1]);
    if n_sends(r) < 3 {
        let op = next_op(r);
        v.push(Ev::Send(op, "s", None, body(op, 1100), false));
        v.push(Ev::Send(op, "s", None, body(op, 4), false));
        v.push(Ev::Send(op, "t", Some(vec![9; 32]), body(op, 900), true));
        v.push(Ev::SendMsg(op, "t", body(op, 600)));
    }
    cancel_menu(r, v);
}
/// windows and credits of any size
const HUGE: [u32; 5] = [u32::MAX, u32::MAX - 1, (1 << 31) + 1, 1 << 31, 1];
fn huges_setup(r: &mut Run) {
    snd_setup(r, u32::MAX, &["s"]);
}
fn huges_menu(r: &Run, v: &mut Vec<Ev>) {
    window_flows(r, v, 1, &HUGE, true);
    flow_menu(r, v, "s", &HUGE);
    send_menu(r, v, &["s"], 3, 4, false);
}
fn huger_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let Some(l) = m.link_dir("r", false) else { return };
    if l.credit_ev.is_empty() && n_credit(r) < 3 && l.open() {
        for c in HUGE {
            v.push(Ev::Credit("r", c));
        }
    }
    tr_menu1(r, v, "r");
    v.push(Ev::Take(next_op(r), "r"));
    answers(r, v);
}
/// a message half sent when its link or session goes
fn fend_setup(r: &mut Run) {
    snd_setup(r, 2, &["s", "t"]);
    let e = grant(r, "s", Some(0), 5).unwrap();
    r.go(e);
    let e = grant(r, "t", Some(0), 5).unwrap();
    r.go(e);
}
fn fend_menu(r: &Run, v: &mut Vec<Ev>) {
    window_flows(r, v, 1, &[1, 9], false);
    let m = r.m();
    if n_sends(r) < 3 {
        let op = next_op(r);
        v.push(Ev::Send(op, "s", None, body(op, 1600), false));
        v.push(Ev::Send(op, "t", None, body(op, 4), false));
        v.push(Ev::Send(op, "t", None, body(op, 900), true));
    }
    if let Some(x) = pending_sends(r).first() {
        v.push(Ev::Cancel(*x));
    }
    if m.down() {
        return;
    }
    if m.in_map.contains_key(&1) {
        for n in ["s", "t"] {
            if let Some(l) = m.link_dir(n, true).filter(|l| !l.detach_in) {
                v.push(Ev::P(1, detach(l.ph.unwrap(), n == "t")));
                if !l.detach_out && n_ops(r, |e| matches!(e, Ev::CloseS(..))) == 0 {
                    v.push(Ev::CloseS(next_op(r), n, true));
                }
            }
        }
        v.push(Ev::P(1, end()));
        if n_ops(r, |e| matches!(e, Ev::EndSession(..))) == 0 {
            v.push(Ev::EndSession(next_op(r), "#0"));
        }
    }
}
fn cfg_frag() -> Cfg {
    Cfg { p_max_frame: Some(512), ..Cfg::default() }
}
/// message sizes around every fragment boundary
fn sizes_setup(r: &mut Run) {
    snd_setup(r, 1000, &["s"]);
    let e = grant(r, "s", Some(0), 100).unwrap();
    r.go(e);
}
fn sizes_menu(r: &Run, v: &mut Vec<Ev>) {
    if n_sends(r) == 0 {
        let op = next_op(r);
        for n in 0..1800 {
            v.push(Ev::Send(op, "s", if n % 2 == 0 { Some(vec![n as u8; 32]) } else { None }, body(op, n), n % 3 == 0));
        }
        for n in (0..1800).step_by(7) {
            v.push(Ev::SendMsg(op, "s", body(op, n)));
            v.push(Ev::SendFmt(op, "s", body(op, n), n as u32));
        }
    }
}
fn sizes2_menu(r: &Run, v: &mut Vec<Ev>) {
    if n_sends(r) == 0 {
        let op = next_op(r);
        let c = &r.w.app.cfg;
        let mf = c.p_max_frame.unwrap() as usize;
        for k in 1..=2 {
            for n in (k * mf).saturating_sub(120)..k * mf + 8 {
                v.push(Ev::Send(op, "s", None, body(op, n), false));
            }
        }
    }
}
fn cfg_mf2048() -> Cfg {
    Cfg { p_max_frame: Some(2048), ..Cfg::default() }
}
fn cfg_mf4096() -> Cfg {
    Cfg { p_max_frame: Some(4096), ..Cfg::default() }
}

/// outcomes: two links, three deliveries already out
fn outc_setup(r: &mut Run) {
    snd_setup(r, 1000, &["s", "t"]);
    let e = grant(r, "s", Some(0), 100).unwrap();
    r.go(e);
    let e = grant(r, "t", Some(0), 100).unwrap();
    r.go(e);
    r.go(Ev::Send(1, "s", None, body(1, 3), false));
    r.go(Ev::Send(2, "t", None, body(2, 3), false));
    r.go(Ev::Send(3, "s", None, body(3, 3), false));
}
fn outc_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let id = |op: OpId| m.sent_of(op).map(|s| s.id);
    let (Some(a), Some(b), Some(c)) = (id(1), id(2), id(3)) else { return };
    if !m.down() {
        let left = |op: OpId| m.sent_of(op).map(|s| !s.p_settled).unwrap_or(false);
        // single, unsettled then settled
        if left(1) {
            v.push(Ev::P(1, disp(true, a, None, true, Some(St::Accepted))));
            v.push(Ev::P(1, disp(true, a, Some(a), false, Some(St::Rejected))));
            v.push(Ev::P(1, disp(true, a, None, false, Some(St::Released))));
            v.push(Ev::P(1, disp(true, a, None, true, None)));
        }
        if left(1) || left(2) {
            v.push(Ev::P(1, disp(true, a, Some(b), true, Some(St::Released))));
        }
        if left(2) || left(3) {
            v.push(Ev::P(1, disp(true, b, Some(c), false, Some(St::Modified))));
        }
        v.push(Ev::P(1, disp(false, a, Some(c), true, Some(St::Accepted))));
    }
    for d in [1, 2] {
        let waiting = m.ops.values().any(|o| matches!(o.ev, Ev::Wait(_, x) if x == d) && o.done.is_none() && !o.cancelled);
        let there = r.w.app_inner().deliveries.contains_key(&d);
        if there && !waiting {
            if n_ops(r, |e| matches!(e, Ev::Wait(..))) < 4 {
                v.push(Ev::Wait(next_op(r), d));
            }
            v.push(Ev::DropDelivery(d));
            if d == 1 && m.sent_of(d).map(|s| s.want.is_none()).unwrap_or(false) {
                v.push(Ev::Settle(d, St::Accepted));
            }
        }
    }
}

/// every form of disposition for one of two deliveries
fn outc2_setup(r: &mut Run) {
    snd_setup(r, 1000, &["s"]);
    let e = grant(r, "s", Some(0), 100).unwrap();
    r.go(e);
    r.go(Ev::Send(1, "s", None, body(1, 3), false));
    r.go(Ev::Send(2, "s", None, body(2, 3), false));
}
fn outc2_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let id = |op: OpId| m.sent_of(op).map(|s| s.id);
    let (Some(a), Some(b)) = (id(1), id(2)) else { return };
    if !m.down() && r.w.n_in(DISPOSITION) < 3 {
        for st in [None, Some(St::Accepted), Some(St::Rejected), Some(St::Released), Some(St::Modified), Some(St::Received)] {
            for settled in [true, false] {
                if st.is_none() && !settled {
                    continue;
                }
                for (f, l) in [(a, None), (a, Some(a)), (b, None), (a, Some(b))] {
                    let n = if f == a && l != Some(b) { 1 } else { 2 };
                    if m.sent_of(n).map(|s| !s.p_settled).unwrap_or(false) {
                        v.push(Ev::P(1, disp(true, f, l, settled, st.clone())));
                    }
                }
            }
        }
    }
    for d in [1, 2] {
        let waiting = m.ops.values().any(|o| matches!(o.ev, Ev::Wait(_, x) if x == d) && o.done.is_none() && !o.cancelled);
        let there = r.w.app_inner().deliveries.contains_key(&d);
        if there && !waiting && n_ops(r, |e| matches!(e, Ev::Wait(..))) < 3 {
            v.push(Ev::Wait(next_op(r), d));
        }
        if there && d == 1 && !waiting {
            v.push(Ev::DropDelivery(d));
            if m.sent_of(d).map(|s| s.want.is_none()).unwrap_or(false) {
                v.push(Ev::Settle(d, St::Accepted));
            }
        }
    }
}

// ------------------------------------------------------------------ receivers

fn rcv_setup_n(r: &mut Run, links: &[&str]) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
    for (i, n) in links.iter().enumerate() {
        r.go(Ev::P(1, attach(n, 3 - i as u32, false, Some("q1"), Some(7))));
    }
}
fn tr_menu(r: &Run, v: &mut Vec<Ev>, n: &str, over: bool, full: bool) {
    let m = r.m();
    let Some(l) = m.link_dir(n, false) else { return };
    if m.down() || !l.attach_in || l.detach_in || m.sess[l.sess].end_in {
        return;
    }
    let s = &m.sess[l.sess];
    let ch = s.peer_ch.unwrap();
    let h = l.ph.unwrap();
    let k = r.w.n_in(TRANSFER) as u32 + 1;
    let id = match s.rcv.is_empty() {
        true if s.p_init > 1000 => s.p_init,
        true => 900,
        false => s.p_next_delivery,
    };
    let base = |id: Option<u32>| Tr {
        h,
        id,
        tag: id.map(|i| vec![i as u8, 1]),
        fmt: if id.is_some() { Some(5) } else { None },
        settled: None,
        more: false,
        aborted: false,
        body: body(k, 5),
    };
    if l.part.is_some() {
        v.push(Ev::P(ch, transfer(base(None))));
        v.push(Ev::P(ch, transfer(Tr { more: true, ..base(None) })));
        v.push(Ev::P(ch, transfer(Tr { aborted: true, body: vec![], ..base(None) })));
        if full {
            v.push(Ev::P(ch, transfer(Tr { more: true, body: vec![], ..base(None) })));
            v.push(Ev::P(ch, transfer(Tr { settled: Some(true), more: true, ..base(None) })));
            v.push(Ev::P(ch, transfer(Tr { settled: Some(true), tag: Some(vec![id.wrapping_sub(1) as u8, 1]), fmt: Some(5), ..base(Some(id.wrapping_sub(1))) })));
        }
    } else {
        let c = l.p_credit();
        if c > 0 || (over && c == 0) {
            v.push(Ev::P(ch, transfer(base(Some(id)))));
            v.push(Ev::P(ch, transfer(Tr { more: true, ..base(Some(id)) })));
            if full {
                v.push(Ev::P(ch, transfer(Tr { settled: Some(true), ..base(Some(id)) })));
                v.push(Ev::P(ch, transfer(Tr { settled: Some(true), more: true, fmt: None, ..base(Some(id)) })));
            }
        }
    }
}
fn settle_menu(r: &Run, v: &mut Vec<Ev>, all: bool) {
    let m = r.m();
    let have: Vec<OpId> = r.w.app_inner().deliveries.keys().copied().collect();
    for d in have.iter().take(2) {
        let Some(k) = m.ops.get(d).and_then(|o| o.rcv).map(|i| &m.rcv[i]) else { continue };
        if k.want.is_none() {
            v.push(Ev::Settle(*d, St::Accepted));
            if all {
                v.push(Ev::Settle(*d, St::Released));
                if k.upd.is_empty() {
                    v.push(Ev::Update(*d, St::Received));
                }
            }
        }
        v.push(Ev::DropDelivery(*d));
        if all && !k.p_settled && !m.down() && k.complete && m.sess[0].up() {
            v.push(Ev::P(1, disp(false, k.id, None, true, None)));
        }
    }
}
fn rcv_setup(r: &mut Run) {
    rcv_setup_n(r, &["r"]);
}
fn rcv_menu(r: &Run, v: &mut Vec<Ev>) {
    tr_menu(r, v, "r", false, true);
    settle_menu(r, v, true);
}
fn rcv2_setup(r: &mut Run) {
    rcv_setup_n(r, &["r", "u"]);
    r.go(Ev::P(3, begin(None, 60, 1000)));
    r.go(Ev::P(3, attach("r3", 2, false, Some("q2"), Some(0))));
}
fn rcv2_menu(r: &Run, v: &mut Vec<Ev>) {
    tr_menu(r, v, "r", false, false);
    tr_menu(r, v, "u", false, false);
    tr_menu(r, v, "r3", false, false);
    let m = r.m();
    if m.down() {
        return;
    }
    if let Some(l) = m.link_dir("u", false)
        && !l.detach_in
        && !l.detach_out
    {
        v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
        v.push(Ev::CloseR(next_op(r), "u", false));
    }
    answers(r, v);
}
/// message service answers when told to; it may refuse
fn is_transfer(c: &Call) -> bool {
    matches!(c, Call::MTransfer(..) | Call::MAttached(_))
}
fn cfg_gate_msg() -> Cfg {
    Cfg { gate_msg: is_transfer, ..Cfg::default() }
}
fn rgate_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
}
fn rgate_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    if m.link_dir("r", false).is_none() {
        v.push(Ev::P(1, attach("r", 3, false, Some("q1"), Some(7))));
    }
    tr_menu(r, v, "r", false, false);
    gates(r, v, true);
    if let Some(l) = m.link_dir("r", false)
        && !l.detach_in
    {
        v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
    }
    answers(r, v);
}
/// locally opened receiver in a client: application credit and recv()
fn lrcv_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::OpenSession(1, "A"));
    r.go(Ev::P(1, begin(Some(0), 20, 1000)));
    r.go(Ev::AttachR(2, "A", "r"));
    r.go(Ev::P(1, attach("r", 6, false, Some("x"), Some(7))));
}
fn lrcv_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let Some(l) = m.link_dir("r", false) else { return };
    if l.credit_ev.is_empty() && n_credit(r) < 3 && l.open() {
        v.push(Ev::Credit("r", 1));
        v.push(Ev::Credit("r", 2));
    }
    tr_menu(r, v, "r", true, false);
    if n_ops(r, |e| matches!(e, Ev::Recv(..) | Ev::Take(..))) < 3 {
        v.push(Ev::Recv(next_op(r), "r"));
        v.push(Ev::Take(next_op(r), "r"));
    }
    for (id, o) in &m.ops {
        if matches!(o.ev, Ev::Recv(..)) && o.done.is_none() && !o.cancelled {
            v.push(Ev::Cancel(*id));
            break;
        }
    }
    // the link ends while something may be unread
    if l.begun > 0 && l.open() && !m.sess[l.sess].end_in {
        v.push(Ev::P(1, detach(l.ph.unwrap(), l.begun > 1)));
        v.push(Ev::CloseR(next_op(r), "r", false));
        v.push(Ev::P(1, end()));
    }
    answers(r, v);
}
fn n_credit(r: &Run) -> usize {
    r.m().links.iter().map(|l| l.credit_n as usize).sum()
}
fn lsettle_setup(r: &mut Run) {
    lrcv_setup(r);
    r.go(Ev::Credit("r", 20));
}
fn lsettle_menu(r: &Run, v: &mut Vec<Ev>) {
    tr_menu(r, v, "r", false, true);
    if n_ops(r, |e| matches!(e, Ev::Recv(..) | Ev::Take(..))) < 3 {
        v.push(Ev::Take(next_op(r), "r"));
    }
    settle_menu(r, v, true);
    let m = r.m();
    if m.down() {
        return;
    }
    let Some(l) = m.link_dir("r", false) else { return };
    if !l.detach_in && m.sess[0].up() {
        v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
        if !l.detach_out && !l.cause {
            v.push(Ev::CloseR(next_op(r), "r", false));
        }
    }
    if !m.sess[0].end_in {
        v.push(Ev::P(1, end()));
    }
}
/// maximum message size 12: fragments of 5 and the border
fn rsize_setup(r: &mut Run) {
    lrcv_setup(r);
    r.go(Ev::Credit("r", 20));
    r.go(Ev::MaxSize("r", 12));
}
fn rsize_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let Some(l) = m.link_dir("r", false) else { return };
    if m.down() || l.detach_in || m.sess[l.sess].end_in {
        return;
    }
    let s = &m.sess[l.sess];
    let id = if s.rcv.is_empty() { 900 } else { s.p_next_delivery };
    let have = l.part.map(|p| m.rcv[p].body.len()).unwrap_or(0);
    let fresh = l.part.is_none();
    for n in [1usize, 5, 6, 7, 12, 13] {
        if fresh && n > 12 {
            continue;
        }
        for more in [true, false] {
            if have + n > 13 || (fresh && !more && n > 5) {
                continue;
            }
            v.push(Ev::P(
                1,
                transfer(Tr {
                    h: l.ph.unwrap(),
                    id: if fresh { Some(id) } else { None },
                    tag: if fresh { Some(vec![id as u8]) } else { None },
                    fmt: None,
                    settled: None,
                    more,
                    aborted: false,
                    body: body(id, n),
                }),
            ));
        }
    }
    if n_ops(r, |e| matches!(e, Ev::Take(..))) < 2 {
        v.push(Ev::Take(next_op(r), "r"));
    }
    answers(r, v);
}

// ------------------------------------------------------------------ sessions and links

fn cfg_sess() -> Cfg {
    Cfg { channel_max: 2, p_channel_max: Some(3), ..Cfg::default() }
}
fn cfg_sess2() -> Cfg {
    Cfg { channel_max: 9, p_channel_max: Some(1), role: Role::Client, ..Cfg::default() }
}
fn sess_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    if n_ops(r, |e| matches!(e, Ev::OpenSession(..))) < 4 {
        let op = next_op(r);
        let n = ["A", "B", "C", "D"][n_ops(r, |e| matches!(e, Ev::OpenSession(..)))];
        v.push(Ev::OpenSession(op, n));
    }
    for (id, o) in &m.ops {
        if matches!(o.ev, Ev::OpenSession(..)) && o.done.is_none() && !o.cancelled {
            v.push(Ev::Cancel(*id));
            break;
        }
    }
    let cmax = r.w.app.cfg.channel_max;
    for ch in [1u16, 0] {
        if !m.in_map.contains_key(&ch) && m.sess.iter().filter(|s| !s.gone()).count() <= cmax as usize {
            v.push(Ev::P(ch, begin(None, 5, 10)));
            break;
        }
    }
    for (i, s) in m.sess.iter().enumerate() {
        if s.begin_in && s.begin_out && !s.end_in && !s.end_out {
            v.push(Ev::P(pch(r, i), end()));
            let n: &'static str = if s.local {
                match s.name.as_str() {
                    "A" => "A",
                    "B" => "B",
                    "C" => "C",
                    "D" => "D",
                    _ => continue,
                }
            } else {
                ["#0", "#1", "#2", "#3", "#4"][s.eut_ch.unwrap_or(0).min(4) as usize]
            };
            if !s.end_op {
                v.push(Ev::EndSession(next_op(r), n));
            }
        }
    }
    answers(r, v);
}

fn link_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
}
fn link_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() || !m.in_map.contains_key(&1) {
        return;
    }
    let busy = |n: &str, snd: bool| {
        m.link_dir(n, snd).map(|l| !(l.detach_in && (l.detach_out || !l.attach_out))).unwrap_or(false)
    };
    let h = free_ph(r, 0);
    let n_att = r.w.n_in(ATTACH);
    if n_att < 4 {
        if !busy("x", true) {
            v.push(Ev::P(1, attach("x", h, true, Some("a"), None)));
        }
        if !busy("x", false) {
            v.push(Ev::P(1, attach("x", h, false, Some("q1"), Some(3))));
        }
    }
    let n_loc = n_ops(r, |e| matches!(e, Ev::AttachS(..) | Ev::AttachR(..)));
    // two attaches of one link at the same time are the application's mistake
    let open_att = |snd: bool| {
        m.ops.values().any(|o| {
            o.done.is_none()
                && o.link.is_none()
                && match o.ev {
                    Ev::AttachS(..) => snd,
                    Ev::AttachR(..) => !snd,
                    _ => false,
                }
        })
    };
    if n_loc < 3 {
        if !busy("x", true) && !open_att(true) {
            v.push(Ev::AttachS(next_op(r), "#0", "x"));
        }
        if !busy("x", false) && !open_att(false) {
            v.push(Ev::AttachR(next_op(r), "#0", "x"));
        }
    }
    for l in &m.links {
        if l.attach_in && l.attach_out && !l.detach_in {
            if !l.detach_out {
                v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
                if !l.cause && m.link_dir(&l.name, l.eut_sender).map(|k| std::ptr::eq(k, l)).unwrap_or(false) {
                    let have = if l.eut_sender {
                        r.w.app_inner().senders.contains_key("x")
                    } else {
                        r.w.app_inner().receivers.contains_key("x")
                    };
                    if have {
                        v.push(if l.eut_sender {
                            Ev::CloseS(next_op(r), "x", false)
                        } else {
                            Ev::CloseR(next_op(r), "x", true)
                        });
                    }
                }
            }
        }
        if l.attach_in && !l.attach_out && !l.detach_in && !l.local {
            // the peer gives up before it was answered
            v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
        }
    }
    for (id, o) in &m.ops {
        if matches!(o.ev, Ev::AttachS(..) | Ev::AttachR(..)) && o.done.is_none() && !o.cancelled {
            v.push(Ev::Cancel(*id));
            break;
        }
    }
    gates(r, v, true);
    answers(r, v);
}

/// two sessions with crosswise colliding channels and handles, one link of each kind
fn cross_setup(r: &mut Run) {
    hello(r);
    // this side: channel 0 <- peer 1, channel 1 <- peer 0
    r.go(Ev::P(1, begin(None, 40, 1000)));
    r.go(Ev::P(0, begin(None, 80, 1000)));
    for ch in [1, 0] {
        let n: [&str; 3] = if ch == 1 { ["s", "r", "t"] } else { ["s0", "r0", "t0"] };
        r.go(Ev::P(ch, attach(n[0], 2, true, Some("a"), None)));
        r.go(Ev::P(ch, attach(n[1], 0, false, Some("q1"), Some(7))));
        r.go(Ev::P(ch, attach(n[2], 1, true, Some("a"), None)));
    }
    for n in ["s", "s0"] {
        let e = grant(r, n, Some(0), 10).unwrap();
        r.go(e);
    }
    r.go(Ev::Send(1, "s", None, body(1, 3), false));
    r.go(Ev::Wait(2, 1));
    r.go(Ev::Send(3, "t", None, body(3, 3), false)); // waits for credit
    r.go(Ev::Send(4, "t0", None, body(4, 3), false)); // waits for credit
    r.go(Ev::Send(5, "s0", None, body(5, 3), false));
    r.go(Ev::Wait(6, 5));
}
fn cross_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    for (ch, n) in [(1u16, ["s", "r", "t"]), (0, ["s0", "r0", "t0"])] {
        if !m.in_map.contains_key(&ch) {
            continue;
        }
        for x in n {
            let Some(l) = m.links.iter().rev().find(|l| l.name == x) else { continue };
            if l.detach_in || l.sess != m.in_map[&ch] {
                continue;
            }
            v.push(Ev::P(ch, detach(l.ph.unwrap(), x == "r")));
            if !l.cause && !l.detach_out && ch == 1 && m.sess[l.sess].up() {
                v.push(if l.eut_sender {
                    Ev::CloseS(next_op(r), if x == "s" { "s" } else { "t" }, x == "s")
                } else {
                    Ev::CloseR(next_op(r), "r", false)
                });
            }
        }
        v.push(Ev::P(ch, end()));
        if m.sess[m.in_map[&ch]].up() && ch == 1 {
            v.push(Ev::EndSession(next_op(r), "#0"));
        }
        // life goes on
        let (s, t, op) = if ch == 1 { ("s", "t", 1) } else { ("s0", "t0", 5) };
        if m.link_dir(t, true).map(|l| l.open() && l.credit() <= 0 && l.started == 0).unwrap_or(false) {
            v.extend(grant(r, t, seen_dc(r, t), 1));
        }
        if m.link_dir(s, true).map(|l| l.open()).unwrap_or(false)
            && let Some(d) = m.sent_of(op)
            && !d.p_settled
        {
            v.push(Ev::P(ch, disp(true, d.id, None, true, Some(St::Accepted))));
        }
        tr_menu1(r, v, n[1]);
    }
}
fn tr_menu1(r: &Run, v: &mut Vec<Ev>, n: &str) {
    let m = r.m();
    let Some(l) = m.link_dir(n, false) else { return };
    if l.begun == 0 {
        let k = v.len();
        tr_menu(r, v, n, false, false);
        v.truncate(k + 1);
    }
}

/// links are detached by the session, whatever they are in and whoever waits for them
fn byh_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 3)));
    r.go(Ev::P(1, attach("s", 2, true, Some("a"), None)));
    r.go(Ev::P(1, attach("t", 1, true, Some("a"), None)));
    r.go(Ev::P(1, attach("r", 0, false, Some("q1"), Some(7))));
    let e = grant(r, "s", Some(0), 1).unwrap();
    r.go(e);
    r.go(Ev::Send(1, "s", None, body(1, 3), false));
    r.go(Ev::Wait(2, 1));
    r.go(Ev::Send(3, "t", None, body(3, 3), false));
    r.go(Ev::Ready(4, "t"));
    r.go(Ev::OnCredit(5, "t"));
    r.go(Ev::OnCloseS(6, "t"));
    r.go(Ev::Recv(7, "r"));
}
fn byh_gated_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 3)));
    r.go(Ev::P(1, attach("s", 2, true, Some("a"), None)));
    r.go(Ev::P(1, attach("r", 0, false, Some("q1"), Some(7))));
}
fn byh_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    gates(r, v, true);
    if m.down() {
        return;
    }
    let op = next_op(r);
    let up = m.sess[0].up();
    for x in ["s", "t", "r", "n", "m"] {
        let Some(l) = m.links.iter().rev().find(|l| l.name == x) else { continue };
        // also a second time
        if let Some(h) = l.eh.filter(|_| !l.gone())
            && n_ops(r, |e| matches!(e, Ev::DetachS(_, _, k) | Ev::DetachR(_, _, k) if *k == h)) < 2
            && up
        {
            v.push(if l.eut_sender { Ev::DetachS(op, "#0", h) } else { Ev::DetachR(op, "#0", h) });
        }
        if l.attach_in && !l.detach_in && !m.sess[0].end_in {
            v.push(Ev::P(1, detach(l.ph.unwrap(), x == "s")));
        }
    }
    if up && n_ops(r, |e| matches!(e, Ev::DetachS(_, _, 77))) == 0 {
        v.push(Ev::DetachS(op, "#0", 77));
        v.push(Ev::DetachR(op, "#0", 77));
    }
    if n_ops(r, |e| matches!(e, Ev::AttachS(..))) == 0 {
        v.push(Ev::AttachS(op, "#0", "n"));
    }
    if n_ops(r, |e| matches!(e, Ev::AttachR(..))) == 0 {
        v.push(Ev::AttachR(op, "#0", "m"));
    }
    if n_sends(r) < 3 {
        v.push(Ev::Send(op, "s", None, body(op, 3), false));
    }
    if n_ops(r, |e| matches!(e, Ev::Recv(..))) < 2 && r.w.app_inner().receivers.contains_key("r") {
        v.push(Ev::Recv(op, "r"));
    }
    if !m.sess[0].end_in {
        v.push(Ev::P(1, end()));
    }
    answers(r, v);
}

/// several tasks wait for the outcome of one delivery, sent or received
fn waits_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
    r.go(Ev::P(1, attach("s", 2, true, Some("a"), None)));
    r.go(Ev::P(1, attach("r", 0, false, Some("q1"), Some(7))));
    let e = grant(r, "s", Some(0), 9).unwrap();
    r.go(e);
    r.go(Ev::Send(1, "s", None, body(1, 3), false));
    for i in 0..2u32 {
        r.go(Ev::P(1, plain_transfer(0, 900 + i, i)));
    }
    r.go(Ev::Wait(2, 1001));
}
fn plain_transfer(h: u32, id: u32, k: u32) -> Perf {
    transfer(Tr {
        h,
        id: Some(id),
        tag: Some(id.to_be_bytes().to_vec()),
        fmt: None,
        settled: None,
        more: false,
        aborted: false,
        body: body(k, 3),
    })
}
fn waits_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let op = next_op(r);
    let have: Vec<OpId> = r.w.app_inner().deliveries.keys().copied().collect();
    let of = |e: &Ev, d: OpId| matches!(e, Ev::Wait(_, x) if *x == d);
    for d in m.ops.iter().filter(|(_, o)| o.sent.is_some() || o.rcv.is_some()).map(|x| *x.0) {
        if matches!(m.ops[&d].ev, Ev::Wait(..)) {
            continue;
        }
        let waits: Vec<OpId> =
            m.ops.iter().filter(|(_, o)| of(&o.ev, d) && o.done.is_none() && !o.cancelled).map(|x| *x.0).collect();
        let free = have.contains(&d);
        if (free || !waits.is_empty()) && n_ops(r, |e| of(e, d)) < 3 {
            v.push(Ev::Wait(op, d));
        }
        if let Some(x) = waits.first() {
            v.push(Ev::Cancel(*x));
        }
        if waits.len() > 1 {
            v.push(Ev::Cancel(*waits.last().unwrap()));
        }
        if free {
            let want = match (m.ops[&d].sent, m.ops[&d].rcv) {
                (Some(_), _) => m.sent_of(d).unwrap().want.is_some(),
                (_, Some(k)) => m.rcv[k].want.is_some(),
                _ => true,
            };
            if !want {
                v.push(Ev::Settle(d, St::Accepted));
            }
            v.push(Ev::DropDelivery(d));
        }
    }
    if m.down() {
        return;
    }
    if !m.sess[0].end_in && r.w.n_in(DISPOSITION) < 3 {
        let id = m.sent_of(1).map(|s| s.id).unwrap_or(1);
        for (st, settled) in [
            (Some(St::Accepted), true),
            (Some(St::Released), false),
            (Some(St::Modified), false),
            (Some(St::Received), false),
            (None, true),
        ] {
            if m.sent_of(1).map(|s| !s.p_settled).unwrap_or(false) {
                v.push(Ev::P(1, disp(true, id, None, settled, st)));
            }
            if m.rcv.iter().any(|k| !k.p_settled) {
                v.push(Ev::P(1, disp(false, 900, Some(901), settled, st)));
            }
        }
    }
    for (n, snd) in [("s", true), ("r", false)] {
        if let Some(l) = m.link_dir(n, snd)
            && !l.detach_in
            && !m.sess[0].end_in
        {
            v.push(Ev::P(1, detach(l.ph.unwrap(), true)));
            if !l.gone() && m.sess[0].up() {
                v.push(if snd { Ev::CloseS(op, "s", false) } else { Ev::CloseR(op, "r", false) });
            }
        }
    }
    if m.sess[0].up() {
        v.push(Ev::EndSession(op, "#0"));
    }
    if !m.sess[0].end_in {
        v.push(Ev::P(1, end()));
    }
    answers(r, v);
}

/// ranges of dispositions over deliveries of which some are gone
fn ranges_setup(r: &mut Run) {
    snd_setup(r, 1000, &["s"]);
    let e = grant(r, "s", Some(0), 100).unwrap();
    r.go(e);
    for i in 1..=7 {
        r.go(Ev::Send(i, "s", None, body(i, 3), false));
    }
    for i in [2, 3, 6] {
        let id = r.m().sent_of(i).unwrap().id;
        r.go(Ev::P(1, disp(true, id, None, true, Some(St::Accepted))));
        r.go(Ev::DropDelivery(i));
    }
    for i in [1, 4, 5, 7] {
        r.go(Ev::Wait(10 + i, i));
    }
}
fn ranges_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    let ids: Vec<u32> = m.sent.iter().map(|k| k.id).collect();
    for (i, f) in ids.iter().enumerate() {
        v.push(Ev::P(1, disp(true, *f, None, true, Some(St::Rejected))));
        for l in &ids[i..] {
            v.push(Ev::P(1, disp(true, *f, Some(*l), true, Some(St::Accepted))));
            v.push(Ev::P(1, disp(true, *f, Some(*l), false, Some(St::Released))));
        }
    }
    let first: Vec<OpId> = r.w.app_inner().deliveries.keys().copied().take(1).collect();
    for d in first {
        v.push(Ev::DropDelivery(d));
    }
}
/// the same for received deliveries, whose numbers wrap
fn rangesr_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
    r.go(Ev::P(1, attach("r", 0, false, Some("q1"), Some(7))));
    for i in 0..7u32 {
        r.go(Ev::P(1, plain_transfer(0, (u32::MAX - 2).wrapping_add(i), i)));
    }
    let have: Vec<OpId> = r.w.app_inner().deliveries.keys().copied().collect();
    for i in [1, 2, 5] {
        r.go(Ev::Settle(have[i], St::Accepted));
        r.go(Ev::DropDelivery(have[i]));
    }
}
fn rangesr_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    let ids: Vec<u32> = m.rcv.iter().map(|k| k.id).collect();
    for (i, f) in ids.iter().enumerate() {
        for l in &ids[i..] {
            v.push(Ev::P(1, disp(false, *f, Some(*l), true, Some(St::Accepted))));
            v.push(Ev::P(1, disp(false, *f, Some(*l), false, Some(St::Received))));
        }
    }
    for d in r.w.app_inner().deliveries.keys() {
        if m.ops.get(d).and_then(|o| o.rcv).map(|k| m.rcv[k].want.is_none()).unwrap_or(false) {
            v.push(Ev::Settle(*d, St::Released));
        }
        v.push(Ev::DropDelivery(*d));
    }
}

// ------------------------------------------------------------------ everything pending, then the end

fn close_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 3)));
    r.go(Ev::P(1, attach("s", 2, true, Some("a"), None)));
    r.go(Ev::P(1, attach("r", 0, false, Some("q1"), Some(7))));
    let e = grant(r, "s", Some(0), 1).unwrap();
    r.go(e);
    r.go(Ev::Send(1, "s", None, body(1, 3), false));
}
fn close_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let op = next_op(r);
    let has = |f: &dyn Fn(&Ev) -> bool| n_ops(r, f) > 0;
    // make something pending
    if !has(&|e| matches!(e, Ev::OpenSession(..))) {
        v.push(Ev::OpenSession(op, "A"));
    }
    if !has(&|e| matches!(e, Ev::AttachS(..))) {
        v.push(Ev::AttachS(op, "#0", "n"));
    }
    if !has(&|e| matches!(e, Ev::AttachR(..))) {
        v.push(Ev::AttachR(op, "#0", "n"));
    }
    if n_sends(r) < 2 {
        v.push(Ev::Send(op, "s", None, body(op, 3), false));
    }
    if !has(&|e| matches!(e, Ev::Wait(..))) {
        v.push(Ev::Wait(op, 1));
    }
    if !has(&|e| matches!(e, Ev::Recv(..))) {
        v.push(Ev::Recv(op, "r"));
    }
    if !has(&|e| matches!(e, Ev::CloseS(..))) {
        v.push(Ev::CloseS(op, "s", false));
    }
    if !has(&|e| matches!(e, Ev::CloseR(..))) {
        v.push(Ev::CloseR(op, "r", false));
    }
    if !has(&|e| matches!(e, Ev::EndSession(..))) {
        v.push(Ev::EndSession(op, "#0"));
    }
    if !has(&|e| matches!(e, Ev::Ready(..))) {
        v.push(Ev::Ready(op, "s"));
        v.push(Ev::OnCloseS(op, "s"));
        v.push(Ev::OnCredit(op, "s"));
    }
    // the end
    if !has(&|e| matches!(e, Ev::Close(_) | Ev::CloseErr(_))) && !m.forced {
        v.push(Ev::Close(op));
        v.push(Ev::CloseErr(op));
        v.push(Ev::Force);
    }
    if r.w.peer.is_some() && !m.lost {
        v.push(Ev::PDrop);
        v.push(Ev::PReadErr);
        if !m.close_in {
            v.push(Ev::P(0, close(false)));
            if !m.down() {
                v.push(Ev::P(0, close(true)));
            }
        }
        let late = m.close_in || m.close_req;
        // the peer's frames, also those crossing the Close
        if m.in_map.contains_key(&1) && (!m.close_in || late) && r.w.n_in(END) == 0 && r.w.n_in(DETACH) == 0 {
            let s = &m.sess[m.in_map[&1]];
            if !s.end_in {
                v.push(Ev::P(1, detach(2, false)));
                v.push(Ev::P(1, end()));
                if m.close_req && !m.close_in {
                    v.push(Ev::P(2, begin(None, 0, 3)));
                    v.push(Ev::P(1, attach("z", 9, true, Some("a"), None)));
                }
            }
        }
        if !m.down() {
            answers(r, v);
        }
    }
}
/// a shorter list, so that more of its orders are explored
fn closing_menu(r: &Run, v: &mut Vec<Ev>) {
    let mut all = vec![];
    close_menu(r, &mut all);
    v.extend(all.into_iter().filter(|e| {
        matches!(
            e,
            Ev::Wait(..) | Ev::Send(..) | Ev::EndSession(..) | Ev::CloseS(..) | Ev::Close(_) | Ev::PDrop | Ev::AttachS(..) | Ev::OpenSession(..)
        ) || matches!(e, Ev::P(_, p) if [CLOSE, DETACH, END].contains(&p.code) && p.f.len() < 3)
    }));
}

// ------------------------------------------------------------------ control service

fn cfg_gate_ctl() -> Cfg {
    Cfg { gate_ctl: always, ..Cfg::default() }
}
fn is_flow(c: &Call) -> bool {
    matches!(c, Call::Flow(..))
}
fn cfg_gate_flow() -> Cfg {
    Cfg { gate_ctl: is_flow, ..Cfg::default() }
}
fn ctl_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    gates(r, v, true);
    if m.down() {
        return;
    }
    if m.in_map.contains_key(&1) {
        for (n, snd, h) in [("s", true, 3u32), ("r", false, 2)] {
            match m.link_dir(n, snd) {
                None => v.push(Ev::P(1, attach(n, h, snd, Some("q1"), if snd { None } else { Some(7) }))),
                Some(l) if !l.detach_in => {
                    v.push(Ev::P(1, detach(h, n == "r")));
                    if l.open() && l.estab {
                        v.push(if snd { Ev::CloseS(next_op(r), "s", true) } else { Ev::CloseR(next_op(r), "r", false) });
                    }
                    if snd && l.attach_out && n_flows(r) < 2 {
                        v.extend(grant(r, "s", seen_dc(r, "s"), n_flows(r) as u32 + 1));
                    }
                }
                _ => {}
            }
        }
        if !m.sess[0].end_in {
            v.push(Ev::P(1, end()));
        }
        if m.sess[0].up() && !m.sess[0].end_op {
            v.push(Ev::EndSession(next_op(r), "#0"));
        }
    }
    answers(r, v);
}
/// Flows held in the control service while others follow
fn cflow_menu(r: &Run, v: &mut Vec<Ev>) {
    gates(r, v, true);
    if n_flows(r) < 6 {
        flow_menu(r, v, "s", &[0, 1, 2]);
    }
    window_flows(r, v, 1, &[0, 5], false);
    send_menu(r, v, &["s"], 3, 4, false);
}
fn cflow_setup(r: &mut Run) {
    snd_setup(r, 2, &["s"]);
}

// ------------------------------------------------------------------ router

fn cfg_router() -> Cfg {
    Cfg { router: true, gate_hnd: true, ..Cfg::default() }
}
fn router_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
    r.go(Ev::P(1, attach("a", 2, false, Some("q1"), Some(7))));
    r.go(Ev::P(1, attach("b", 1, false, Some("t/5"), Some(0))));
}
fn router_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    for i in r.w.open_hnd().into_iter().take(3) {
        for o in [0u8, 2, 3] {
            v.push(Ev::Hnd(i, o));
        }
    }
    if m.down() {
        return;
    }
    tr_small(r, v, "a");
    tr_small(r, v, "b");
    tr_small(r, v, "c");
    for (n, h, a) in [("c", 4u32, Some("q2")), ("d", 5, Some("nope")), ("e", 6, None)] {
        if m.link_dir(n, false).is_none() && !(n == "e" && m.link_dir("d", false).is_some()) {
            v.push(Ev::P(1, attach(n, h, false, a, Some(1))));
        }
    }
    for n in ["a", "c"] {
        if let Some(l) = m.link_dir(n, false)
            && !l.detach_in
        {
            v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
        }
    }
    answers(r, v);
}
fn tr_small(r: &Run, v: &mut Vec<Ev>, n: &str) {
    let Some(l) = r.m().link_dir(n, false) else { return };
    if l.begun < 3 {
        let k = v.len();
        tr_menu(r, v, n, false, true);
        if l.part.is_none() && v.len() > k + 3 {
            v.truncate(k + 3);
        } else if l.part.is_some() && v.len() > k + 1 {
            v.truncate(k + 1);
        }
    }
}
/// attach and the first transfers before the handler exists
fn router0_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
}

// ------------------------------------------------------------------ borders

/// the peer's maximum message size
fn mms_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 10, 1000)));
}
fn mms_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.link_dir("s", true).is_none() {
        for x in [0, 1, 7, 15, 16, u32::MAX as u64, 1 << 32, (1 << 32) + 7, u64::MAX] {
            v.push(Ev::P(1, attach_mms(attach("s", 3, true, Some("a"), None), x)));
        }
        return;
    }
    if n_flows(r) == 0 {
        v.extend(grant(r, "s", Some(0), 10));
    }
    if n_sends(r) < 2 {
        let op = next_op(r);
        for n in [0, 1, 2, 7, 8, 15, 16, 17] {
            v.push(Ev::Send(op, "s", None, body(op, n), false));
        }
        for n in [0, 10, 11, 12] {
            v.push(Ev::SendMsg(op, "s", body(op, n)));
        }
    }
}
/// many deliveries in flight
fn many_setup(r: &mut Run) {
    snd_setup(r, 2000, &["s", "t"]);
    for n in ["s", "t"] {
        let e = grant(r, n, Some(0), 1000).unwrap();
        r.go(e);
    }
    for i in 0..300u32 {
        r.go(Ev::Send(i + 1, if i % 16 == 7 { "t" } else { "s" }, None, body(i, 2), false));
    }
}
fn many_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    let id = |op: OpId| m.sent_of(op).map(|s| s.id);
    let ids: Vec<u32> = [1, 2, 256, 257, 258, 300].iter().filter_map(|o| id(*o)).collect();
    if m.down() || ids.len() < 6 {
        return;
    }
    send_menu(r, v, &["s"], 302, 4, false);
    for (a, b) in [(0, 0), (3, 3), (0, 5), (1, 4), (2, 5)] {
        if ids[a..=b].iter().any(|i| m.sent.iter().any(|s| s.id == *i && !s.p_settled)) {
            v.push(Ev::P(1, disp(true, ids[a], Some(ids[b]), true, Some([St::Accepted, St::Rejected, St::Released][a % 3]))));
        }
    }
    for d in [1, 257] {
        let waiting = m.ops.values().any(|o| matches!(o.ev, Ev::Wait(_, x) if x == d));
        if !waiting && r.w.app_inner().deliveries.contains_key(&d) {
            v.push(Ev::Wait(next_op(r), d));
        }
    }
    if let Some(l) = m.link_dir("t", true).filter(|l| !l.detach_in) {
        v.push(Ev::P(1, detach(l.ph.unwrap(), true)));
    }
}
/// many incoming deliveries
fn manyr_setup(r: &mut Run) {
    lrcv_setup(r);
    r.go(Ev::Credit("r", 400));
    for i in 0..270u32 {
        let l = r.m().link_dir("r", false).unwrap();
        let h = l.ph.unwrap();
        r.go(Ev::P(
            1,
            transfer(Tr {
                h,
                id: Some(900 + i),
                tag: Some(i.to_be_bytes().to_vec()),
                fmt: None,
                settled: Some(i % 5 == 0),
                more: false,
                aborted: false,
                body: body(i, 3),
            }),
        ));
        let op = next_op(r);
        r.go(Ev::Take(op, "r"));
    }
}
fn manyr_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    tr_menu(r, v, "r", false, false);
    let have: Vec<OpId> = r.w.app_inner().deliveries.keys().copied().collect();
    for i in [0, 1, 255, 256, 257, 269] {
        if let Some(d) = have.get(i)
            && m.ops.get(d).and_then(|o| o.rcv).map(|i| m.rcv[i].want.is_none()).unwrap_or(false)
        {
            v.push(Ev::Settle(*d, St::Accepted));
            v.push(Ev::DropDelivery(*d));
        }
    }
    if r.w.n_in(DISPOSITION) < 2 {
        v.push(Ev::P(1, disp(false, 900, Some(1160), true, None)));
        v.push(Ev::P(1, disp(false, 1155, Some(1157), true, None)));
    }
    answers(r, v);
}
/// many links of both directions in one session
fn manyl_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
    for i in 0..270u32 {
        let n: &'static str = LNAMES[i as usize];
        r.go(Ev::P(1, attach(n, 600 - i, i % 2 == 0, Some("a"), Some(i))));
        if i % 2 == 0 {
            let e = grant(r, n, seen_dc(r, n), 3).unwrap();
            r.go(e);
        }
    }
}
static LNAMES: std::sync::LazyLock<Vec<&'static str>> =
    std::sync::LazyLock::new(|| (0..300).map(|i| &*format!("l{i}").leak()).collect());
fn manyl_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    for i in [0usize, 1, 127, 254, 255, 256, 257, 269] {
        let n = LNAMES[i];
        let snd = i % 2 == 0;
        let Some(l) = m.link_dir(n, snd).filter(|l| l.open()) else { continue };
        if snd {
            if l.started < 1 && r.w.app_inner().senders.contains_key(n) {
                let op = next_op(r);
                v.push(Ev::Send(op, n, None, body(op, 3), true));
            }
        } else {
            tr_menu1(r, v, n);
        }
        if [1, 254, 256, 257].contains(&i) {
            v.push(Ev::P(1, detach(l.ph.unwrap(), false)));
        }
    }
    for (n, h) in [("n1", 700), ("n2", 343)] {
        let free = !m.links.iter().any(|l| l.ph == Some(h) && !l.detach_in);
        if m.link_dir(n, true).is_none() && free {
            v.push(Ev::P(1, attach(n, h, true, Some("a"), None)));
        }
    }
    answers(r, v);
}
/// many sessions
fn manys_setup(r: &mut Run) {
    hello(r);
    for i in 0..270u16 {
        r.go(Ev::P(400 - i, begin(None, 40, 1000)));
        if [0, 1, 255, 256, 257].contains(&i) {
            let n = LNAMES[i as usize];
            r.go(Ev::P(400 - i, attach(n, 3, true, Some("a"), None)));
            let e = grant(r, n, seen_dc(r, n), 3).unwrap();
            r.go(e);
        }
    }
}
fn manys_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    if m.down() {
        return;
    }
    for i in [0usize, 1, 255, 256, 257] {
        let n = LNAMES[i];
        let ch = 400 - i as u16;
        if m.in_map.contains_key(&ch) {
            v.push(Ev::P(ch, end()));
        }
        let Some(l) = m.link_dir(n, true).filter(|l| l.open()) else { continue };
        if l.started < 1 && r.w.app_inner().senders.contains_key(n) {
            let op = next_op(r);
            v.push(Ev::Send(op, n, None, body(op, 3), true));
        }
    }
    if n_ops(r, |e| matches!(e, Ev::OpenSession(..))) < 2 {
        let op = next_op(r);
        v.push(Ev::OpenSession(op, ["A", "B"][n_ops(r, |e| matches!(e, Ev::OpenSession(..)))]));
    }
    for ch in [1000u16, 400] {
        if !m.in_map.contains_key(&ch) {
            v.push(Ev::P(ch, begin(None, 5, 10)));
        }
    }
    answers(r, v);
}
fn cfg_manys() -> Cfg {
    Cfg { channel_max: 1023, p_channel_max: Some(1023), ..Cfg::default() }
}
/// counters that wrap: link delivery-count
fn wraps_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, u32::MAX - 1, 1000)));
    r.go(Ev::P(1, attach("s", u32::MAX - 7, true, Some("a"), Some(u32::MAX - 1))));
}
fn wraps_menu(r: &Run, v: &mut Vec<Ev>) {
    flow_menu(r, v, "s", &[0, 1, 3]);
    send_menu(r, v, &["s"], 4, 4, false);
}
fn wrapr_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, u32::MAX - 1, 1000)));
    r.go(Ev::P(1, attach("r", 3, false, Some("q1"), Some(u32::MAX - 1))));
}
fn wrapr_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    tr_menu(r, v, "r", false, true);
    settle_menu(r, v, false);
    if m.down() {
        return;
    }
    if r.w.n_in(DISPOSITION) < 1 && m.rcv.len() > 2 && m.links[0].part.is_none() {
        v.push(Ev::P(1, disp(false, u32::MAX - 1, Some(m.sess[0].p_next_delivery.wrapping_sub(1)), true, None)));
    }
    if r.w.n_in(FLOW) < 1 {
        v.push(Ev::P(1, flow_s(Some(nii(r, 0)), 1000, m.sess[0].p_next_out(), true)));
    }
}

/// router with links in two sessions
fn router2_setup(r: &mut Run) {
    hello(r);
    r.go(Ev::P(1, begin(None, 40, 1000)));
    r.go(Ev::P(2, begin(None, 80, 1000)));
    r.go(Ev::P(1, attach("a", 2, false, Some("q1"), Some(7))));
    r.go(Ev::P(2, attach("b", 2, false, Some("q1"), Some(0))));
    r.go(Ev::P(1, attach("c", 1, false, Some("t/5"), Some(0))));
}
fn router2_menu(r: &Run, v: &mut Vec<Ev>) {
    let m = r.m();
    for i in r.w.open_hnd().into_iter().take(2) {
        for o in [0u8, 3] {
            v.push(Ev::Hnd(i, o));
        }
    }
    if m.down() {
        return;
    }
    for n in ["a", "b", "c"] {
        if m.link_dir(n, false).map(|l| l.begun < 2).unwrap_or(false) {
            let k = v.len();
            tr_menu(r, v, n, false, false);
            v.truncate(k + 1);
        }
        if let Some(l) = m.link_dir(n, false).filter(|l| !l.detach_in && !m.sess[l.sess].end_in)
            && n != "c"
        {
            v.push(Ev::P(pch(r, l.sess), detach(l.ph.unwrap(), false)));
        }
    }
    for ch in [1, 2] {
        if m.in_map.contains_key(&ch) {
            v.push(Ev::P(ch, end()));
            let i = m.in_map[&ch];
            if m.sess[i].up() && !m.sess[i].end_op {
                v.push(Ev::EndSession(next_op(r), if ch == 1 { "#0" } else { "#1" }));
            }
        }
    }
    answers(r, v);
}

macro_rules! fams {
    ($($n:literal $c:ident $s:ident $m:ident),* $(,)?) => {
        pub static FAMS: &[Fam] = &[
            $(Fam { name: $n, cfg: $c, setup: $s, menu: $m, lite: false },)*
        ];
    };
}
fams! {
    "credit" cfg_srv credit_setup credit_menu,
    "credit-local" cfg_cli lsnd_setup credit_menu,
    "credit2" cfg_srv credit2_setup credit2_menu,
    "early" cfg_srv early_setup early_menu,
    "early-gated" cfg_gate_attach early_setup early_menu,
    "window" cfg_srv window_setup window_menu,
    "window0" cfg_srv window0_setup window0_menu,
    "wend" cfg_srv window_setup wend_menu,
    "frag" cfg_frag frag_setup frag_menu,
    "huge-snd" cfg_srv huges_setup huges_menu,
    "huge-rcv" cfg_cli lrcv_setup huger_menu,
    "fend" cfg_frag fend_setup fend_menu,
    "sizes" cfg_frag sizes_setup sizes_menu,
    "sizes2" cfg_mf2048 sizes_setup sizes2_menu,
    "sizes3" cfg_mf4096 sizes_setup sizes2_menu,
    "outcome" cfg_srv outc_setup outc_menu,
    "outcome2" cfg_srv outc2_setup outc2_menu,
    "waits" cfg_srv waits_setup waits_menu,
    "ranges" cfg_srv ranges_setup ranges_menu,
    "ranges-rcv" cfg_srv rangesr_setup rangesr_menu,
    "rcv" cfg_srv rcv_setup rcv_menu,
    "rcv2" cfg_srv rcv2_setup rcv2_menu,
    "rgate" cfg_gate_msg rgate_setup rgate_menu,
    "lrcv" cfg_cli lrcv_setup lrcv_menu,
    "lsettle" cfg_cli lsettle_setup lsettle_menu,
    "rsize" cfg_cli rsize_setup rsize_menu,
    "sess" cfg_sess hello sess_menu,
    "sess-client" cfg_sess2 hello sess_menu,
    "link" cfg_srv link_setup link_menu,
    "link-gated" cfg_gate_attach link_setup link_menu,
    "cross" cfg_srv cross_setup cross_menu,
    "byh" cfg_srv byh_setup byh_menu,
    "byh-gated" cfg_gate_attach byh_gated_setup byh_menu,
    "close" cfg_srv close_setup close_menu,
    "closing" cfg_srv close_setup closing_menu,
    "ctl" cfg_gate_ctl link_setup ctl_menu,
    "cflow" cfg_gate_flow cflow_setup cflow_menu,
    "router" cfg_router router_setup router_menu,
    "router0" cfg_router router0_setup router_menu,
    "router2" cfg_router router2_setup router2_menu,
    "mms" cfg_srv mms_setup mms_menu,
    "many" cfg_srv many_setup many_menu,
    "many-rcv" cfg_cli manyr_setup manyr_menu,
    "many-links" cfg_srv manyl_setup manyl_menu,
    "many-sess" cfg_manys manys_setup manys_menu,
    "wrap-snd" cfg_srv wraps_setup wraps_menu,
    "wrap-rcv" cfg_srv wrapr_setup wrapr_menu,
}

pub fn fam(n: &str) -> Option<&'static Fam> {
    FAMS.iter().find(|f| f.name == n)
}

pub fn names() -> Vec<&'static str> {
    FAMS.iter().map(|f| f.name).collect()
}
