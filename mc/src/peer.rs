//! Frames a conformant peer sends.
use crate::refc::*;
use crate::sut::{Cfg, Role, St};

pub fn open(c: &Cfg) -> Perf {
    let mut f = vec![V::str("peer")];
    f.push(V::Null);
    f.push(c.p_max_frame.map(V::U32).unwrap_or(V::Null));
    f.push(c.p_channel_max.map(V::U16).unwrap_or(V::Null));
    f.push(c.p_idle.map(V::U32).unwrap_or(V::Null));
    let _ = Role::Client;
    Perf::new(OPEN, f)
}
pub fn begin(remote: Option<u16>, next_out: u32, in_win: u32) -> Perf {
    Perf::new(
        BEGIN,
        vec![
            remote.map(V::U16).unwrap_or(V::Null),
            V::U32(next_out),
            V::U32(in_win),
            V::U32(1000),
            V::U32(1023),
        ],
    )
}
/// `peer_receives`: the peer's role on the link
pub fn attach(name: &str, h: u32, peer_receives: bool, addr: Option<&str>, idc: Option<u32>) -> Perf {
    let a = |on: bool, code: u64| {
        if on {
            V::dlist(code, vec![addr.map(V::str).unwrap_or(V::Null)])
        } else {
            V::dlist(code, vec![])
        }
    };
    Perf::new(
        ATTACH,
        vec![
            V::str(name),
            V::U32(h),
            V::Bool(peer_receives),
            V::Null,
            V::Null,
            a(peer_receives, SOURCE),
            a(!peer_receives, TARGET),
            V::Null,
            V::Null,
            idc.map(V::U32).unwrap_or(V::Null),
        ],
    )
}
pub fn attach_mms(mut p: Perf, mms: u64) -> Perf {
    while p.f.len() < 10 {
        p.f.push(V::Null)
    }
    p.f.push(V::U64(mms));
    p
}
pub fn flow_s(nii: Option<u32>, in_win: u32, next_out: u32, echo: bool) -> Perf {
    let mut f = vec![
        nii.map(V::U32).unwrap_or(V::Null),
        V::U32(in_win),
        V::U32(next_out),
        V::U32(1000),
    ];
    if echo {
        f.extend([V::Null, V::Null, V::Null, V::Null, V::Null, V::Bool(true)])
    }
    Perf::new(FLOW, f)
}
pub fn flow_l(nii: Option<u32>, in_win: u32, next_out: u32, h: u32, dc: Option<u32>, credit: u32, echo: bool) -> Perf {
    let mut f = vec![
        nii.map(V::U32).unwrap_or(V::Null),
        V::U32(in_win),
        V::U32(next_out),
        V::U32(1000),
        V::U32(h),
        dc.map(V::U32).unwrap_or(V::Null),
        V::U32(credit),
    ];
    if echo {
        f.extend([V::Null, V::Null, V::Bool(true)])
    }
    Perf::new(FLOW, f)
}
pub struct Tr {
    pub h: u32,
    pub id: Option<u32>,
    pub tag: Option<Vec<u8>>,
    pub fmt: Option<u32>,
    pub settled: Option<bool>,
    pub more: bool,
    pub aborted: bool,
    pub body: Vec<u8>,
}
pub fn transfer(t: Tr) -> Perf {
    let mut p = Perf::new(
        TRANSFER,
        vec![
            V::U32(t.h),
            t.id.map(V::U32).unwrap_or(V::Null),
            t.tag.map(V::Bin).unwrap_or(V::Null),
            t.fmt.map(V::U32).unwrap_or(V::Null),
            t.settled.map(V::Bool).unwrap_or(V::Null),
            if t.more { V::Bool(true) } else { V::Null },
            V::Null,
            V::Null,
            V::Null,
            if t.aborted { V::Bool(true) } else { V::Null },
        ],
    );
    p.payload = t.body;
    p
}
pub fn disp(role_receiver: bool, first: u32, last: Option<u32>, settled: bool, st: Option<St>) -> Perf {
    Perf::new(
        DISPOSITION,
        vec![
            V::Bool(role_receiver),
            V::U32(first),
            last.map(V::U32).unwrap_or(V::Null),
            if settled { V::Bool(true) } else { V::Null },
            st.map(|s| s.to_v()).unwrap_or(V::Null),
        ],
    )
}
pub fn detach(h: u32, err: bool) -> Perf {
    let mut f = vec![V::U32(h), V::Bool(true)];
    if err {
        f.push(V::dlist(ERROR, vec![V::sym("amqp:internal-error")]))
    }
    Perf::new(DETACH, f)
}
pub fn end() -> Perf {
    Perf::new(END, vec![])
}
pub fn close(err: bool) -> Perf {
    Perf::new(
        CLOSE,
        if err {
            vec![V::dlist(ERROR, vec![V::sym("amqp:internal-error")])]
        } else {
            vec![]
        },
    )
}
