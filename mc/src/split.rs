//! Streams of frames cut into reads in every way: what comes out, and when.
use ntex_amqp_codec::protocol::ProtocolId;
use ntex_amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, ProtocolIdCodec, SaslFrame};
use ntex_bytes::BytesMut;
use ntex_codec::Decoder;

use crate::cgen::Drv;
use crate::codec::*;
use crate::refc::{self, Form, V};

/// one stretch of the stream
#[derive(Clone)]
struct Piece {
    b: Vec<u8>,
    what: What,
}
#[derive(Clone, PartialEq)]
enum What {
    Frame(V),
    /// refused, at the latest when this many bytes of it are there
    Error(usize),
}

fn perf(v: V, f: Form) -> Vec<u8> {
    let mut b = vec![];
    refc::enc_f(&v, f, &mut b);
    b
}

fn raw(size: u32, doff: u8, typ: u8, ch: u16, rest: &[u8]) -> Vec<u8> {
    let mut b = size.to_be_bytes().to_vec();
    b.push(doff);
    b.push(typ);
    b.extend_from_slice(&ch.to_be_bytes());
    b.extend_from_slice(rest);
    b
}

fn whole(doff: u8, typ: u8, ch: u16, rest: &[u8]) -> Vec<u8> {
    raw(8 + rest.len() as u32, doff, typ, ch, rest)
}

fn amqp_pieces() -> Vec<Vec<u8>> {
    let end = perf(V::dlist(0x17, vec![]), Form::Small);
    let mut tr = perf(V::dlist(0x14, vec![V::U32(1), V::U32(2), V::Bin(vec![3])]), Form::Small);
    tr.extend_from_slice(b"pay\0load");
    let open = perf(V::dlist(0x10, vec![V::Str("c".repeat(290))]), Form::Large);
    let flow = perf(V::dlist(0x13, vec![V::Null, V::U32(5), V::U32(0), V::U32(300)]), Form::Large);
    vec![
        whole(2, 0, 0, &[]),
        whole(2, 0, 3, &end),
        whole(2, 0, 0x100, &tr),
        whole(3, 0, 7, &[&[0, 0, 0, 9][..], &end].concat()),
        whole(2, 0, 0, &flow),
        whole(2, 0, 0, &open),
        // refused
        raw(0, 2, 0, 0, &[]),
        raw(4, 2, 0, 0, &[]),
        raw(5, 2, 0, 0, &[]),
        raw(7, 2, 0, 0, &[]),
        whole(1, 0, 0, &end),
        whole(0, 0, 0, &[]),
        whole(9, 0, 0, &end),
        whole(2, 1, 0, &end),
        whole(2, 0, 0, &[0, 0x53, 0x99, 0x45]),
        raw(u32::MAX, 2, 0, 0, &end),
        raw(0x8000_0000, 2, 0, 0, &end),
    ]
}

fn sasl_pieces() -> Vec<Vec<u8>> {
    let p = |c, f| perf(V::dlist(c, f), Form::Small);
    vec![
        whole(2, 1, 0, &p(0x40, vec![V::Arr(vec![V::sym("PLAIN"), V::sym("A")])])),
        whole(2, 1, 0, &p(0x41, vec![V::sym("PLAIN"), V::Bin(b"\0u\0p".to_vec())])),
        whole(3, 1, 0, &[&[1, 2, 3, 4][..], &p(0x42, vec![V::Bin(vec![1])])].concat()),
        whole(2, 1, 9, &p(0x43, vec![V::Bin(vec![])])),
        whole(2, 1, 0, &p(0x44, vec![V::U8(1)])),
        whole(2, 0, 0, &p(0x44, vec![V::U8(0)])),
        raw(6, 2, 1, 0, &[]),
        whole(2, 1, 0, &[]),
    ]
}

fn piece(top: Top, b: Vec<u8>, max: usize) -> Piece {
    let size = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    let what = if size < 8 || max != 0 && size > max {
        What::Error(8)
    } else if size != b.len() {
        // only ends with the stream
        What::Error(usize::MAX)
    } else {
        match denote(top, &b) {
            Ok(v) => What::Frame(v),
            Err(No::Bad) => What::Error(b.len()),
            Err(No::Skip) => panic!("{}", hex(&b)),
        }
    };
    Piece { b, what }
}

trait Codec {
    type T: S;
    fn step(&self, b: &mut BytesMut) -> Result<Option<Self::T>, String>;
}
impl<T: Decode + Encode + S> Codec for AmqpCodec<T> {
    type T = T;
    fn step(&self, b: &mut BytesMut) -> Result<Option<T>, String> {
        self.decode(b).map_err(|e| format!("{e:?}"))
    }
}

/// feeds `b` cut at `cuts`
fn feed<C: Codec>(c: &C, ps: &[Piece], b: &[u8], cuts: &[usize], out: &mut Vec<Found>) {
    let mut bad = |m: String| out.push(("split", "C04", format!("{m}; stream {} cut at {cuts:?}", hex(b))));
    let mut buf = BytesMut::new();
    let mut at = 0;
    // pieces seen so far, offset of the next
    let mut n = 0;
    let mut off = 0;
    for to in cuts.iter().copied().chain([b.len()]) {
        buf.extend_from_slice(&b[at..to]);
        at = to;
        loop {
            let due = ps.get(n).map(|p| (&p.what, at - off, p.b.len()));
            match (c.step(&mut buf), due) {
                (Ok(Some(f)), Some((What::Frame(v), have, len))) if have >= len => {
                    if f.s() != *v {
                        return bad(format!("frame {n} is {} but should be {}", refc::show(&f.s()), refc::show(v)));
                    }
                    n += 1;
                    off += len;
                }
                (Ok(Some(f)), Some((What::Frame(_), have, len))) => {
                    return bad(format!("frame {n} given out after {have} of {len} bytes: {}", refc::show(&f.s())));
                }
                (Ok(Some(f)), Some((What::Error(_), ..))) => {
                    return bad(format!("frame {n} must be refused but gives {}", refc::show(&f.s())));
                }
                (Ok(Some(f)), None) => return bad(format!("after the end: {}", refc::show(&f.s()))),
                (Ok(None), Some((What::Frame(_), have, len))) if have >= len => {
                    return bad(format!("frame {n} is complete after {at} bytes but not given out"));
                }
                (Ok(None), Some((What::Error(need), have, _))) if have >= *need => {
                    return bad(format!("frame {n} is not refused after {have} bytes"));
                }
                (Ok(None), _) => break,
                (Err(e), Some((What::Error(_), have, _))) => {
                    if have < 4 {
                        return bad(format!("frame {n} refused after {have} bytes: {e}"));
                    }
                    return;
                }
                (Err(e), _) => return bad(format!("frame {n} is valid but refused: {e}")),
            }
        }
    }
}

fn cut_all<C: Codec>(mk: &dyn Fn() -> C, ps: &[Piece], deep: bool, d: &mut Drv) {
    let b: Vec<u8> = ps.iter().flat_map(|p| p.b.clone()).collect();
    let l = b.len();
    let h = crate::capi::hash(&V::Bin(b.clone()));
    let mut run = |cuts: &[usize]| {
        d.any(|out| {
            feed(&mk(), ps, &b, cuts, out);
            (Some(h), format!("{} cut at {cuts:?}", hex(&b)))
        })
    };
    run(&[]);
    // in equal chunks
    for k in 1..l.min(40) {
        let cuts: Vec<usize> = (1..l).filter(|i| i % k == 0).collect();
        run(&cuts);
    }
    // where it matters: around the borders of frames; for long ones not inside
    let mut near = vec![];
    let mut off = 0;
    for p in ps {
        near.extend((off..=off + p.b.len()).filter(|i| i - off <= 24 || off + p.b.len() - i <= 12));
        off += p.b.len();
    }
    near.retain(|i| (1..l).contains(i));
    near.sort_unstable();
    near.dedup();
    for (x, i) in near.iter().enumerate() {
        run(&[*i]);
        for (y, j) in near.iter().enumerate().skip(x + 1) {
            run(&[*i, *j]);
            if deep {
                for k in &near[y + 1..] {
                    run(&[*i, *j, *k]);
                }
            }
        }
    }
}

fn amqp<T: Decode + Encode + S>(max: usize, how: usize) -> AmqpCodec<T> {
    match how {
        0 => AmqpCodec::<T>::new().max_size(max),
        1 => {
            let mut c = AmqpCodec::<T>::default();
            c.set_max_size(max);
            c
        }
        _ => {
            let mut c = AmqpCodec::<T>::new().max_size(1);
            c.set_max_size(max);
            c
        }
    }
}

/// sequences of frames that start with piece `i`
pub fn frames(kind: &str, i: usize, deep: bool, d: &mut Drv) {
    let top = if kind == "amqp" { Top::Frame } else { Top::Sasl };
    let all = if kind == "amqp" { amqp_pieces() } else { sasl_pieces() };
    let mk = |l: &[usize]| -> Vec<Piece> { l.iter().map(|i| piece(top, all[*i].clone(), 0)).collect() };
    let mut go = |ps: Vec<Piece>, max: usize, how: usize, deep: bool| {
        // nothing after what is refused
        let n = ps.iter().position(|p| matches!(p.what, What::Error(_))).map_or(ps.len(), |n| n + 1);
        if n + 1 < ps.len() {
            return;
        }
        match top {
            Top::Frame => cut_all(&|| amqp::<AmqpFrame>(max, how), &ps, deep, d),
            _ => cut_all(&|| amqp::<SaslFrame>(max, how), &ps, deep, d),
        }
    };
    go(mk(&[i]), 0, 0, true);
    for j in 0..all.len() {
        go(mk(&[i, j]), 0, 0, deep);
        for k in 0..all.len() {
            go(mk(&[i, j, k]), 0, 0, deep && kind == "sasl");
        }
    }
    // the limit
    let l = all[i].len();
    for max in [8, 9, 16, 64].into_iter().chain([l - 1, l, l + 1]) {
        for how in 0..3 {
            for j in [1, i] {
                let ps: Vec<Piece> = [i, j].iter().map(|i| piece(top, all[*i].clone(), max)).collect();
                go(ps, max, how, false)
            }
        }
    }
}

pub const AMQP: usize = 17;
pub const SASL: usize = 8;

/// protocol headers: every single octet wrong, every way to cut
pub fn header(i: usize, d: &mut Drv) {
    for val in 0..=255u8 {
        for base in [0u8, 2, 3] {
            let mut b = b"AMQP\0\x01\0\0".to_vec();
            b[4] = base;
            b[i] = val;
            let want = if &b[..4] != b"AMQP" || b[5..] != [1, 0, 0] {
                None
            } else {
                match b[4] {
                    0 => Some(ProtocolId::Amqp),
                    2 => Some(ProtocolId::AmqpTls),
                    3 => Some(ProtocolId::AmqpSasl),
                    _ => None,
                }
            };
            for rest in [&b""[..], b"AMQP\0\x01\0\0"] {
                for mask in 0..128u32 {
                    d.any(|out| {
                        let mut bad = |m: String| out.push(("split-header", "C04", format!("{m}; header {} and {} more bytes, cut {mask:b}", hex(&b), rest.len())));
                        let c = ProtocolIdCodec;
                        let mut buf = BytesMut::new();
                        let mut done = false;
                        for (k, x) in b.iter().enumerate() {
                            buf.extend_from_slice(&[*x]);
                            if k == 7 {
                                buf.extend_from_slice(rest)
                            }
                            if k < 7 && mask & (1 << k) == 0 {
                                continue;
                            }
                            match (c.decode(&mut buf), &want) {
                                (Ok(None), _) if k < 7 => {}
                                (Ok(Some(g)), Some(w)) if k == 7 && g == *w => done = true,
                                (Err(_), None) => {
                                    done = true;
                                    break;
                                }
                                (r, _) => bad(format!("after {} bytes: {:?}", k + 1, r.map_err(|e| format!("{e:?}")))),
                            }
                        }
                        if !done {
                            bad("no answer".into())
                        } else if want.is_some() && buf.as_ref() != rest {
                            bad(format!("{} left over", hex(&buf)))
                        }
                        (Some(crate::capi::hash(&V::Bin(b.clone()))), format!("header {} cut {mask:b}", hex(&b)))
                    });
                }
            }
        }
    }
}
