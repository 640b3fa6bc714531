//! Exhaustive enumerations of encodings.
use crate::codec::*;
use crate::enumr::Kind;
use crate::explore::Stats;
use crate::refc::{self, Form, V};

pub const CTORS: [u8; 39] = [
    0x40, 0x41, 0x42, 0x56, 0x50, 0x60, 0x70, 0x52, 0x43, 0x80, 0x53, 0x44, 0x51, 0x61, 0x71, 0x54, 0x81, 0x55, 0x72, 0x82,
    0x74, 0x84, 0x94, 0x73, 0x83, 0x98, 0xa0, 0xb0, 0xa1, 0xb1, 0xa3, 0xb3, 0x45, 0xc0, 0xd0, 0xc1, 0xd1, 0xe0, 0xf0,
];

fn var(wide: bool, b: &[u8]) -> Option<Vec<u8>> {
    let mut o = if wide {
        (b.len() as u32).to_be_bytes().to_vec()
    } else {
        vec![u8::try_from(b.len()).ok()?]
    };
    o.extend_from_slice(b);
    Some(o)
}

fn comp(wide: bool, n: usize, b: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    if wide {
        o.extend_from_slice(&(b.len() as u32 + 4).to_be_bytes());
        o.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        o.push(u8::try_from(b.len() + 1).ok()?);
        o.push(u8::try_from(n).ok()?);
    }
    o.extend_from_slice(b);
    Some(o)
}

/// the bytes after constructor `c`, if `c` can carry `v`; children encoded as `sub`
pub fn payload(c: u8, v: &V, sub: Form) -> Option<Vec<u8>> {
    Some(match (c, v) {
        (0x40, V::Null) | (0x41, V::Bool(true)) | (0x42, V::Bool(false)) | (0x43, V::U32(0)) | (0x44, V::U64(0)) => vec![],
        (0x56, V::Bool(b)) => vec![*b as u8],
        (0x50, V::U8(x)) => vec![*x],
        (0x60, V::U16(x)) => x.to_be_bytes().to_vec(),
        (0x70, V::U32(x)) => x.to_be_bytes().to_vec(),
        (0x52, V::U32(x)) => vec![u8::try_from(*x).ok()?],
        (0x80, V::U64(x)) => x.to_be_bytes().to_vec(),
        (0x53, V::U64(x)) => vec![u8::try_from(*x).ok()?],
        (0x51, V::I8(x)) => vec![*x as u8],
        (0x61, V::I16(x)) => x.to_be_bytes().to_vec(),
        (0x71, V::I32(x)) => x.to_be_bytes().to_vec(),
        (0x54, V::I32(x)) => vec![i8::try_from(*x).ok()? as u8],
        (0x81, V::I64(x)) => x.to_be_bytes().to_vec(),
        (0x55, V::I64(x)) => vec![i8::try_from(*x).ok()? as u8],
        (0x72, V::F32(x)) => x.to_be_bytes().to_vec(),
        (0x82, V::F64(x)) => x.to_be_bytes().to_vec(),
        (0x74, V::D32(b)) => b.to_vec(),
        (0x84, V::D64(b)) => b.to_vec(),
        (0x94, V::D128(b)) => b.to_vec(),
        (0x73, V::Char(x)) => x.to_be_bytes().to_vec(),
        (0x83, V::Ts(x)) => x.to_be_bytes().to_vec(),
        (0x98, V::Uuid(b)) => b.to_vec(),
        (0xa0 | 0xb0, V::Bin(b)) => var(c == 0xb0, b)?,
        (0xa1 | 0xb1, V::Str(b)) => var(c == 0xb1, b.as_bytes())?,
        (0xa3 | 0xb3, V::Sym(b)) => var(c == 0xb3, b.as_bytes())?,
        (0x45, V::List(l)) if l.is_empty() => vec![],
        (0xc0 | 0xd0, V::List(l)) => {
            let mut b = vec![];
            l.iter().for_each(|x| refc::enc_f(x, sub, &mut b));
            comp(c == 0xd0, l.len(), &b)?
        }
        (0xc1 | 0xd1, V::Map(l)) => {
            let mut b = vec![];
            l.iter().for_each(|(k, x)| {
                refc::enc_f(k, sub, &mut b);
                refc::enc_f(x, sub, &mut b)
            });
            comp(c == 0xd1, l.len() * 2, &b)?
        }
        _ => return None,
    })
}

/// every way to put a value on the wire (constructors of the value itself; those
/// of its parts all small or all large)
pub fn forms(v: &V) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = vec![];
    match v {
        V::Desc(d, x) => {
            for d in descs(d) {
                for x in forms(x) {
                    let mut b = vec![0];
                    b.extend_from_slice(&d);
                    b.extend_from_slice(&x);
                    o.push(b)
                }
            }
        }
        V::Arr(l) => {
            for wide in [false, true] {
                let desc = match l.first() {
                    Some(V::Desc(d, _)) => Some((**d).clone()),
                    _ => None,
                };
                for sub in [Form::Small, Form::Large] {
                    for c in CTORS {
                        let mut b = vec![];
                        if let Some(d) = &desc {
                            b.push(0);
                            refc::enc_f(d, sub, &mut b)
                        }
                        b.push(c);
                        let ok = l.iter().all(|x| {
                            let x = match (x, &desc) {
                                (V::Desc(e, x), Some(d)) if **e == *d => &**x,
                                (V::Desc(..), _) | (_, Some(_)) => return false,
                                (x, None) => x,
                            };
                            // an array in an array
                            let p = if let V::Arr(_) = x {
                                if !matches!(c, 0xe0 | 0xf0) {
                                    return false;
                                }
                                forms(x).into_iter().find(|f| f[0] == c).map(|f| f[1..].to_vec())
                            } else {
                                payload(c, x, sub)
                            };
                            p.map(|p| b.extend_from_slice(&p)).is_some()
                        });
                        if ok
                            && let Some(p) = comp(wide, l.len(), &b)
                        {
                            let mut f = vec![if wide { 0xf0 } else { 0xe0 }];
                            f.extend_from_slice(&p);
                            if !o.contains(&f) {
                                o.push(f)
                            }
                        }
                    }
                }
            }
        }
        v => {
            for c in CTORS {
                for sub in [Form::Small, Form::Large] {
                    if let Some(p) = payload(c, v, sub) {
                        let mut f = vec![c];
                        f.extend_from_slice(&p);
                        if !o.contains(&f) {
                            o.push(f)
                        }
                    }
                }
            }
        }
    }
    o
}

/// every way to write a descriptor
pub fn descs(d: &V) -> Vec<Vec<u8>> {
    let mut o = forms(d);
    if let V::U64(c) = d
        && (by_code(*c).is_some() || SECTIONS.iter().any(|s| s.0 == *c))
    {
        o.extend(forms(&V::Sym(sym_of(*c))))
    }
    o
}

pub fn small(v: &V) -> Vec<u8> {
    let mut b = vec![];
    refc::enc(v, &mut b);
    b
}

fn s(n: usize) -> V {
    V::Str("x".repeat(n))
}
fn y(n: usize) -> V {
    V::Sym("y".repeat(n))
}
fn e(k: &str, v: V) -> (V, V) {
    (V::sym(k), v)
}

/// values with every primitive type and with nesting
pub fn anys() -> Vec<V> {
    let mut o = vec![
        V::Null,
        V::Bool(true),
        V::Bool(false),
        V::U8(0),
        V::U8(255),
        V::U16(0),
        V::U16(256),
        V::U16(65535),
        V::U32(0),
        V::U32(1),
        V::U32(255),
        V::U32(256),
        V::U32(u32::MAX),
        V::U64(0),
        V::U64(1),
        V::U64(255),
        V::U64(256),
        V::U64(1 << 32),
        V::U64(u64::MAX),
        V::I8(-128),
        V::I8(127),
        V::I16(i16::MIN),
        V::I16(-1),
        V::I16(i16::MAX),
        V::F32(0),
        V::F32(0x8000_0000),
        V::F32(1.5f32.to_bits()),
        V::F32(f32::INFINITY.to_bits()),
        V::F32(f32::NAN.to_bits()),
        V::F64(0),
        V::F64((-2.25f64).to_bits()),
        V::F64(f64::NEG_INFINITY.to_bits()),
        V::F64(1),
        V::D32([1, 2, 3, 4]),
        V::D64([9, 8, 7, 6, 5, 4, 3, 2]),
        V::D128([0xff; 16]),
        V::Char(0),
        V::Char(0x41),
        V::Char(0x1f4af),
        V::Char(0x10ffff),
        V::Uuid([7; 16]),
        V::Uuid([0; 16]),
    ];
    for x in [0, 1, -1, 127, 128, 129, -127, -128, -129, 255, 256, i32::MAX, i32::MIN] {
        o.push(V::I32(x));
        o.push(V::I64(x as i64));
    }
    o.push(V::I64(i64::MAX));
    o.push(V::I64(i64::MIN));
    for t in [0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, -1500, 1_311_704_463_521, -44_989_200_479, 7_999_999_999_999_999, -7_999_999_999_999_999] {
        o.push(V::Ts(t))
    }
    for n in [0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 300] {
        o.push(V::Bin(vec![0x5a; n]));
        o.push(s(n));
        o.push(y(n));
    }
    o.push(V::Str("é€😀".into()));
    o.push(V::Bin((0..=255).collect()));
    o
}

/// containers of the given values
pub fn nest(x: &V) -> Vec<V> {
    let b = |v: &V| Box::new(v.clone());
    let mut o = vec![
        V::List(vec![x.clone()]),
        V::List(vec![V::U8(7), x.clone(), V::Null]),
        V::Map(vec![(V::sym("k"), x.clone())]),
        V::Map(vec![(V::str("k"), V::U32(300)), (V::U8(1), x.clone())]),
        V::Arr(vec![x.clone()]),
        V::Arr(vec![x.clone(), x.clone(), x.clone()]),
        V::Desc(Box::new(V::sym("a:b")), b(x)),
        V::Desc(Box::new(V::U64(0)), b(x)),
        V::Desc(Box::new(V::U64(300)), b(x)),
        V::Desc(Box::new(V::U64(u64::MAX)), b(x)),
    ];
    // as a key, unless it has none of its own meaning there
    o.push(V::Map(vec![(x.clone(), V::Bool(true))]));
    let d = |v: &V| V::Desc(Box::new(V::sym("e:f")), b(v));
    o.push(V::Arr(vec![d(x), d(x)]));
    o
}

pub fn containers() -> Vec<V> {
    let mut o = vec![
        V::List(vec![]),
        V::Map(vec![]),
        V::Arr(vec![]),
        V::Desc(Box::new(V::U64(5)), Box::new(V::List(vec![]))),
        V::Desc(Box::new(V::sym("x:list")), Box::new(V::Map(vec![]))),
        V::Desc(Box::new(V::sym("x:arr")), Box::new(V::Arr(vec![]))),
        V::Arr(vec![V::U32(0), V::U32(0)]),
        V::Arr(vec![V::U32(0), V::U32(255), V::U32(256)]),
        V::Arr(vec![V::I64(-1), V::I64(1)]),
        V::Arr(vec![V::Bool(true), V::Bool(false)]),
        V::Arr(vec![V::Bool(true), V::Bool(true)]),
        V::Arr(vec![V::Null, V::Null]),
        V::Arr(vec![V::sym("a"), V::sym(""), V::sym("bc")]),
        V::Arr(vec![s(0), s(255), s(3)]),
        V::Arr(vec![V::List(vec![]), V::List(vec![])]),
        V::Arr(vec![V::List(vec![V::U8(1)]), V::List(vec![])]),
        V::Arr(vec![V::Map(vec![(V::sym("a"), V::Null)]), V::Map(vec![])]),
        V::Arr(vec![V::Arr(vec![V::U8(1)]), V::Arr(vec![V::U8(2), V::U8(3)])]),
        V::Map(vec![(V::List(vec![V::U8(1)]), V::U8(1)), (V::List(vec![V::U8(2)]), V::U8(1))]),
        V::Map(vec![(V::Map(vec![(V::U8(1), V::U8(1))]), V::U8(1))]),
        V::Map(vec![(V::Arr(vec![V::U8(1)]), V::U8(1))]),
    ];
    // around the change from one-byte to four-byte sizes and counts
    for n in 248..=258 {
        o.push(V::List(vec![V::Null; n]));
        o.push(V::List(vec![V::Bin(vec![1; n - 2])]));
        o.push(V::List(vec![V::U8(1), s(n - 5)]));
        o.push(V::Map(vec![(V::sym("k"), V::Bin(vec![1; n - 5]))]));
        o.push(V::Map((0..(n / 2) as u16).map(|i| (V::U16(i), V::Null)).collect()));
        o.push(V::Arr(vec![V::U8(9); n]));
        o.push(V::Arr(vec![V::Bool(true); n]));
        o.push(V::Arr(vec![V::Null; n]));
        o.push(V::Arr(vec![V::Bin(vec![3; n - 5])]));
        o.push(V::Desc(Box::new(V::sym("big")), Box::new(V::List(vec![V::Bin(vec![1; n - 2])]))));
        o.push(V::Desc(Box::new(V::sym("big")), Box::new(V::Arr(vec![V::U8(9); n]))));
    }
    o.push(V::List(vec![V::Bin(vec![2; 70_000]), s(70_000)]));
    o.push(V::Arr(vec![V::Null; 60_000]));
    o
}

/// sample values of a field type; the first two are the standard ones
pub fn vals(ty: Ty) -> Vec<V> {
    let syms = |l: &[&str]| V::Arr(l.iter().map(|s| V::sym(s)).collect());
    match ty {
        Ty::Bool | Ty::Role => vec![V::Bool(true), V::Bool(false)],
        Ty::U8 => vec![V::U8(5), V::U8(0), V::U8(4), V::U8(255)],
        Ty::U16 => vec![V::U16(7), V::U16(0), V::U16(255), V::U16(256), V::U16(65535)],
        Ty::U32 => [9, 0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 31, u32::MAX].map(V::U32).to_vec(),
        Ty::U64 => [9, 0, 1, 127, 128, 255, 256, 1 << 32, 1 << 63, u64::MAX].map(V::U64).to_vec(),
        Ty::Str => vec![V::str("abc"), V::str(""), V::str("é€😀"), s(254), s(255), s(256), s(257)],
        Ty::Sym => ["abc", "", "amqp:x", "move", "copy", "Move"]
            .map(V::sym)
            .into_iter()
            .chain([254, 255, 256].map(y))
            .chain(conditions().into_iter().map(|c| V::sym(&c)))
            .collect(),
        Ty::Bin => vec![V::Bin(vec![1, 2, 3]), V::Bin(vec![]), V::Bin((0..32).collect()), V::Bin(vec![0; 255]), V::Bin(vec![0xff; 256])],
        Ty::Ts => [1_311_704_463_521, 0, 1, -1, 999, -999, -1000, -1001, 1000, -1_000_000_000_001, 253_402_300_799_999].map(V::Ts).to_vec(),
        Ty::Any => anys(),
        Ty::Fields => vec![
            V::Map(vec![e("a", V::U32(1))]),
            V::Map(vec![]),
            V::Map(vec![e("a", V::Null), e("b", V::str("x")), e("c", V::List(vec![V::Bool(true)]))]),
            V::Map(vec![e("", V::Map(vec![(V::str("k"), V::Arr(vec![V::U8(1)]))]))]),
            V::Map(vec![e("n", s(245))]),
            V::Map(vec![e("n", s(246))]),
            V::Map(vec![e("n", s(247))]),
            V::Map(vec![e("n", s(248))]),
            V::Map(vec![e("n", s(249))]),
            V::Map(vec![e("n", s(250))]),
            V::Map(vec![e("d", V::Desc(Box::new(V::sym("q")), Box::new(V::U8(1))))]),
            // not symbols, or twice
            V::Map(vec![(V::str("a"), V::U32(1))]),
            V::Map(vec![(V::U64(1), V::U32(1))]),
        ],
        Ty::UMap => vec![
            V::Map(vec![(V::Bin(vec![1]), V::dlist(0x24, vec![]))]),
            V::Map(vec![]),
            V::Map(vec![(V::Bin(vec![1]), V::Null), (V::Bin(vec![2]), V::dlist(0x23, vec![V::U32(1), V::U64(2)]))]),
        ],
        Ty::Syms => vec![
            syms(&["a", "bc"]),
            V::sym("one"),
            syms(&["one"]),
            syms(&[]),
            syms(&["", "x", "yy", "zzz"]),
            V::Arr(vec![y(120), y(121)]),
            V::Arr(vec![y(122), y(121)]),
            V::Arr(vec![y(122), y(122)]),
            V::Arr(vec![y(122), y(123)]),
            V::Arr(vec![y(300), y(1)]),
            V::Arr(vec![V::sym(""); 49]),
            V::Arr(vec![V::sym(""); 50]),
            V::Arr(vec![V::sym(""); 51]),
            V::Arr(vec![V::sym(""); 255]),
            V::Arr(vec![V::sym(""); 256]),
            V::Arr(vec![V::str("a")]),
        ],
        Ty::Source | Ty::Target => {
            let code = if ty == Ty::Source { 0x28 } else { 0x29 };
            let f = &by_code(code).unwrap().f;
            let full: Vec<V> = f.iter().map(|f| vals(f.ty)[0].clone()).collect();
            let mut o = vec![V::dlist(code, vec![V::str("addr")]), V::dlist(code, vec![]), V::dlist(code, full.clone())];
            o.push(V::dlist(code, vec![s(200), V::Null, V::Null, V::U32(77), V::Null, V::Map(vec![e("k", s(40))])]));
            o.push(V::dlist(code, vec![V::Null; f.len()]));
            o.push(V::dlist(if code == 0x28 { 0x29 } else { 0x28 }, vec![]));
            o.push(V::dlist(0x30, vec![]));
            o
        }
        Ty::Error => {
            let mut o = vec![
                V::dlist(0x1d, vec![V::sym("amqp:not-found")]),
                V::dlist(0x1d, vec![V::sym("custom:x"), V::str("why"), V::Map(vec![e("k", V::U32(7))])]),
                V::dlist(0x1d, vec![V::sym("amqp:link:stolen"), V::Null, V::Map(vec![])]),
                V::dlist(0x1d, vec![]),
                V::dlist(0x1d, vec![V::Null, V::str("no condition")]),
                V::dlist(0x1d, vec![V::sym("amqp:link:redirect"), s(300)]),
            ];
            o.extend(conditions().iter().map(|c| V::dlist(0x1d, vec![V::sym(c)])));
            o
        }
        Ty::State | Ty::Outcome => {
            let mut o = vec![
                V::dlist(0x24, vec![]),
                V::dlist(0x25, vec![V::dlist(0x1d, vec![V::sym("amqp:not-found"), V::str("d")])]),
                V::dlist(0x25, vec![]),
                V::dlist(0x26, vec![]),
                V::dlist(0x27, vec![]),
                V::dlist(0x27, vec![V::Bool(true), V::Bool(false), V::Map(vec![e("a", V::U8(1))])]),
                V::dlist(0x27, vec![V::Null, V::Bool(true)]),
                V::dlist(0x23, vec![V::U32(3), V::U64(400)]),
                V::dlist(0x23, vec![V::U32(3)]),
                V::dlist(0x1d, vec![V::sym("a")]),
            ];
            o.push(V::dlist(0x25, vec![V::dlist(0x1d, vec![V::sym("amqp:not-found"), s(255)])]));
            o
        }
        Ty::Snd => [0, 1, 2, 3, 255].map(V::U8).to_vec(),
        Ty::Rcv => [1, 0, 2, 255].map(V::U8).to_vec(),
        Ty::SaslCode => [0, 1, 2, 3, 4, 5, 255].map(V::U8).to_vec(),
        Ty::Durable => [1, 0, 2, 3, 256].map(V::U32).to_vec(),
        Ty::Expiry => ["never", "session-end", "link-detach", "connection-close", "", "Never"].map(V::sym).to_vec(),
        Ty::MsgId => vec![V::U64(1), V::str("id"), V::U64(0), V::U64(255), V::U64(u64::MAX), V::Uuid([9; 16]), V::Bin(vec![1, 2]), V::Bin(vec![]), V::str(""), s(256), V::Bin(vec![1; 256])],
        Ty::Filter => vec![
            V::Map(vec![e("f", V::Null)]),
            V::Map(vec![]),
            V::Map(vec![e("f", V::Null), e("g", V::Null)]),
            V::Map(vec![e("f", V::str("lib"))]),
        ],
    }
}

pub fn conditions() -> Vec<String> {
    let mut o = vec![];
    for c in [
        "internal-error", "not-found", "unauthorized-access", "decode-error", "resource-limit-exceeded", "not-allowed", "invalid-field",
        "not-implemented", "resource-locked", "precondition-failed", "resource-deleted", "illegal-state", "frame-size-too-small",
        "connection:forced", "connection:framing-error", "connection:redirect", "session:window-violation", "session:errant-link",
        "session:handle-in-use", "session:unattached-handle", "link:detach-forced", "link:transfer-limit-exceeded",
        "link:message-size-exceeded", "link:redirect", "link:stolen",
    ] {
        o.push(format!("amqp:{c}"))
    }
    o
}

pub type Emit<'a> = dyn FnMut(Top, Vec<u8>) + 'a;

fn top_of(code: u64) -> Top {
    match code {
        0x10..=0x18 => Top::Frame,
        0x40..=0x44 => Top::Sasl,
        c => Top::Comp(c),
    }
}

/// a composite from its encoded fields
fn mk(top: Top, desc: &[u8], ctor: u8, f: &[Vec<u8>]) -> Option<Vec<u8>> {
    let body: Vec<u8> = f.concat();
    let mut b = vec![0];
    b.extend_from_slice(desc);
    b.push(ctor);
    match ctor {
        0x45 if f.is_empty() => {}
        0x45 => return None,
        c => b.extend_from_slice(&comp(c == 0xd0, f.len(), &body)?),
    }
    Some(wrap(top, b))
}

fn wrap(top: Top, b: Vec<u8>) -> Vec<u8> {
    match top {
        Top::Frame => refc::frame_bytes(0, 3, &b),
        Top::Sasl => refc::frame_bytes(1, 0, &b),
        _ => b,
    }
}

const NUL: u8 = 0x40;
const LISTS: [u8; 3] = [0x45, 0xc0, 0xd0];

struct Base {
    c: &'static Comp,
    top: Top,
    d: Vec<u8>,
}

impl Base {
    fn new(code: u64) -> Base {
        Base { c: by_code(code).unwrap(), top: top_of(code), d: small(&V::U64(code)) }
    }
    /// mandatory fields only, or all
    fn fill(&self, full: bool) -> Vec<Vec<u8>> {
        self.c
            .f
            .iter()
            .map(|f| if f.mand || full { small(&vals(f.ty)[0]) } else { vec![NUL] })
            .collect()
    }
    /// in every list form, with its trailing nulls and without
    fn all(&self, f: &[Vec<u8>], emit: &mut Emit) {
        let mut n = f.len();
        while n > 0 && f[n - 1] == [NUL] {
            n -= 1
        }
        let mut lens = vec![n, f.len(), (n + 1).min(f.len())];
        lens.dedup();
        for k in lens {
            for l in LISTS {
                if let Some(b) = mk(self.top, &self.d, l, &f[..k]) {
                    emit(self.top, b)
                }
            }
        }
    }
}

fn gen_field(code: u64, i: usize, emit: &mut Emit) {
    let b = Base::new(code);
    let ty = b.c.f[i].ty;
    for full in [false, true] {
        let mut f = b.fill(full);
        for v in vals(ty) {
            for x in forms(&v) {
                f[i] = x;
                b.all(&f, emit)
            }
        }
        // every other constructor in its place
        for c in 0..=255u8 {
            f[i] = match anys().into_iter().chain(containers().into_iter().take(3)).find_map(|v| forms(&v).into_iter().find(|x| x[0] == c)) {
                Some(x) => x,
                None => vec![c, 1, 1, 1, 1, 1, 1, 1, 1],
            };
            b.all(&f, emit)
        }
        // a described value in its place
        for d in [0x10, 0x14, 0x1d, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x33, 0x70, 0x77] {
            f[i] = small(&V::dlist(d, vec![]));
            b.all(&f, emit)
        }
    }
}

fn gen_subset(code: u64, thorough: bool, emit: &mut Emit) {
    let b = Base::new(code);
    let n = b.c.f.len();
    for which in [0, 1] {
        let x: Vec<Vec<u8>> = b.c.f.iter().map(|f| small(&vals(f.ty)[which])).collect();
        for set in 0..1u32 << n {
            let f: Vec<Vec<u8>> = (0..n).map(|i| if set >> i & 1 == 1 { x[i].clone() } else { vec![NUL] }).collect();
            b.all(&f, emit);
        }
        if !thorough && n > 12 {
            break;
        }
    }
}

fn gen_pairs(code: u64, emit: &mut Emit) {
    let b = Base::new(code);
    let n = b.c.f.len();
    for full in [false, true] {
        for i in 0..n {
            for j in i + 1..n {
                let opts = |k: usize| {
                    let v = vals(b.c.f[k].ty);
                    let last = v[v.len() - 1].clone();
                    [vec![NUL], small(&v[0]), small(&v[1]), small(&last)]
                };
                for x in opts(i) {
                    for z in opts(j) {
                        let mut f = b.fill(full);
                        f[i] = x.clone();
                        f[j] = z.clone();
                        b.all(&f, emit)
                    }
                }
            }
        }
    }
}

/// descriptor forms, foreign descriptors, sizes around the one-byte limit
fn gen_desc(code: u64, emit: &mut Emit) {
    let mut b = Base::new(code);
    for full in [false, true] {
        let f = b.fill(full);
        for d in descs(&V::U64(code)) {
            b.d = d;
            b.all(&f, emit)
        }
        for other in 0..=255u64 {
            b.d = small(&V::U64(other));
            b.all(&f, emit)
        }
        for other in comps().iter().map(|c| c.code) {
            for d in descs(&V::U64(other)) {
                b.d = d;
                b.all(&f, emit)
            }
        }
        for d in [V::sym(""), V::sym("amqp:open"), V::str("amqp:open:list"), V::U32(code as u32), V::U64(code + (1 << 32)), V::Null, V::List(vec![])] {
            b.d = small(&d);
            b.all(&f, emit)
        }
        b.d = small(&V::U64(code));
    }
    // the list itself replaced by another type
    for v in anys().iter().chain(containers().iter().take(8)) {
        for x in forms(v) {
            let mut o = vec![0];
            o.extend_from_slice(&b.d);
            o.extend_from_slice(&x);
            emit(b.top, wrap(b.top, o))
        }
    }
    for (i, fd) in b.c.f.iter().enumerate() {
        for n in 150..=262usize {
            let v = match fd.ty {
                Ty::Str | Ty::MsgId => s(n),
                Ty::Sym => y(n),
                Ty::Bin => V::Bin(vec![1; n]),
                Ty::Syms => V::Arr(vec![y(n / 2), y(n - n / 2)]),
                Ty::Fields => V::Map(vec![e("k", s(n))]),
                Ty::Error => V::dlist(0x1d, vec![V::sym("a:b"), s(n)]),
                _ => continue,
            };
            for full in [false, true] {
                let mut f = b.fill(full);
                f[i] = small(&v);
                b.all(&f, emit)
            }
        }
    }
}

/// frame headers, payloads
fn gen_header(emit: &mut Emit) {
    let open = small(&V::dlist(0x10, vec![V::str("c")]));
    let init = small(&V::dlist(0x41, vec![V::sym("PLAIN")]));
    for (body, top) in [(&open, Top::Frame), (&vec![], Top::Frame), (&init, Top::Sasl)] {
        for typ in 0..=255u8 {
            for doff in 0..=8u8 {
                for ch in [0u16, 1, 255, 256, 65535] {
                    for have in 0..=6usize {
                        let ext = have * 4;
                        let mut o = vec![0, 0, 0, 0, doff, typ];
                        o.extend_from_slice(&ch.to_be_bytes());
                        o.extend(std::iter::repeat_n(0x40, ext));
                        o.extend_from_slice(body);
                        let n = (o.len() as u32).to_be_bytes();
                        o[..4].copy_from_slice(&n);
                        if typ > 3 && (have > 0 || ch > 0) {
                            continue;
                        }
                        emit(top, o)
                    }
                }
            }
        }
    }
    for ch in 0..=65535u16 {
        emit(Top::Frame, refc::frame_bytes(0, ch, &[]))
    }
    for n in [0, 1, 2, 3, 100, 254, 255, 256, 257, 70_000] {
        for f in [vec![V::U32(1)], vec![V::U32(1), V::U32(2), V::Bin(vec![3]), V::U32(0), V::Bool(true), V::Bool(true)]] {
            for x in forms(&V::dlist(0x14, f)) {
                for fill in [0u8, 0x40, 0x53, 0xff] {
                    let mut b = x.clone();
                    b.extend(std::iter::repeat_n(fill, n));
                    emit(Top::Frame, refc::frame_bytes(0, 9, &b))
                }
            }
        }
    }
    for c in comps() {
        if let Top::Frame | Top::Sasl = top_of(c.code) {
            // a performative in a frame of the other type
            let b = Base::new(c.code);
            for full in [false, true] {
                let f = b.fill(full);
                for (top, typ) in [(Top::Frame, 0), (Top::Sasl, 1), (Top::Frame, 1), (Top::Sasl, 0)] {
                    let x = mk(Top::Var, &b.d, 0xc0, &f).unwrap();
                    emit(top, refc::frame_bytes(typ, 0, &x))
                }
            }
        }
    }
    // described filters, as brokers use them
    for d in [V::sym("apache.org:selector-filter:string"), V::U64(0x0000_468C_0000_0004)] {
        let fl = V::Map(vec![e("sel", V::Desc(Box::new(d), Box::new(V::str("a = 1"))))]);
        let src = V::dlist(0x28, vec![V::str("q"), V::Null, V::Null, V::Null, V::Null, V::Null, V::Null, fl]);
        emit(Top::Comp(0x28), small(&src));
        emit(Top::Frame, refc::frame_bytes(0, 0, &small(&V::dlist(0x12, vec![V::str("l"), V::U32(0), V::Bool(true), V::Null, V::Null, src]))));
    }
}

fn weight(v: &V) -> usize {
    1 + match v {
        V::List(l) | V::Arr(l) => l.iter().map(weight).sum(),
        V::Map(m) => m.iter().map(|(k, v)| weight(k) + weight(v)).sum(),
        V::Desc(_, v) => weight(v),
        _ => 0,
    }
}

fn gen_var(part: usize, parts: usize, thorough: bool, emit: &mut Emit) {
    let mut l0 = anys();
    l0.extend(containers());
    let mut i = 0;
    let mut one = |v: &V, emit: &mut Emit| {
        i += 1;
        if i % parts == part {
            for f in forms(v) {
                emit(Top::Var, f)
            }
        }
    };
    for v in &l0 {
        one(v, emit)
    }
    let l1: Vec<V> = l0.iter().filter(|v| small(v).len() < 2000 && weight(v) < 2000).flat_map(nest).collect();
    for v in &l1 {
        one(v, emit)
    }
    // two levels: over few scalars, or in the long run over all
    for v in l1.iter().filter(|v| small(v).len() < if thorough { 2000 } else { 24 } && weight(v) < 2000) {
        for w in nest(v) {
            one(&w, emit)
        }
    }
    // every pair of a type in a list, a map entry and an array
    let sc: Vec<V> = anys().into_iter().filter(|v| small(v).len() < 20).collect();
    for a in &sc {
        for b in &sc {
            one(&V::List(vec![a.clone(), b.clone()]), emit);
            one(&V::Map(vec![(a.clone(), b.clone())]), emit);
            one(&V::Arr(vec![a.clone(), b.clone()]), emit);
        }
    }
}

fn sections() -> Vec<(u64, Vec<V>)> {
    let f = |c: u64| {
        let fl = &by_code(c).unwrap().f;
        vec![
            V::List(fl.iter().map(|f| vals(f.ty)[0].clone()).collect()),
            V::List(vec![]),
            V::List(fl.iter().map(|_| V::Null).collect()),
        ]
    };
    let str_maps = vec![
        V::Map(vec![(V::str("a"), V::U32(1))]),
        V::Map(vec![]),
        V::Map(vec![(V::str(""), V::Null), (V::str("b"), V::Bool(true)), (V::str("c"), s(300))]),
        V::Map(vec![(V::sym("a"), V::U32(1))]),
    ];
    vec![
        (0x70, f(0x70)),
        (0x71, vals(Ty::Fields)),
        (0x72, vals(Ty::Fields)),
        (0x73, f(0x73)),
        (0x74, str_maps),
        (0x75, vals(Ty::Bin)),
        (0x76, vec![V::List(vec![V::U8(1), V::str("x")]), V::List(vec![]), V::List(vec![V::Bin(vec![0; 260])])]),
        (0x77, vec![V::str("v"), V::Null, V::List(vec![]), V::Map(vec![(V::str("k"), V::U8(1))]), V::U64(0), V::Arr(vec![V::U8(1), V::U8(2)]), V::Bin(vec![7; 300]), V::Desc(Box::new(V::sym("d")), Box::new(V::U8(1)))]),
        (0x78, vals(Ty::Fields)),
    ]
}

fn gen_msg(part: usize, parts: usize, emit: &mut Emit) {
    let se = sections();
    let mut i = 0;
    let mut out = |b: Vec<u8>, emit: &mut Emit| {
        i += 1;
        if i % parts == part {
            emit(Top::Msg, b)
        }
    };
    // each section alone: every value, form, descriptor
    for (c, vs) in &se {
        for v in vs.iter().chain(anys().iter()).chain(containers().iter().take(12)) {
            for x in forms(&V::Desc(Box::new(V::U64(*c)), Box::new(v.clone()))) {
                out(x, emit)
            }
        }
    }
    // every subset of sections, with two values each, body of every kind
    for set in 0..1u32 << 6 {
        for which in 0..2 {
            for body in 0..6 {
                let mut b = vec![];
                let mut put = |c: u64, v: &V| b.extend_from_slice(&small(&V::desc(c, v.clone())));
                for k in 0..5 {
                    if set >> k & 1 == 1 {
                        put(se[k].0, &se[k].1[which])
                    }
                }
                match body {
                    0 => {}
                    1 => put(0x75, &se[5].1[which]),
                    2 => {
                        put(0x75, &se[5].1[which]);
                        put(0x75, &V::Bin(vec![9; 256]))
                    }
                    3 => put(0x76, &se[6].1[which]),
                    4 => {
                        put(0x76, &se[6].1[which]);
                        put(0x76, &se[6].1[1])
                    }
                    _ => put(0x77, &se[7].1[which]),
                }
                if set >> 5 & 1 == 1 {
                    put(0x78, &se[8].1[which])
                }
                out(b, emit)
            }
        }
    }
    // what is not a section
    for c in 0..=255u64 {
        out(small(&V::dlist(c, vec![])), emit);
        out(small(&V::desc(c, V::Null)), emit);
    }
    for v in anys() {
        out(small(&v), emit)
    }
    for n in 245..=262 {
        out(small(&V::desc(0x75, V::Bin(vec![1; n]))), emit);
        out(small(&V::desc(0x77, V::Bin(vec![1; n]))), emit);
        out(small(&V::desc(0x74, V::Map(vec![(V::str("k"), s(n))]))), emit);
        out(small(&V::desc(0x72, V::Map(vec![e("k", s(n))]))), emit);
        out(small(&V::dlist(0x73, vec![V::Null, V::Bin(vec![1; n])])), emit);
    }
}

// ---------------------------------------------------------------- hostile input

/// inputs that mutations start from
pub fn corpus() -> Vec<(Top, Vec<u8>)> {
    let mut o = vec![];
    for c in comps() {
        let b = Base::new(c.code);
        for full in [false, true] {
            let f = b.fill(full);
            for l in [0xc0, 0xd0] {
                o.push((b.top, mk(b.top, &b.d, l, &f).unwrap()))
            }
            let sy = small(&V::Sym(sym_of(c.code)));
            o.push((b.top, mk(b.top, &sy, 0xc0, &f).unwrap()));
        }
    }
    for v in [
        V::List(vec![V::U8(1), V::List(vec![V::str("a")]), V::Map(vec![(V::sym("k"), V::Null)])]),
        V::Map(vec![(V::Arr(vec![V::U8(1), V::U8(2)]), V::Bool(true)), (V::Ts(-1), V::Char(65))]),
        V::Arr(vec![V::sym("ab"), V::sym("c")]),
        V::Arr(vec![V::List(vec![V::U8(1)]), V::List(vec![])]),
        V::Arr(vec![V::Desc(Box::new(V::sym("q")), Box::new(V::U16(1)))]),
        V::Desc(Box::new(V::sym("d:x")), Box::new(V::List(vec![V::Uuid([1; 16])]))),
        V::Desc(Box::new(V::U64(0x77)), Box::new(V::F64(1))),
    ] {
        for f in [Form::Small, Form::Large] {
            let mut b = vec![];
            refc::enc_f(&v, f, &mut b);
            o.push((Top::Var, b));
            // and as a field of a frame
            let mut b = vec![];
            refc::enc_f(&V::dlist(0x10, vec![V::str("c"), V::Null, V::Null, V::Null, V::Null, V::Null, V::Null, V::Null, V::Null, V::Map(vec![e("p", v.clone())])]), f, &mut b);
            o.push((Top::Frame, refc::frame_bytes(0, 0, &b)));
        }
    }
    let se = sections();
    for f in [Form::Small, Form::Large] {
        for k in [5, 6, 7] {
            let mut b = vec![];
            for i in [0, 1, 2, 3, 4, k, 8] {
                refc::enc_f(&V::desc(se[i].0, se[i].1[0].clone()), f, &mut b)
            }
            o.push((Top::Msg, b));
        }
        let mut b = vec![];
        refc::enc_f(&V::dlist(0x14, vec![V::U32(1), V::U32(2), V::Bin(vec![3])]), f, &mut b);
        b.extend_from_slice(b"payload");
        o.push((Top::Frame, refc::frame_bytes(0, 1, &b)));
    }
    o
}

fn fix(top: Top, b: &mut [u8]) {
    if let Top::Frame | Top::Sasl = top
        && b.len() >= 4
    {
        let n = (b.len() as u32).to_be_bytes();
        b[..4].copy_from_slice(&n)
    }
}

fn mut1(i: usize, emit: &mut Emit) {
    let (top, b) = &corpus()[i];
    let start = if matches!(top, Top::Frame | Top::Sasl) { 4 } else { 0 };
    for n in 0..b.len() {
        let mut c = b[..n].to_vec();
        emit(*top, c.clone());
        fix(*top, &mut c);
        emit(*top, c);
    }
    for p in 0..b.len() {
        for x in 0..=255u8 {
            let mut c = b.clone();
            c[p] = x;
            emit(*top, c)
        }
    }
    for p in start..=b.len() {
        for x in [0u8, 1, 0x40, 0x45, 0x53, 0x7f, 0xa0, 0xb0, 0xc0, 0xd0, 0xd1, 0xe0, 0xf0, 0xff] {
            let mut c = b.clone();
            c.insert(p, x);
            fix(*top, &mut c);
            emit(*top, c)
        }
        if p < b.len() {
            let mut c = b.clone();
            c.remove(p);
            fix(*top, &mut c);
            emit(*top, c)
        }
        // four-byte sizes and counts
        if p + 4 <= b.len() {
            for w in [0u32, 1, 2, 3, 4, 5, 255, 65535, 65536, 1 << 20, 1 << 28, 1 << 30, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_fffb, u32::MAX] {
                let mut c = b.clone();
                c[p..p + 4].copy_from_slice(&w.to_be_bytes());
                emit(*top, c)
            }
        }
    }
}

fn mut2(i: usize, emit: &mut Emit) {
    let (top, b) = &corpus()[i];
    let start = if matches!(top, Top::Frame | Top::Sasl) { 4 } else { 0 };
    let end = b.len().min(start + 48);
    const X: [u8; 16] = [0, 1, 2, 5, 0x40, 0x43, 0x45, 0x56, 0x7f, 0xa1, 0xb3, 0xc0, 0xd0, 0xd1, 0xf0, 0xff];
    for p in start..end {
        for q in p + 1..end {
            for x in X {
                for z in X {
                    let mut c = b.clone();
                    c[p] = x;
                    c[q] = z;
                    emit(*top, c)
                }
            }
        }
    }
}

/// all short strings as a value, a message, a frame body
fn short(k: usize, first: u8, emit: &mut Emit) {
    let mut b = vec![first];
    fn rec(b: &mut Vec<u8>, k: usize, emit: &mut Emit) {
        emit(Top::Var, b.clone());
        emit(Top::Msg, b.clone());
        emit(Top::Frame, refc::frame_bytes(0, 0, b));
        emit(Top::Sasl, refc::frame_bytes(1, 0, b));
        if k > 1 {
            for x in 0..=255u8 {
                b.push(x);
                rec(b, k - 1, emit);
                b.pop();
            }
        }
    }
    rec(&mut b, k, emit)
}

/// a value where an application value may be: in open's properties, a message, alone
fn places(b: Vec<u8>, emit: &mut Emit) {
    let mut fields = vec![vec![NUL]; 9];
    fields[0] = small(&V::str("c"));
    let mut m = small(&V::sym("k"));
    m.extend_from_slice(&b);
    let mut f = vec![0xd1];
    f.extend_from_slice(&comp(true, 2, &m).unwrap());
    fields.push(f);
    emit(Top::Frame, mk(Top::Frame, &small(&V::U64(0x10)), 0xd0, &fields).unwrap());
    let mut d = vec![0, 0x53, 0x77];
    d.extend_from_slice(&b);
    emit(Top::Msg, d);
    emit(Top::Var, b);
}

/// nesting far beyond anything sensible
fn deep(emit: &mut Emit) {
    for n in [3usize, 10, 30, 50, 100, 300, 1000, 10_000, 100_000] {
        // list in list
        let mut b = vec![];
        for i in 0..n {
            b.push(0xd0);
            b.extend_from_slice(&(((n - i - 1) * 9 + 1 + 4) as u32).to_be_bytes());
            b.extend_from_slice(&1u32.to_be_bytes());
        }
        b.push(NUL);
        places(b, emit);
        // a size that lies
        let mut b = vec![];
        for _ in 0..n {
            b.extend_from_slice(&[0xc0, 0xff, 1]);
        }
        b.push(NUL);
        places(b, emit);
        // value of a map, key of a map
        for key in [false, true] {
            let mut b = vec![];
            for i in 0..n {
                b.push(0xd1);
                // what follows: the rest of the prefixes, the null, the suffixes
                let inner = (n - i - 1) * 10 + 1 + 1;
                b.extend_from_slice(&((inner + 4) as u32).to_be_bytes());
                b.extend_from_slice(&2u32.to_be_bytes());
                if !key {
                    b.push(0x41)
                }
            }
            b.push(NUL);
            if key {
                b.extend(std::iter::repeat_n(0x41, n));
            }
            places(b, emit);
        }
        // described by described
        let mut b = vec![];
        for _ in 0..n {
            b.extend_from_slice(&[0, 0x53, 1]);
        }
        b.push(NUL);
        places(b, emit);
        // descriptors of descriptors
        let mut b = vec![0; n];
        b.extend_from_slice(&[0x53, 1]);
        b.extend(std::iter::repeat_n(NUL, n));
        places(b, emit);
        // array in array
        let mut b = vec![0xf0];
        for i in 0..n {
            b.extend_from_slice(&(((n - i - 1) * 9 + 5) as u32).to_be_bytes());
            b.extend_from_slice(&1u32.to_be_bytes());
            b.push(if i + 1 == n { NUL } else { 0xf0 });
        }
        places(b, emit);
    }
}

/// counts far beyond what is there
fn counts(emit: &mut Emit) {
    for n in [255u32, 256, 65_535, 65_536, 1 << 20, 1 << 24, 1 << 28, 1 << 31, u32::MAX] {
        for c in [0xd0u8, 0xd1, 0xf0] {
            for ec in CTORS {
                let mut b = vec![c];
                b.extend_from_slice(&9u32.to_be_bytes());
                b.extend_from_slice(&n.to_be_bytes());
                b.extend_from_slice(&[ec, 0, 0, 0, 0]);
                places(b, emit);
            }
        }
        for (code, i) in [(0x10u64, 5usize), (0x10, 9), (0x12, 7), (0x28, 7), (0x28, 9), (0x40, 0), (0x1d, 2), (0x27, 2)] {
            let base = Base::new(code);
            for c in [0xc1u8, 0xd1, 0xe0, 0xf0] {
                for ec in [0xa3u8, 0xb3, 0x40, 0x45, 0x41, 0xf0, 0x00] {
                    let mut f = base.fill(false);
                    f[i] = vec![c];
                    if c & 0x10 == 0 {
                        f[i].extend_from_slice(&[3, n as u8, ec, 0])
                    } else {
                        f[i].extend_from_slice(&6u32.to_be_bytes());
                        f[i].extend_from_slice(&n.to_be_bytes());
                        f[i].extend_from_slice(&[ec, 0])
                    }
                    // more bytes that are not its own
                    for tail in [0usize, 3, 300] {
                        let mut x = mk(base.top, &base.d, 0xd0, &f).unwrap();
                        x.extend(std::iter::repeat_n(0, tail));
                        fix(base.top, &mut x);
                        emit(base.top, x);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the work

pub struct Drv<'a> {
    part: &'a str,
    n: u64,
    only: Option<u64>,
    st: &'a mut Stats,
    mark: &'a mut dyn FnMut(&str) -> bool,
    /// mark every case (a crash is pinned to it) or now and then
    every: u64,
}

impl Drv<'_> {
    fn case(&mut self, top: Top, b: Vec<u8>) {
        let want_text = self.n == 4;
        self.any(|found| {
            let h = judge(top, &b, found);
            (h, if want_text { format!("{top:?} {}", hex(&b)) } else { String::new() })
        })
    }
    pub fn events(&mut self, n: u64) {
        self.st.events += n
    }
    /// one case; returns what it stands for and how to show it
    pub fn any(&mut self, f: impl FnOnce(&mut Vec<Found>) -> (Option<u64>, String)) {
        self.n += 1;
        if self.st.stopped || self.only.is_some_and(|n| n != self.n) {
            return;
        }
        let at = format!("{}#{}", self.part, self.n);
        if (self.every == 1 || self.n % self.every == 1) && !(self.mark)(&at) {
            self.st.stopped = true;
            return;
        }
        let mut found = vec![];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut found)));
        let (h, what) = r.unwrap_or_else(|_| {
            let m = crate::exec::take_panic().unwrap_or_default();
            found.push(("panic", "*", m));
            (None, String::new())
        });
        self.st.nodes += 1;
        self.st.events += 1;
        if let Some(h) = h {
            self.st.states.insert(h);
            if self.n == 5 {
                self.st.samples.push(format!("{at}: {what}"));
            }
        }
        if let Some(dir) = std::env::var_os("MC_ALL") {
            use std::io::Write;
            let f = std::path::Path::new(&dir).join(format!("bad.{}", std::process::id()));
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap();
            for x in &found {
                let _ = writeln!(f, "{} {}", x.0, x.2);
            }
        }
        for (rule, props, msg) in found {
            let e = self.st.viols.entry((rule.into(), props.into())).or_insert_with(|| (0, at.clone(), msg.clone()));
            e.0 += 1;
            if msg.len() < e.2.len() {
                e.1 = at.clone();
                e.2 = msg;
            }
        }
    }
}

fn drive(part: &str, only: Option<u64>, st: &mut Stats, mark: &mut dyn FnMut(&str) -> bool) {
    let f: Vec<&str> = part.split('.').collect();
    let num = |i: usize| f[i].parse::<usize>().unwrap();
    let mut d = Drv { part, n: 0, only, st, mark, every: 1 };
    // a request for this much at once cannot be meant
    crate::alloc::set_limit(1 << 28);
    match f[0] {
        "seq" => crate::capi::seq(num(1), num(2), &mut d),
        "sweep" => crate::capi::sweep(num(1), num(2), f[3] == "t", &mut d),
        "types" => crate::capi::types(num(1), f[2] == "t", &mut d),
        "cut" => crate::split::frames(f[1], num(2), f[3] == "t", &mut d),
        "hdr" => crate::split::header(num(1), &mut d),
        "hs" => crate::hs::run(&f, &mut d),
        "idle" => crate::idle::run(&f, &mut d),
        "hostile" => crate::hostile::run(&f, &mut d),
        "fields" => crate::fields::run(&f, &mut d),
        "svc" => crate::services::run(&f, &mut d),
        "cyc" => crate::cycles::run(&f, &mut d),
        _ => bytes(&f, &mut |t: Top, b: Vec<u8>| d.case(t, b)),
    }
    crate::alloc::set_limit(isize::MAX);
}

fn bytes(f: &[&str], emit: &mut Emit) {
    let num = |i: usize| f[i].parse::<usize>().unwrap();
    match f[0] {
        "f" => gen_field(num(1) as u64, num(2), emit),
        "subset" => gen_subset(num(1) as u64, f[2] == "t", emit),
        "pairs" => gen_pairs(num(1) as u64, emit),
        "desc" => gen_desc(num(1) as u64, emit),
        "header" => gen_header(emit),
        "var" => gen_var(num(1), num(2), f[3] == "t", emit),
        "msg" => gen_msg(num(1), num(2), emit),
        "mut1" => mut1(num(1), emit),
        "mut2" => mut2(num(1), emit),
        "short" => short(num(1), num(2) as u8, emit),
        "deep" => deep(emit),
        "counts" => counts(emit),
        x => panic!("part {x}"),
    }
}

fn run(part: &str, st: &mut Stats, mark: &mut dyn FnMut(&str) -> bool) {
    // on a stack as threads have it
    std::thread::scope(|s| {
        let mark = SendPtr(mark);
        let st = SendPtr(st);
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                let (m, st) = (mark, st);
                drive(part, None, st.0, m.0)
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

struct SendPtr<'a, T: ?Sized>(&'a mut T);
unsafe impl<T: ?Sized> Send for SendPtr<'_, T> {}

fn one(case: &str, st: &mut Stats) {
    let (part, n) = case.split_once('#').unwrap_or((case, "0"));
    let n: u64 = n.parse().unwrap_or(0);
    std::thread::scope(|s| {
        let st = SendPtr(st);
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                let st = st;
                drive(part, Some(n), st.0, &mut |_| true)
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn parts_forms(size: usize) -> Vec<String> {
    let mut o = vec!["header".to_string()];
    let tier = if size > 1 { "t" } else { "q" };
    for c in comps() {
        for i in 0..c.f.len() {
            o.push(format!("f.{}.{i}", c.code))
        }
        o.push(format!("subset.{}.{tier}", c.code));
        o.push(format!("pairs.{}", c.code));
        o.push(format!("desc.{}", c.code));
    }
    o
}
fn parts_var(size: usize) -> Vec<String> {
    (0..16).map(|i| format!("var.{i}.16.{}", if size > 1 { "t" } else { "q" })).collect()
}
fn parts_msg(_: usize) -> Vec<String> {
    (0..8).map(|i| format!("msg.{i}.8")).collect()
}
fn parts_mut(size: usize) -> Vec<String> {
    let mut o = vec!["deep".to_string(), "counts".to_string()];
    let n = corpus().len();
    o.extend((0..n).map(|i| format!("mut1.{i}")));
    o.extend((0..256).map(|i| format!("short.{}.{i}", size + 1)));
    if size > 1 {
        o.extend((0..n).map(|i| format!("mut2.{i}")));
    }
    o
}

pub const FORMS: Kind = Kind { name: "codec-forms", parts: parts_forms, run, one };
pub const VAR: Kind = Kind { name: "codec-var", parts: parts_var, run, one };
pub const MSG: Kind = Kind { name: "codec-msg", parts: parts_msg, run, one };
pub const MUT: Kind = Kind { name: "codec-mut", parts: parts_mut, run, one };

fn parts_api(size: usize) -> Vec<String> {
    let tier = if size > 1 { "t" } else { "q" };
    let mut o: Vec<String> = (0..16).map(|i| format!("sweep.{i}.16.{tier}")).collect();
    o.extend((0..crate::capi::TYPES).map(|i| format!("types.{i}.{tier}")));
    for d in 1..=size + 2 {
        o.extend((0..crate::capi::OPS).map(|i| format!("seq.{i}.{d}")));
    }
    o
}
pub const API: Kind = Kind { name: "codec-api", parts: parts_api, run, one };

fn parts_split(size: usize) -> Vec<String> {
    let tier = if size > 1 { "t" } else { "q" };
    let mut o: Vec<String> = (0..8).map(|i| format!("hdr.{i}")).collect();
    o.extend((0..crate::split::AMQP).map(|i| format!("cut.amqp.{i}.{tier}")));
    o.extend((0..crate::split::SASL).map(|i| format!("cut.sasl.{i}.{tier}")));
    o
}
pub const SPLIT: Kind = Kind { name: "codec-split", parts: parts_split, run, one };

pub const HS_SERVER: Kind = Kind { name: "hs-server", parts: |n| crate::hs::parts(crate::sut::Role::Server, n), run, one };
pub const HS_CLIENT: Kind = Kind { name: "hs-client", parts: |n| crate::hs::parts(crate::sut::Role::Client, n), run, one };

pub const IDLE: Kind = Kind { name: "idle", parts: crate::idle::parts, run, one };

pub const HOSTILE: Kind = Kind { name: "hostile", parts: crate::hostile::parts, run, one };

pub const FIELDS: Kind = Kind { name: "fields", parts: crate::fields::parts, run, one };

pub const CYCLES: Kind = Kind { name: "cycles", parts: crate::cycles::parts, run, one };
pub const SERVICES: Kind = Kind { name: "services", parts: crate::services::parts, run, one };
