//! Values made through the library's own types and mutators, against a model.
use std::collections::HashMap as StdMap;

use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::{AmqpCodec, AmqpFrame, Decode, DecodeFormatted, Encode, Message};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::Encoder;

use crate::codec::*;
use crate::cgen::Drv;
use crate::refc::{self, V};

fn add(out: &mut Vec<Found>, rule: &'static str, m: String) {
    out.push((rule, "C01", m))
}

pub fn hash(v: &V) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    refc::show(v).hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- messages

/// a message as the sequence of calls should have left it; a list among the data
/// sections is a nested message
struct M {
    s: Vec<V>,
    fmt: Option<u32>,
    /// bodies put in `messages` come after those in `data`
    data: Vec<V>,
    nested: Vec<V>,
}

impl M {
    fn new() -> M {
        let mut s = vec![V::Null; 9];
        for i in [5, 6, 7] {
            s[i] = V::List(vec![])
        }
        M { s, fmt: None, data: vec![], nested: vec![] }
    }
    fn v(&self) -> V {
        let mut s = self.s.clone();
        s[5] = V::List(self.data.iter().chain(&self.nested).cloned().collect());
        V::List(s)
    }
    fn put(&mut self, i: usize, k: V, v: V) {
        match &mut self.s[i] {
            V::Map(m) => {
                m.push((k, v));
                self.s[i] = map(std::mem::take(m));
            }
            x => *x = V::Map(vec![(k, v)]),
        }
    }
    fn props(&mut self) -> &mut Vec<V> {
        if self.s[3] == V::Null {
            self.s[3] = V::dlist(0x73, vec![V::Null; 13])
        }
        let V::Desc(_, l) = &mut self.s[3] else { unreachable!() };
        let V::List(l) = &mut **l else { unreachable!() };
        l
    }
}

/// model and what the bytes denote; nested messages are compared by what their
/// bytes denote
fn same(m: &V, d: &V) -> bool {
    let (V::List(m), V::List(d)) = (m, d) else { return false };
    m.len() == d.len()
        && m.iter().zip(d).enumerate().all(|(i, (a, b))| match (i, a, b) {
            (5, V::List(a), V::List(b)) => {
                a.len() == b.len()
                    && a.iter().zip(b).all(|(a, b)| match (a, b) {
                        (V::List(_), V::Bin(b)) => message(b).is_ok_and(|d| same(a, &d)),
                        (a, b) => a == b,
                    })
            }
            (_, a, b) => a == b,
        })
}

pub const OPS: usize = 31;

fn nested() -> (Message, V) {
    let mut m = Message::default();
    m.set_properties(|p| p.message_id = Some(2.into())).set_value(7u32);
    let mut v = M::new();
    v.props()[0] = V::U64(2);
    v.s[7] = V::List(vec![V::U32(7)]);
    (m, v.v())
}

/// `i`: position in the sequence, makes keys unique
fn op(n: usize, i: usize, m: &mut Message, v: &mut M, out: &mut Vec<Found>) {
    let key = format!("k{i}");
    let bs = |n: usize| ByteString::from("x".repeat(n));
    match n {
        0 => {
            m.set_header(Header { durable: true, priority: 9, ttl: None, first_acquirer: false, delivery_count: 0 });
            v.s[0] = V::dlist(0x70, vec![V::Bool(true), V::U8(9), V::Null, V::Bool(false), V::U32(0)]);
        }
        1 => {
            m.set_header(Header { durable: false, priority: 0, ttl: Some(70_000), first_acquirer: true, delivery_count: 300 });
            v.s[0] = V::dlist(0x70, vec![V::Bool(false), V::U8(0), V::U32(70_000), V::Bool(true), V::U32(300)]);
        }
        2 => {
            m.set_format(7);
            v.fmt = Some(7);
        }
        3 => {
            m.properties_mut().message_id = Some(MessageId::String("id".into()));
            v.props()[0] = V::str("id");
        }
        4 => {
            m.set_properties(|p| p.to = Some("to".into()));
            v.props()[2] = V::str("to");
        }
        5 => {
            m.set_properties(|p| {
                p.user_id = Some(Bytes::from(vec![1u8; 240]));
                p.group_sequence = Some(0);
            });
            v.props()[1] = V::Bin(vec![1; 240]);
            v.props()[11] = V::U32(0);
        }
        6 => {
            m.set_app_property(Str::from(key.clone()), 1u32);
            v.put(4, V::Str(key), V::U32(1));
        }
        7 => {
            m.set_app_property(Str::from(key.clone()), Variant::from(bs(243)));
            v.put(4, V::Str(key), V::Str("x".repeat(243)));
        }
        8 => {
            if let Some(p) = m.app_properties_mut() {
                p.push((Str::from(key.clone()), Variant::Boolean(true)));
                v.put(4, V::Str(key), V::Bool(true));
            } else if v.s[4] != V::Null {
                add(out, "api-read", "application properties not there".into())
            }
        }
        9 => {
            if let Some(p) = m.app_properties_mut() {
                p.clear();
                v.s[4] = V::Map(vec![]);
            }
        }
        10 => {
            m.add_message_annotation(Symbol::from(key.clone()), Variant::Null);
            v.put(2, V::Sym(key), V::Null);
        }
        11 => {
            m.add_message_annotation(Symbol::from(key.clone()), Variant::Binary(Bytes::from(vec![3u8; 245])));
            v.put(2, V::Sym(key), V::Bin(vec![3; 245]));
        }
        12 => {
            if let Some(p) = m.message_annotations_mut() {
                p.push((Symbol::from(key.clone()), Variant::Ulong(0)));
                v.put(2, V::Sym(key), V::U64(0));
            } else if v.s[2] != V::Null {
                add(out, "api-read", "message annotations not there".into())
            }
        }
        13 => {
            m.0.delivery_annotations = Some(VecSymbolMap(vec![(Symbol::from(key.clone()), Variant::Int(-1))]));
            v.s[1] = V::Map(vec![(V::Sym(key), V::I32(-1))]);
        }
        14 => {
            if let Some(p) = m.delivery_annotations_mut() {
                p.push((Symbol::from(key.clone()), Variant::Binary(Bytes::from(vec![3u8; 300]))));
                v.put(1, V::Sym(key), V::Bin(vec![3; 300]));
            } else if v.s[1] != V::Null {
                add(out, "api-read", "delivery annotations not there".into())
            }
        }
        15 => {
            m.0.footer = Some([(Symbol::from(key.clone()), Variant::Char('c'))].into_iter().collect());
            v.s[8] = V::Map(vec![(V::Sym(key), V::Char('c' as u32))]);
        }
        16 => {
            m.set_body(|b| b.set_data(Bytes::from_static(b"d1")));
            v.data = vec![V::Bin(b"d1".to_vec())];
        }
        17 => {
            m.body_mut().data.push(Bytes::from(vec![9u8; 256]));
            v.data.push(V::Bin(vec![9; 256]));
        }
        18 => {
            m.set_value("val");
            v.s[7] = V::List(vec![V::str("val")]);
        }
        19 => {
            m.set_value(Variant::Null);
            v.s[7] = V::List(vec![V::Null]);
        }
        20 => {
            m.body_mut().sequence.push(List::from(vec![Variant::Ubyte(1), Variant::Null]));
            let V::List(l) = &mut v.s[6] else { unreachable!() };
            l.push(V::List(vec![V::U8(1), V::Null]));
        }
        21 => {
            m.set_body(|b| b.messages.push(TransferBody::Data(Bytes::from_static(b"raw"))));
            v.nested.push(V::Bin(b"raw".to_vec()));
        }
        22 => {
            let (x, y) = nested();
            m.set_body(|b| b.messages.push(x.into()));
            v.nested.push(y);
        }
        23 => {
            let (mut x, _) = nested();
            x.body_mut().set_data(Bytes::from(vec![0u8; 250]));
            let mut w = M::new();
            w.props()[0] = V::U64(2);
            w.s[7] = V::List(vec![V::U32(7)]);
            w.data = vec![V::Bin(vec![0; 250])];
            m.body_mut().messages.push(TransferBody::Message(x));
            v.nested.push(w.v());
        }
        24 => *m = m.clone(),
        25 => {
            let _ = m.encoded_size();
        }
        26 => {
            *m = m.reply_message();
            let id = if v.s[3] == V::Null { None } else { Some(v.props()[0].clone()) };
            *v = M::new();
            if let Some(id) = id {
                v.props()[5] = id;
            }
        }
        27 => {
            *m = std::mem::take(m).update(|mut m| {
                m.set_value(1u8);
                m
            });
            v.s[7] = V::List(vec![V::U8(1)]);
        }
        28 => {
            *m = std::mem::take(m)
                .if_some(&Some(5u16), |mut m, x| {
                    m.set_value(*x);
                    m
                })
                .if_some(&None::<u16>, |_, _| Message::default());
            v.s[7] = V::List(vec![V::U16(5)]);
        }
        29 => {
            *m = Message::with_body(Bytes::from_static(b"wb"));
            *v = M::new();
            v.data = vec![V::Bin(b"wb".to_vec())];
            v.fmt = Some(0);
        }
        30 => {
            let (x, y) = nested();
            *m = Message::with_messages(vec![TransferBody::Message(x), TransferBody::Data(Bytes::from_static(b"z"))]);
            *v = M::new();
            v.nested = vec![y, V::Bin(b"z".to_vec())];
            v.fmt = Some(0);
        }
        _ => unreachable!(),
    }
}

/// sections of a message in the order the specification requires
fn in_order(b: &[u8]) -> bool {
    let mut p = 0;
    let mut last = 0;
    while p < b.len() {
        let Ok(V::Desc(d, _)) = refc::dec(b, &mut p, 0) else { return false };
        let V::U64(c) = *d else { return false };
        let k = match c {
            0x75..=0x77 => 0x75,
            c => c,
        };
        if k < last {
            return false;
        }
        last = k
    }
    true
}

fn check_msg(m: &Message, v: &M, out: &mut Vec<Found>) -> u64 {
    let want = v.v();
    let (size, enc) = reenc(m);
    let show = || refc::show(&want);
    if size != enc.len() {
        add(out, "encoded-size", format!("{} announces {size} bytes, writes {}", show(), enc.len()))
    }
    match message(&enc) {
        Ok(d) if same(&want, &d) => {
            let r = Message::decode(&mut Bytes::copy_from_slice(&enc));
            if r.as_ref().ok().map(|r| r.s()).as_ref() != Some(&d) {
                add(out, "encode-own", format!("{} encoded as {} is read back as {}", show(), hex(&enc), r.map_or_else(|e| format!("{e:?}"), |r| refc::show(&r.s()))))
            }
        }
        Ok(d) => add(out, "encode-value", format!("{} is encoded as {} which denotes {}", show(), hex(&enc), refc::show(&d))),
        Err(e) => add(out, "encode-value", format!("{} is encoded as {} which is not valid ({e:?})", show(), hex(&enc))),
    }
    if !in_order(&enc) {
        add(out, "encode-order", format!("sections of {} are out of order: {}", show(), hex(&enc)))
    }
    // what the accessors say
    let mut read = |what: &str, a: V, b: &V| {
        if a != *b {
            add(out, "api-read", format!("{what} reads {} but is {}", refc::show(&a), refc::show(b)))
        }
    };
    read("header", m.header().s(), &v.s[0]);
    read("delivery annotations", m.delivery_annotations().s(), &v.s[1]);
    read("message annotations", m.message_annotations().s(), &v.s[2]);
    read("properties", m.properties().s(), &v.s[3]);
    read("application properties", m.app_properties().s(), &v.s[4]);
    read("data", m.body().data().s(), v.data.first().unwrap_or(&V::Null));
    if let V::List(l) = &v.s[7] {
        read("value", m.value().s(), l.first().unwrap_or(&V::Null));
        read("body value", m.body().value().s(), l.first().unwrap_or(&V::Null));
    }
    if let V::Map(l) = &v.s[4] {
        for (k, x) in l {
            let V::Str(k) = k else { unreachable!() };
            read("application property", m.app_property(k).s(), x)
        }
        read("other application property", m.app_property("nope").s(), &V::Null)
    }
    if let V::Map(l) = &v.s[2] {
        for (k, x) in l {
            let V::Sym(k) = k else { unreachable!() };
            read("message annotation", m.message_annotation(k).s(), x)
        }
    }
    // as the body of a transfer
    let body = TransferBody::Message(m.clone());
    if body.message_format() != v.fmt {
        add(out, "api-read", format!("message format {:?} of {}", body.message_format(), show()))
    }
    if body.len() != enc.len() {
        add(out, "encoded-size", format!("a transfer body of {} announces {} bytes, is {}", show(), body.len(), enc.len()))
    }
    let mut t = Transfer(Default::default());
    t.0.handle = 3;
    t.0.body = Some(body);
    let f = AmqpFrame::new(1, t.into());
    let (size, fe) = reenc(&f);
    if size != fe.len() {
        add(out, "encoded-size", format!("a transfer of {} announces {size} bytes, writes {}", show(), fe.len()))
    }
    let mut buf = BytesMut::new();
    buf.extend_from_slice(b"AMQP");
    let _ = AmqpCodec::<AmqpFrame>::new().encode(f, &mut buf);
    if buf.as_ref() != [b"AMQP", &fe[..]].concat() {
        add(out, "encode-frame", format!("the frame codec writes {} for {}", hex(&buf), hex(&fe)))
    }
    let mut fields = vec![V::Null; 12];
    fields[0] = V::U32(3);
    for i in [5, 8, 9, 10] {
        fields[i] = V::Bool(false)
    }
    match denote(Top::Frame, &fe) {
        Ok(V::List(l)) if l[0] == V::U16(1) => {
            let ok = match &l[1] {
                V::Desc(_, x) => match &**x {
                    V::List(x) => x[11] == if enc.is_empty() { V::Null } else { V::Bin(enc.clone()) } && x[0] == V::U32(3),
                    _ => false,
                },
                _ => false,
            };
            if !ok {
                add(out, "encode-frame", format!("a transfer of {} is encoded as {}", show(), hex(&fe)))
            }
        }
        _ => add(out, "encode-frame", format!("a transfer of {} is encoded as {}", show(), hex(&fe))),
    }
    hash(&want)
}

/// all sequences of `depth` calls that begin with `first`
pub fn seq(first: usize, depth: usize, d: &mut Drv) {
    let mut s = vec![0usize; depth - 1];
    loop {
        d.any(|out| {
            let mut m = Message::default();
            let mut v = M::new();
            for (i, n) in std::iter::once(&first).chain(&s).enumerate() {
                op(*n, i, &mut m, &mut v, out);
            }
            (Some(check_msg(&m, &v, out)), format!("calls {first} {s:?}"))
        });
        let mut k = s.len();
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            s[k] += 1;
            if s[k] < OPS {
                break;
            }
            s[k] = 0;
        }
    }
}

/// every length and count around the limits of the small encodings
pub fn sweep(part: usize, parts: usize, thorough: bool, d: &mut Drv) {
    let top = if thorough { 1100 } else { 310 };
    for n in (0..top).chain(65_500..65_560).filter(|n| n % parts == part) {
        let bin = |c: u8| Variant::Binary(Bytes::from(vec![c; n]));
        let vbin = |c: u8| V::Bin(vec![c; n]);
        for what in 0..18 {
            if n > 60_000 && what >= 12 {
                continue;
            }
            d.any(|out| {
                let mut m = Message::default();
                let mut v = M::new();
                let x = "x".repeat(n);
                match what {
                    0 => {
                        m.set_app_property("k", Variant::from(x.clone()));
                        v.put(4, V::str("k"), V::Str(x));
                    }
                    1 => {
                        m.set_app_property(Str::from(x.clone()), 5i64);
                        v.put(4, V::Str(x), V::I64(5));
                    }
                    2 => {
                        m.add_message_annotation("k", bin(1));
                        v.put(2, V::sym("k"), vbin(1));
                    }
                    3 => {
                        m.add_message_annotation(Symbol::from(x.clone()), 200u8);
                        v.put(2, V::Sym(x), V::U8(200));
                    }
                    4 => {
                        m.0.footer = Some([(Symbol::from("f"), bin(2))].into_iter().collect());
                        v.put(8, V::sym("f"), vbin(2));
                    }
                    5 => {
                        m.0.delivery_annotations = Some(vec![(Symbol::from("f"), Variant::Symbol(Symbol::from(x.clone())))].into());
                        v.put(1, V::sym("f"), V::Sym(x));
                    }
                    6 => {
                        m.set_body(|b| b.set_data(Bytes::from(vec![4u8; n])));
                        v.data = vec![vbin(4)];
                    }
                    7 => {
                        m.set_body(|b| b.messages.push(TransferBody::Data(Bytes::from(vec![4u8; n]))));
                        v.nested = vec![vbin(4)];
                    }
                    8 => {
                        let mut i = Message::with_body(Bytes::from(vec![5u8; n]));
                        i.set_format(3);
                        let mut w = M::new();
                        w.data = vec![vbin(5)];
                        m.set_body(|b| b.messages.push(i.into()));
                        v.nested = vec![w.v()];
                    }
                    9 => {
                        m.body_mut().sequence.push(vec![bin(6), Variant::Null].into());
                        v.s[6] = V::List(vec![V::List(vec![vbin(6), V::Null])]);
                    }
                    10 => {
                        m.set_value(Variant::from(ByteString::from(x.clone())));
                        v.s[7] = V::List(vec![V::Str(x)]);
                    }
                    11 => {
                        m.set_properties(|p| {
                            p.user_id = Some(Bytes::from(vec![7u8; n]));
                        });
                        v.props()[1] = vbin(7);
                    }
                    12 => {
                        for i in 0..n {
                            m.set_app_property(Str::from(format!("{i}")), Variant::Null);
                            v.put(4, V::Str(format!("{i}")), V::Null);
                        }
                    }
                    13 => {
                        m.set_value(Variant::List(vec![Variant::Null; n].into()));
                        v.s[7] = V::List(vec![V::List(vec![V::Null; n])]);
                    }
                    14 => {
                        m.set_value(Variant::List(vec![Variant::List(vec![Variant::Boolean(true); n].into())].into()));
                        v.s[7] = V::List(vec![V::List(vec![V::List(vec![V::Bool(true); n])])]);
                    }
                    15 => {
                        let mut h = VariantMap::new(Default::default());
                        let mut w = vec![];
                        for i in 0..n {
                            h.map.insert(Variant::Ushort(i as u16), Variant::Null);
                            w.push((V::U16(i as u16), V::Null));
                        }
                        m.set_value(Variant::Map(h));
                        v.s[7] = V::List(vec![map(w)]);
                    }
                    16 => {
                        for i in 0..n.min(40) {
                            m.body_mut().data.push(Bytes::from(vec![i as u8; i]));
                            v.data.push(V::Bin(vec![i as u8; i]));
                        }
                    }
                    _ => {
                        let c = DescribedCompound::create(Descriptor::Ulong(n as u64), List::from(vec![Variant::Ubyte(1), bin(1)]));
                        m.set_value(Variant::Described((Descriptor::Symbol(Symbol::from(x.clone())), Box::new(Variant::DescribedCompound(c)))));
                        let w = V::Desc(Box::new(V::U64(n as u64)), Box::new(V::List(vec![V::U8(1), vbin(1)])));
                        v.s[7] = V::List(vec![V::Desc(Box::new(V::Sym(x)), Box::new(w))]);
                    }
                }
                (Some(check_msg(&m, &v, out)), format!("length {n} case {what}"))
            });
        }
    }
}

// ---------------------------------------------------------------- values

fn value<T: Encode + Decode + S>(x: &T, want: &V, out: &mut Vec<Found>) {
    let (size, enc) = reenc(x);
    if size != enc.len() {
        add(out, "encoded-size", format!("{} announces {size} bytes, writes {}", refc::show(want), enc.len()))
    }
    written(&enc, want, out);
    let mut b = Bytes::copy_from_slice(&enc);
    match T::decode(&mut b) {
        Ok(y) if y.s() == *want && b.is_empty() => {}
        Ok(y) => add(out, "encode-own", format!("{} encoded as {} is read back as {}", refc::show(want), hex(&enc), refc::show(&y.s()))),
        Err(e) => add(out, "encode-own", format!("{} encoded as {} is read back as {e:?}", refc::show(want), hex(&enc))),
    }
}

fn written(enc: &[u8], want: &V, out: &mut Vec<Found>) {
    let mut p = 0;
    let d = refc::dec(enc, &mut p, 0);
    let d = d.map(|d| sort(&d));
    if d.as_ref() != Ok(want) || p != enc.len() {
        add(out, "encode-value", format!("{} is encoded as {} which denotes {}", refc::show(want), hex(enc), d.map_or_else(|e| format!("{e:?}"), |d| refc::show(&d))))
    }
}

fn sort(v: &V) -> V {
    match v {
        V::Map(m) => map(m.iter().map(|(k, v)| (sort(k), sort(v))).collect()),
        V::List(l) => V::List(l.iter().map(sort).collect()),
        V::Arr(l) => V::Arr(l.iter().map(sort).collect()),
        V::Desc(d, v) => V::Desc(d.clone(), Box::new(sort(v))),
        v => v.clone(),
    }
}

/// of one element type: every value alone and in arrays of every length around the
/// limits, as vector, array, multiple field and inside a variant
fn elems<T>(all: Vec<T>, want: impl Fn(&T) -> V, wrap: impl Fn(T) -> Variant, thorough: bool, d: &mut Drv)
where
    T: Encode + ntex_amqp_codec::ArrayEncode + DecodeFormatted + S + Clone + PartialEq,
{
    for x in &all {
        d.any(|out| {
            let w = want(x);
            value(x, &w, out);
            value(&Some(x.clone()), &w, out);
            value(&wrap(x.clone()), &w, out);
            (Some(hash(&w)), refc::show(&w))
        });
    }
    let mut ns: Vec<usize> = (0..if thorough { 530 } else { 300 }).collect();
    ns.extend([1000, 70_000]);
    for n in ns {
        for off in 0..all.len().min(if n < 4 { 1000 } else if thorough { 8 } else { 2 }) {
            // strings of any length as elements of long arrays would only be large
            let l: Vec<T> = (0..n).map(|i| all[if n < 300 { (off + i) % all.len() } else { off }].clone()).collect();
            if n >= 300 && l[0].encoded_size() > 20 {
                continue;
            }
            d.any(|out| {
                let w = V::Arr(l.iter().map(&want).collect());
                let (size, enc) = reenc(&l);
                let head = || format!("array of {n} beginning with {}", l.first().map_or_else(String::new, |x| refc::show(&want(x))));
                if size != enc.len() {
                    add(out, "encoded-size", format!("{} announces {size} bytes, writes {}", head(), enc.len()))
                }
                if n < 2000 {
                    written(&enc, &w, out);
                }
                match Vec::<T>::decode(&mut Bytes::copy_from_slice(&enc)) {
                    Ok(y) if y == l => {}
                    Ok(_) => add(out, "encode-own", format!("{} is read back differently", head())),
                    Err(e) => add(out, "encode-own", format!("{} is read back as {e:?}", head())),
                }
                let a = Array::from(l.clone());
                let (s2, e2) = reenc(&a);
                if s2 != e2.len() {
                    add(out, "encoded-size", format!("{} as array announces {s2} bytes, writes {}", head(), e2.len()))
                }
                let mut p = 0;
                if n < 2000 && refc::dec(&e2, &mut p, 0).map(|d| sort(&d)).as_ref() != Ok(&w) {
                    add(out, "encode-value", format!("{} as array is encoded as {}", head(), hex(&e2)))
                }
                match a.decode::<T>() {
                    Ok(y) if y == l => {}
                    _ => add(out, "encode-own", format!("{} as array is not read back", head())),
                }
                match <Array as Decode>::decode(&mut Bytes::copy_from_slice(&e2)) {
                    Ok(y) if y == a => {}
                    _ => add(out, "encode-own", format!("{} as encoded array is not read back", head())),
                }
                // a field that may be repeated: one value stands for itself
                let m = Multiple(l.clone());
                let (s3, e3) = reenc(&m);
                if s3 != e3.len() {
                    add(out, "encoded-size", format!("{} as multiple announces {s3} bytes, writes {}", head(), e3.len()))
                }
                let mut p = 0;
                let dm = refc::dec(&e3, &mut p, 0).map(|d| sort(&d));
                if n < 2000 && !(dm.as_ref() == Ok(&w) || n == 1 && dm.as_ref() == Ok(&want(&l[0]))) {
                    add(out, "encode-value", format!("{} as multiple is encoded as {}", head(), hex(&e3)))
                }
                match Multiple::<T>::decode(&mut Bytes::copy_from_slice(&e3)) {
                    Ok(y) if y == m => {}
                    _ => add(out, "encode-own", format!("{} as multiple is not read back", head())),
                }
                (Some(hash(&w)), head())
            });
        }
    }
}

fn words(bits: u32) -> Vec<u64> {
    let mut o = vec![];
    for k in 0..=bits {
        let p = if k == 64 { 0 } else { 1u64 << k };
        for x in [p.wrapping_sub(2), p.wrapping_sub(1), p, p.wrapping_add(1)] {
            for x in [x, x.wrapping_neg()] {
                let x = if bits == 64 { x } else { x & ((1 << bits) - 1) };
                if !o.contains(&x) {
                    o.push(x)
                }
            }
        }
    }
    o
}

pub const TYPES: usize = 20;

pub fn types(t: usize, thorough: bool, d: &mut Drv) {
    use ntex_util::HashMap;
    let lens = || (0..20).chain(120..135).chain(245..262).chain(505..515).chain([65_535, 65_536]);
    macro_rules! int {
        ($t:ty, $bits:expr, $v:ident, $w:ident) => {
            elems(
                if $bits <= 16 { (0..=u16::MAX).take(1 << $bits).map(|x| x as $t).collect() } else { words($bits).into_iter().map(|x| x as $t).collect::<Vec<_>>() },
                |x| V::$v(*x),
                Variant::$w,
                thorough,
                d,
            )
        };
    }
    match t {
        0 => elems(vec![true, false], |x| V::Bool(*x), Variant::Boolean, thorough, d),
        1 => int!(u8, 8, U8, Ubyte),
        2 => int!(u16, 16, U16, Ushort),
        3 => int!(u32, 32, U32, Uint),
        4 => int!(u64, 64, U64, Ulong),
        5 => int!(i8, 8, I8, Byte),
        6 => int!(i16, 16, I16, Short),
        7 => int!(i32, 32, I32, Int),
        8 => int!(i64, 64, I64, Long),
        9 => elems(
            words(32).into_iter().map(|x| f32::from_bits(x as u32)).filter(|x| !x.is_nan()).collect(),
            |x| V::F32(x.to_bits()),
            |x| Variant::Float(x.into()),
            thorough,
            d,
        ),
        10 => elems(
            words(64).into_iter().map(f64::from_bits).filter(|x| !x.is_nan()).collect(),
            |x| V::F64(x.to_bits()),
            |x| Variant::Double(x.into()),
            thorough,
            d,
        ),
        11 => elems(
            words(21).into_iter().filter_map(|x| char::from_u32(x as u32)).collect(),
            |x| V::Char(*x as u32),
            Variant::Char,
            thorough,
            d,
        ),
        12 => elems(
            words(64).into_iter().filter_map(|x| Timestamp::from_timestamp_millis(x as i64)).collect(),
            |x| V::Ts(x.timestamp_millis()),
            Variant::Timestamp,
            thorough,
            d,
        ),
        13 => elems(
            (0..=255u8).map(|i| uuid::Uuid::from_bytes(std::array::from_fn(|k| i.wrapping_mul(k as u8 + 1)))).collect(),
            |x| V::Uuid(*x.as_bytes()),
            Variant::Uuid,
            thorough,
            d,
        ),
        14 => elems(
            lens().map(|n| Bytes::from((0..n).map(|i| i as u8).collect::<Vec<u8>>())).collect(),
            |x| V::Bin(x.to_vec()),
            Variant::Binary,
            thorough,
            d,
        ),
        15 => elems(
            lens().map(|n| ByteString::from("\u{e9}".repeat(n / 2) + &"a".repeat(n % 2))).collect(),
            |x| V::str(x.as_ref()),
            |x| Variant::String(x.into()),
            thorough,
            d,
        ),
        16 => elems(
            lens().map(|n| Symbol::from("s".repeat(n))).collect(),
            |x| V::sym(x.as_str()),
            Variant::Symbol,
            thorough,
            d,
        ),
        17 => {
            for n in lens() {
                d.any(|out| {
                    let x = "t".repeat(n);
                    let w = V::Str(x.clone());
                    value(&Str::from(x.clone()), &w, out);
                    let (s1, e1) = reenc(x.as_str());
                    if s1 != e1.len() {
                        add(out, "encoded-size", format!("str of {n} announces {s1} bytes, writes {}", e1.len()))
                    }
                    written(&e1, &w, out);
                    let st: &'static str = Box::leak(x.clone().into_boxed_str());
                    let (s2, e2) = reenc(&StaticSymbol::new(st));
                    if s2 != e2.len() {
                        add(out, "encoded-size", format!("static symbol of {n} announces {s2} bytes, writes {}", e2.len()))
                    }
                    written(&e2, &V::Sym(x), out);
                    (Some(hash(&w)), format!("string of {n}"))
                });
            }
            for n in words(64) {
                d.any(|out| {
                    let w = V::U64(n);
                    value(&Descriptor::Ulong(n), &V::Desc(Box::new(w.clone()), Box::new(V::Null)), &mut vec![]);
                    let (s1, e1) = reenc(&Variant::Described((Descriptor::Ulong(n), Box::new(Variant::Uint(n as u32)))));
                    if s1 != e1.len() {
                        add(out, "encoded-size", format!("value described {n} announces {s1} bytes, writes {}", e1.len()))
                    }
                    written(&e1, &V::desc(n, V::U32(n as u32)), out);
                    (Some(hash(&w)), format!("descriptor {n}"))
                });
            }
        }
        18 => {
            // maps as elements of arrays
            for n in (0..4).chain(120..132).chain(250..260) {
                for k in 0..3usize {
                    d.any(|out| {
                        let l: Vec<StdMap<Symbol, Variant>> = (0..n).map(|i| (0..k).map(|j| (Symbol::from(format!("{i}.{j}")), Variant::Uint(j as u32))).collect()).collect();
                        let w = V::Arr(l.iter().map(|m| map(m.iter().map(|(k, v)| (k.s(), v.s())).collect())).collect());
                        for (s1, e1) in [reenc(&l), reenc(&Array::from(l.clone()))] {
                            if s1 != e1.len() {
                                add(out, "encoded-size", format!("array of {n} maps announces {s1} bytes, writes {}", e1.len()))
                            }
                            written(&e1, &w, out);
                        }
                        (Some(hash(&w)), format!("{n} maps of {k}"))
                    });
                }
            }
        }
        _ => {
            // described compound values made from every kind of value
            for n in 0..320usize {
                for k in 0..6 {
                    d.any(|out| {
                        let ds = [Descriptor::Ulong(n as u64), Descriptor::Symbol(Symbol::from("d".repeat(n)))];
                        let vs = [V::U64(n as u64), V::Sym("d".repeat(n))];
                        let (dd, vd) = (ds[k % 2].clone(), vs[k % 2].clone());
                        let bytes = Bytes::from(vec![1u8; n]);
                        let (c, v) = match k / 2 {
                            0 => (
                                DescribedCompound::create(dd, List::from(vec![Variant::Binary(bytes)])),
                                V::List(vec![V::Bin(vec![1; n])]),
                            ),
                            1 => (
                                DescribedCompound::create(dd, [(Symbol::from("k"), Variant::Binary(bytes))].into_iter().collect::<HashMap<_, _>>()),
                                V::Map(vec![(V::sym("k"), V::Bin(vec![1; n]))]),
                            ),
                            _ => (DescribedCompound::create(dd, vec![7u8; n]), V::Arr(vec![V::U8(7); n])),
                        };
                        let w = V::Desc(Box::new(vd), Box::new(v));
                        value(&Variant::DescribedCompound(c.clone()), &w, out);
                        if c.decode::<Variant>().map(|x| V::Desc(Box::new(c.descriptor().s()), Box::new(x.s()))).as_ref().ok() != Some(&w) {
                            add(out, "encode-own", format!("{} is not read back from the described value", refc::show(&w)))
                        }
                        (Some(hash(&w)), format!("described compound {n} {k}"))
                    });
                }
            }
        }
    }
}
