//! Independent reference AMQP 1.0 codec, written from the specification
//! (OASIS AMQP 1.0 part 1 and 2).  Used as the peer and as the oracle.
#![allow(dead_code)]

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    D32([u8; 4]),
    D64([u8; 8]),
    D128([u8; 16]),
    Char(u32),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<V>),
    Map(Vec<(V, V)>),
    Arr(Vec<V>),
    Desc(Box<V>, Box<V>),
}

impl V {
    pub fn sym(s: &str) -> V {
        V::Sym(s.into())
    }
    pub fn str(s: &str) -> V {
        V::Str(s.into())
    }
    pub fn desc(code: u64, v: V) -> V {
        V::Desc(Box::new(V::U64(code)), Box::new(v))
    }
    pub fn dlist(code: u64, v: Vec<V>) -> V {
        V::desc(code, V::List(v))
    }
    pub fn u32(&self) -> Option<u32> {
        match self {
            V::U32(v) => Some(*v),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
}

/// wire constructor preference
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Small,
    Large,
}

fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(b)
}

pub fn enc(v: &V, o: &mut Vec<u8>) {
    enc_f(v, Form::Small, o)
}

pub fn enc_f(v: &V, f: Form, o: &mut Vec<u8>) {
    let small = f == Form::Small;
    match v {
        V::Null => o.push(0x40),
        V::Bool(b) => {
            if small {
                o.push(if *b { 0x41 } else { 0x42 })
            } else {
                put(o, &[0x56, *b as u8])
            }
        }
        V::U8(x) => put(o, &[0x50, *x]),
        V::U16(x) => {
            o.push(0x60);
            put(o, &x.to_be_bytes())
        }
        V::U32(x) => {
            if small && *x == 0 {
                o.push(0x43)
            } else if small && *x < 256 {
                put(o, &[0x52, *x as u8])
            } else {
                o.push(0x70);
                put(o, &x.to_be_bytes())
            }
        }
        V::U64(x) => {
            if small && *x == 0 {
                o.push(0x44)
            } else if small && *x < 256 {
                put(o, &[0x53, *x as u8])
            } else {
                o.push(0x80);
                put(o, &x.to_be_bytes())
            }
        }
        V::I8(x) => put(o, &[0x51, *x as u8]),
        V::I16(x) => {
            o.push(0x61);
            put(o, &x.to_be_bytes())
        }
        V::I32(x) => {
            if small && (-128..128).contains(x) {
                put(o, &[0x54, *x as i8 as u8])
            } else {
                o.push(0x71);
                put(o, &x.to_be_bytes())
            }
        }
        V::I64(x) => {
            if small && (-128..128).contains(x) {
                put(o, &[0x55, *x as i8 as u8])
            } else {
                o.push(0x81);
                put(o, &x.to_be_bytes())
            }
        }
        V::F32(x) => {
            o.push(0x72);
            put(o, &x.to_be_bytes())
        }
        V::F64(x) => {
            o.push(0x82);
            put(o, &x.to_be_bytes())
        }
        V::D32(b) => {
            o.push(0x74);
            put(o, b)
        }
        V::D64(b) => {
            o.push(0x84);
            put(o, b)
        }
        V::D128(b) => {
            o.push(0x94);
            put(o, b)
        }
        V::Char(x) => {
            o.push(0x73);
            put(o, &x.to_be_bytes())
        }
        V::Ts(x) => {
            o.push(0x83);
            put(o, &x.to_be_bytes())
        }
        V::Uuid(b) => {
            o.push(0x98);
            put(o, b)
        }
        V::Bin(b) => var(o, 0xa0, b, small),
        V::Str(s) => var(o, 0xa1, s.as_bytes(), small),
        V::Sym(s) => var(o, 0xa3, s.as_bytes(), small),
        V::List(l) => {
            if small && l.is_empty() {
                o.push(0x45);
                return;
            }
            let mut b = Vec::new();
            l.iter().for_each(|x| enc_f(x, f, &mut b));
            compound(o, 0xc0, &b, l.len(), small)
        }
        V::Map(m) => {
            let mut b = Vec::new();
            m.iter().for_each(|(k, x)| {
                enc_f(k, f, &mut b);
                enc_f(x, f, &mut b)
            });
            compound(o, 0xc1, &b, m.len() * 2, small)
        }
        V::Arr(l) => {
            // all elements share the first element's large constructor
            let mut b = Vec::new();
            for (i, x) in l.iter().enumerate() {
                let mut e = Vec::new();
                enc_f(x, Form::Large, &mut e);
                if i == 0 {
                    b.extend_from_slice(&e)
                } else {
                    b.extend_from_slice(&e[ctor_len(&e)..])
                }
            }
            if l.is_empty() {
                b.push(0x40)
            }
            compound(o, 0xe0, &b, l.len(), small)
        }
        V::Desc(d, x) => {
            o.push(0);
            enc_f(d, f, o);
            enc_f(x, f, o)
        }
    }
}

fn ctor_len(e: &[u8]) -> usize {
    if e[0] == 0 {
        // described: descriptor value + ctor
        let mut p = 1;
        let _ = dec(e, &mut p, 0).unwrap();
        p + ctor_len(&e[p..])
    } else {
        1
    }
}

fn var(o: &mut Vec<u8>, c: u8, b: &[u8], small: bool) {
    if small && b.len() < 256 {
        o.push(c);
        o.push(b.len() as u8)
    } else {
        o.push(c + 0x10);
        put(o, &(b.len() as u32).to_be_bytes())
    }
    put(o, b)
}

fn compound(o: &mut Vec<u8>, c: u8, b: &[u8], n: usize, small: bool) {
    if small && b.len() + 1 < 256 && n < 256 {
        put(o, &[c, (b.len() + 1) as u8, n as u8])
    } else {
        o.push(c + 0x10);
        put(o, &((b.len() + 4) as u32).to_be_bytes());
        put(o, &(n as u32).to_be_bytes())
    }
    put(o, b)
}

pub type R<T> = Result<T, &'static str>;

fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> R<&'a [u8]> {
    if b.len() - *p < n {
        return Err("eof");
    }
    let r = &b[*p..*p + n];
    *p += n;
    Ok(r)
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    b.try_into().unwrap()
}

pub fn dec(b: &[u8], p: &mut usize, depth: usize) -> R<V> {
    if depth > 64 {
        return Err("depth");
    }
    let c = take(b, p, 1)?[0];
    if c == 0 {
        let d = dec(b, p, depth + 1)?;
        let v = dec(b, p, depth + 1)?;
        return Ok(V::Desc(Box::new(d), Box::new(v)));
    }
    dec_c(c, b, p, depth)
}

pub fn dec_c(c: u8, b: &[u8], p: &mut usize, depth: usize) -> R<V> {
    if depth > 64 {
        return Err("depth");
    }
    Ok(match c {
        0x40 => V::Null,
        0x41 => V::Bool(true),
        0x42 => V::Bool(false),
        0x56 => match take(b, p, 1)?[0] {
            0 => V::Bool(false),
            1 => V::Bool(true),
            _ => return Err("bool"),
        },
        0x50 => V::U8(take(b, p, 1)?[0]),
        0x60 => V::U16(be(take(b, p, 2)?) as u16),
        0x70 => V::U32(be(take(b, p, 4)?) as u32),
        0x52 => V::U32(take(b, p, 1)?[0] as u32),
        0x43 => V::U32(0),
        0x80 => V::U64(be(take(b, p, 8)?)),
        0x53 => V::U64(take(b, p, 1)?[0] as u64),
        0x44 => V::U64(0),
        0x51 => V::I8(take(b, p, 1)?[0] as i8),
        0x61 => V::I16(be(take(b, p, 2)?) as i16),
        0x71 => V::I32(be(take(b, p, 4)?) as i32),
        0x54 => V::I32(take(b, p, 1)?[0] as i8 as i32),
        0x81 => V::I64(be(take(b, p, 8)?) as i64),
        0x55 => V::I64(take(b, p, 1)?[0] as i8 as i64),
        0x72 => V::F32(be(take(b, p, 4)?) as u32),
        0x82 => V::F64(be(take(b, p, 8)?)),
        0x74 => V::D32(arr(take(b, p, 4)?)),
        0x84 => V::D64(arr(take(b, p, 8)?)),
        0x94 => V::D128(arr(take(b, p, 16)?)),
        0x73 => V::Char(be(take(b, p, 4)?) as u32),
        0x83 => V::Ts(be(take(b, p, 8)?) as i64),
        0x98 => V::Uuid(arr(take(b, p, 16)?)),
        0xa0 | 0xb0 | 0xa1 | 0xb1 | 0xa3 | 0xb3 => {
            let n = be(take(b, p, if c < 0xb0 { 1 } else { 4 })?) as usize;
            let d = take(b, p, n)?.to_vec();
            match c & 0xf {
                0 => V::Bin(d),
                1 => V::Str(String::from_utf8(d).map_err(|_| "utf8")?),
                _ => {
                    if !d.is_ascii() {
                        return Err("sym");
                    }
                    V::Sym(String::from_utf8(d).map_err(|_| "utf8")?)
                }
            }
        }
        0x45 => V::List(vec![]),
        0xc0 | 0xd0 | 0xc1 | 0xd1 | 0xe0 | 0xf0 => {
            let w = if c == 0xc0 || c == 0xc1 || c == 0xe0 { 1 } else { 4 };
            let size = be(take(b, p, w)?) as usize;
            if size < w {
                return Err("size");
            }
            let body = take(b, p, size)?;
            let mut q = 0;
            let n = be(take(body, &mut q, w)?) as usize;
            let r = match c & 0xf1 {
                0xc0 | 0xd0 => {
                    let mut l = vec![];
                    for _ in 0..n {
                        l.push(dec(body, &mut q, depth + 1)?)
                    }
                    V::List(l)
                }
                0xc1 | 0xd1 => {
                    if n % 2 != 0 {
                        return Err("odd map");
                    }
                    let mut l = vec![];
                    for _ in 0..n / 2 {
                        let k = dec(body, &mut q, depth + 1)?;
                        let v = dec(body, &mut q, depth + 1)?;
                        l.push((k, v))
                    }
                    V::Map(l)
                }
                _ => {
                    let ec = take(body, &mut q, 1)?[0];
                    let mut l = vec![];
                    // elements without any bytes: not judged beyond a sane number
                    if n > 65535 && n > body.len() {
                        return Err("array too big");
                    }
                    if ec == 0 {
                        let d = dec(body, &mut q, depth + 1)?;
                        let ic = take(body, &mut q, 1)?[0];
                        for _ in 0..n {
                            let v = dec_c(ic, body, &mut q, depth + 1)?;
                            l.push(V::Desc(Box::new(d.clone()), Box::new(v)))
                        }
                    } else {
                        for _ in 0..n {
                            l.push(dec_c(ec, body, &mut q, depth + 1)?)
                        }
                    }
                    V::Arr(l)
                }
            };
            if q != body.len() {
                return Err("trailing bytes in compound");
            }
            r
        }
        _ => return Err("ctor"),
    })
}

/// A decoded performative with its payload.
#[derive(Clone, Debug, PartialEq)]
pub struct Perf {
    pub code: u64,
    pub f: Vec<V>,
    pub payload: Vec<u8>,
}

pub const OPEN: u64 = 0x10;
pub const BEGIN: u64 = 0x11;
pub const ATTACH: u64 = 0x12;
pub const FLOW: u64 = 0x13;
pub const TRANSFER: u64 = 0x14;
pub const DISPOSITION: u64 = 0x15;
pub const DETACH: u64 = 0x16;
pub const END: u64 = 0x17;
pub const CLOSE: u64 = 0x18;
pub const ERROR: u64 = 0x1d;
pub const RECEIVED: u64 = 0x23;
pub const ACCEPTED: u64 = 0x24;
pub const REJECTED: u64 = 0x25;
pub const RELEASED: u64 = 0x26;
pub const MODIFIED: u64 = 0x27;
pub const SOURCE: u64 = 0x28;
pub const TARGET: u64 = 0x29;
pub const SASL_MECHS: u64 = 0x40;
pub const SASL_INIT: u64 = 0x41;
pub const SASL_CHALLENGE: u64 = 0x42;
pub const SASL_RESPONSE: u64 = 0x43;
pub const SASL_OUTCOME: u64 = 0x44;

pub fn name(code: u64) -> &'static str {
    match code {
        OPEN => "Open",
        BEGIN => "Begin",
        ATTACH => "Attach",
        FLOW => "Flow",
        TRANSFER => "Transfer",
        DISPOSITION => "Disposition",
        DETACH => "Detach",
        END => "End",
        CLOSE => "Close",
        SASL_MECHS => "SaslMechanisms",
        SASL_INIT => "SaslInit",
        SASL_CHALLENGE => "SaslChallenge",
        SASL_RESPONSE => "SaslResponse",
        SASL_OUTCOME => "SaslOutcome",
        _ => "?",
    }
}

impl Perf {
    pub fn new(code: u64, f: Vec<V>) -> Perf {
        Perf { code, f, payload: vec![] }
    }
    pub fn get(&self, i: usize) -> &V {
        self.f.get(i).unwrap_or(&V::Null)
    }
    pub fn u32(&self, i: usize) -> Option<u32> {
        self.get(i).u32()
    }
    pub fn bool(&self, i: usize) -> Option<bool> {
        match self.get(i) {
            V::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        let mut s = format!("{}{{", name(self.code));
        let mut last = self.f.len();
        while last > 0 && self.f[last - 1].is_null() {
            last -= 1
        }
        for (i, v) in self.f[..last].iter().enumerate() {
            if !v.is_null() {
                s.push_str(&format!("{i}:{} ", show(v)))
            }
        }
        s.push('}');
        if !self.payload.is_empty() {
            s.push_str(&format!("+{}b", self.payload.len()))
        }
        s
    }
}

pub fn show(v: &V) -> String {
    match v {
        V::Null => "-".into(),
        V::Bool(b) => b.to_string(),
        V::U8(x) => x.to_string(),
        V::U16(x) => x.to_string(),
        V::U32(x) => x.to_string(),
        V::U64(x) => x.to_string(),
        V::Str(s) => format!("{s:?}"),
        V::Sym(s) => format!(":{s}"),
        V::Bin(b) => format!("x{}", b.iter().map(|b| format!("{b:02x}")).collect::<String>()),
        V::List(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(",")),
        V::Desc(d, v) => match (&**d, &**v) {
            (V::U64(c), V::List(l)) => {
                format!("{c:#x}({})", l.iter().map(show).collect::<Vec<_>>().join(","))
            }
            _ => format!("{}<{}>", show(d), show(v)),
        },
        v => format!("{v:?}"),
    }
}

pub const AMQP_HDR: [u8; 8] = *b"AMQP\x00\x01\x00\x00";
pub const SASL_HDR: [u8; 8] = *b"AMQP\x03\x01\x00\x00";
pub const TLS_HDR: [u8; 8] = *b"AMQP\x02\x01\x00\x00";

pub fn frame_bytes(typ: u8, ch: u16, body: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(body.len() + 8);
    put(&mut o, &((body.len() + 8) as u32).to_be_bytes());
    put(&mut o, &[2, typ]);
    put(&mut o, &ch.to_be_bytes());
    put(&mut o, body);
    o
}

pub fn perf_bytes(p: &Perf, form: Form) -> Vec<u8> {
    let mut f = p.f.clone();
    if form == Form::Small {
        while matches!(f.last(), Some(V::Null)) {
            f.pop();
        }
    }
    let mut b = Vec::new();
    enc_f(&V::dlist(p.code, f), form, &mut b);
    b.extend_from_slice(&p.payload);
    b
}

pub fn frame(ch: u16, p: &Perf) -> Vec<u8> {
    frame_bytes(0, ch, &perf_bytes(p, Form::Small))
}
pub fn sasl_frame(p: &Perf) -> Vec<u8> {
    frame_bytes(1, 0, &perf_bytes(p, Form::Small))
}

/// One item of an output byte stream
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Header([u8; 8]),
    Empty(u16),
    Frame(u8, u16, Perf, usize),
    Bad(&'static str),
}

/// Split next item off `b`
pub fn next_item(b: &mut Vec<u8>) -> Option<Item> {
    if b.len() < 8 {
        return None;
    }
    if &b[..4] == b"AMQP" {
        let h: [u8; 8] = b[..8].try_into().unwrap();
        b.drain(..8);
        return Some(Item::Header(h));
    }
    let size = be(&b[..4]) as usize;
    if size < 8 {
        b.clear();
        return Some(Item::Bad("frame size < 8"));
    }
    if b.len() < size {
        return None;
    }
    let f: Vec<u8> = b.drain(..size).collect();
    let doff = f[4] as usize * 4;
    if doff < 8 || doff > size {
        return Some(Item::Bad("doff"));
    }
    let ch = be(&f[6..8]) as u16;
    let body = &f[doff..];
    if body.is_empty() {
        return Some(Item::Empty(ch));
    }
    let mut p = 0;
    match dec(body, &mut p, 0) {
        Ok(V::Desc(d, v)) => match (*d, *v) {
            (V::U64(code), V::List(fl)) => Some(Item::Frame(
                f[5],
                ch,
                Perf { code, f: fl, payload: body[p..].to_vec() },
                size,
            )),
            _ => Some(Item::Bad("not a described list")),
        },
        Ok(_) => Some(Item::Bad("not described")),
        Err(e) => Some(Item::Bad(e)),
    }
}
