//! The codec against the specification: what a byte string denotes (`norm` on top
//! of the reference decoder), what the library made of it (`S`), and the judge.
use std::panic::AssertUnwindSafe;

use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, Message, SaslFrame};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::Decoder;

use crate::refc::{self, V};

// ---------------------------------------------------------------- library -> V

pub trait S {
    fn s(&self) -> V;
}
impl<T: S + ?Sized> S for &T {
    fn s(&self) -> V {
        (**self).s()
    }
}
impl<T: S> S for Option<T> {
    fn s(&self) -> V {
        self.as_ref().map_or(V::Null, |v| v.s())
    }
}
macro_rules! prim {
    ($($t:ty => |$x:ident| $e:expr),* $(,)?) => { $(impl S for $t { fn s(&self) -> V { let $x = self; $e } })* };
}
prim! {
    bool => |x| V::Bool(*x), u8 => |x| V::U8(*x), u16 => |x| V::U16(*x), u32 => |x| V::U32(*x), u64 => |x| V::U64(*x),
    i8 => |x| V::I8(*x), i16 => |x| V::I16(*x), i32 => |x| V::I32(*x), i64 => |x| V::I64(*x),
    f32 => |x| V::F32(x.to_bits()), f64 => |x| V::F64(x.to_bits()), char => |x| V::Char(*x as u32),
    str => |x| V::Str(x.into()),
    ByteString => |x| V::Str(x.as_str().into()),
    Str => |x| V::Str(x.as_str().into()),
    Symbol => |x| V::Sym(x.as_str().into()),
    Bytes => |x| V::Bin(x.to_vec()),
    Timestamp => |x| V::Ts(x.timestamp_millis()),
    uuid::Uuid => |x| V::Uuid(*x.as_bytes()),
    List => |x| V::List(x.0.iter().map(|v| v.s()).collect()),
    VecSymbolMap => |x| map(x.0.iter().map(|(k, v)| (k.s(), v.s())).collect()),
    VecStringMap => |x| map(x.0.iter().map(|(k, v)| (k.s(), v.s())).collect()),
    VariantMap => |x| map(x.map.iter().map(|(k, v)| (k.s(), v.s())).collect()),
    Map => |x| map(x.iter().map(|(k, v)| (k.s(), v.s())).collect()),
    Fields => |x| map(x.iter().map(|(k, v)| (k.s(), v.s())).collect()),
    FilterSet => |x| map(x.iter().map(|(k, v)| (k.s(), v.s())).collect()),
    Role => |x| V::Bool(matches!(x, Role::Receiver)),
    SenderSettleMode => |x| V::U8(match x { SenderSettleMode::Unsettled => 0, SenderSettleMode::Settled => 1, SenderSettleMode::Mixed => 2 }),
    ReceiverSettleMode => |x| V::U8(match x { ReceiverSettleMode::First => 0, ReceiverSettleMode::Second => 1 }),
    TerminusDurability => |x| V::U32(match x { TerminusDurability::None => 0, TerminusDurability::Configuration => 1, TerminusDurability::UnsettledState => 2 }),
    TerminusExpiryPolicy => |x| V::sym(match x { TerminusExpiryPolicy::LinkDetach => "link-detach", TerminusExpiryPolicy::SessionEnd => "session-end", TerminusExpiryPolicy::ConnectionClose => "connection-close", TerminusExpiryPolicy::Never => "never" }),
    SaslCode => |x| V::U8(match x { SaslCode::Ok => 0, SaslCode::Auth => 1, SaslCode::Sys => 2, SaslCode::SysPerm => 3, SaslCode::SysTemp => 4 }),
    DistributionMode => |x| match x { DistributionMode::Move => V::sym("move"), DistributionMode::Copy => V::sym("copy"), DistributionMode::Custom(s) => s.s() },
    MessageId => |x| match x { MessageId::Ulong(v) => V::U64(*v), MessageId::Uuid(v) => v.s(), MessageId::Binary(v) => v.s(), MessageId::String(v) => v.s() },
    ErrorCondition => |x| match x {
        ErrorCondition::AmqpError(e) => V::sym(match e {
            AmqpError::InternalError => "amqp:internal-error", AmqpError::NotFound => "amqp:not-found",
            AmqpError::UnauthorizedAccess => "amqp:unauthorized-access", AmqpError::DecodeError => "amqp:decode-error",
            AmqpError::ResourceLimitExceeded => "amqp:resource-limit-exceeded", AmqpError::NotAllowed => "amqp:not-allowed",
            AmqpError::InvalidField => "amqp:invalid-field", AmqpError::NotImplemented => "amqp:not-implemented",
            AmqpError::ResourceLocked => "amqp:resource-locked", AmqpError::PreconditionFailed => "amqp:precondition-failed",
            AmqpError::ResourceDeleted => "amqp:resource-deleted", AmqpError::IllegalState => "amqp:illegal-state",
            AmqpError::FrameSizeTooSmall => "amqp:frame-size-too-small",
        }),
        ErrorCondition::ConnectionError(e) => V::sym(match e {
            ConnectionError::ConnectionForced => "amqp:connection:forced", ConnectionError::FramingError => "amqp:connection:framing-error",
            ConnectionError::Redirect => "amqp:connection:redirect",
        }),
        ErrorCondition::SessionError(e) => V::sym(match e {
            SessionError::WindowViolation => "amqp:session:window-violation", SessionError::ErrantLink => "amqp:session:errant-link",
            SessionError::HandleInUse => "amqp:session:handle-in-use", SessionError::UnattachedHandle => "amqp:session:unattached-handle",
        }),
        ErrorCondition::LinkError(e) => V::sym(match e {
            LinkError::DetachForced => "amqp:link:detach-forced", LinkError::TransferLimitExceeded => "amqp:link:transfer-limit-exceeded",
            LinkError::MessageSizeExceeded => "amqp:link:message-size-exceeded", LinkError::Redirect => "amqp:link:redirect",
            LinkError::Stolen => "amqp:link:stolen",
        }),
        ErrorCondition::Custom(s) => s.s(),
    },
    DeliveryState => |x| match x { DeliveryState::Received(v) => v.s(), DeliveryState::Accepted(v) => v.s(), DeliveryState::Rejected(v) => v.s(), DeliveryState::Released(v) => v.s(), DeliveryState::Modified(v) => v.s() },
    Outcome => |x| match x { Outcome::Accepted(v) => v.s(), Outcome::Rejected(v) => v.s(), Outcome::Released(v) => v.s(), Outcome::Modified(v) => v.s() },
    Descriptor => |x| match x { Descriptor::Ulong(v) => V::U64(*v), Descriptor::Symbol(s) => s.s() },
}

impl<T: S> S for Multiple<T> {
    fn s(&self) -> V {
        V::Arr(self.0.iter().map(|v| v.s()).collect())
    }
}

pub const LAZY: &str = "<not decodable>";

thread_local! {
    static LAZY_DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// what is decoded on demand may be nested without limit
fn deeper(f: impl FnOnce() -> V) -> V {
    LAZY_DEPTH.with(|d| {
        if d.get() > 100 {
            return V::sym(LAZY);
        }
        d.set(d.get() + 1);
        let r = f();
        d.set(d.get() - 1);
        r
    })
}

impl S for Array {
    fn s(&self) -> V {
        deeper(|| self.items())
    }
}

trait Items {
    fn items(&self) -> V;
}

impl Items for Array {
    fn items(&self) -> V {
        let Ok(l) = self.decode::<Variant>() else { return V::sym(LAZY) };
        V::Arr(
            l.iter()
                .map(|v| match self.element_constructor().descriptor() {
                    Some(d) => V::Desc(Box::new(d.s()), Box::new(v.s())),
                    None => v.s(),
                })
                .collect(),
        )
    }
}

impl S for Variant {
    fn s(&self) -> V {
        match self {
            Variant::Null => V::Null,
            Variant::Boolean(x) => V::Bool(*x),
            Variant::Ubyte(x) => V::U8(*x),
            Variant::Ushort(x) => V::U16(*x),
            Variant::Uint(x) => V::U32(*x),
            Variant::Ulong(x) => V::U64(*x),
            Variant::Byte(x) => V::I8(*x),
            Variant::Short(x) => V::I16(*x),
            Variant::Int(x) => V::I32(*x),
            Variant::Long(x) => V::I64(*x),
            Variant::Float(x) => V::F32(x.0.to_bits()),
            Variant::Double(x) => V::F64(x.0.to_bits()),
            Variant::Decimal32(x) => V::D32(*x),
            Variant::Decimal64(x) => V::D64(*x),
            Variant::Decimal128(x) => V::D128(*x),
            Variant::Char(x) => V::Char(*x as u32),
            Variant::Timestamp(x) => x.s(),
            Variant::Uuid(x) => x.s(),
            Variant::Binary(x) => x.s(),
            Variant::String(x) => x.s(),
            Variant::Symbol(x) => x.s(),
            Variant::List(x) => x.s(),
            Variant::Map(x) => x.s(),
            Variant::Array(x) => x.s(),
            Variant::Described((d, v)) => V::Desc(Box::new(d.s()), Box::new(v.s())),
            Variant::DescribedCompound(c) => deeper(|| match c.decode::<Variant>() {
                Ok(v) => V::Desc(Box::new(c.descriptor().s()), Box::new(v.s())),
                Err(_) => V::sym(LAZY),
            }),
        }
    }
}

pub fn map(mut m: Vec<(V, V)>) -> V {
    m.sort_by_cached_key(|(k, _)| {
        let mut b = vec![];
        refc::enc(k, &mut b);
        b
    });
    V::Map(m)
}

/// a field as the builder takes it
trait Opt<T> {
    fn opt(&self) -> Option<T>;
}
impl<T: Clone> Opt<T> for Option<T> {
    fn opt(&self) -> Option<T> {
        self.clone()
    }
}
impl<T: Clone> Opt<T> for T {
    fn opt(&self) -> Option<T> {
        Some(self.clone())
    }
}

pub const DIFFER: &str = "<accessors disagree with the fields>";

/// fields read directly, through the accessor methods, set through the mutable
/// accessors and through the builder must agree
macro_rules! comp {
    ($t:ident, $code:expr, $i:ident, |$x:ident| $e:expr, [$($f:ident : $m:ident),*] $(body $body:ident)?) => {
        impl S for $t {
            #[allow(unused_variables, unused_mut)]
            fn s(&self) -> V {
                let $x = self;
                let $i { $($f,)* $($body)? } = $e;
                let mut a: Vec<V> = vec![$($f.s()),*];
                let mut b: Vec<V> = vec![$(self.$f().s()),*];
                $(a.push($body.s()); b.push(self.$body().s());)?
                let mut y = $t::default();
                $(*y.$m() = Clone::clone($f);)*
                $(y.0.$body = Clone::clone($body);)?
                if a != b || y != *self || !self.built() {
                    return V::sym(DIFFER);
                }
                V::dlist($code, a)
            }
        }
    };
}

trait Built {
    fn built(&self) -> bool {
        true
    }
}
macro_rules! built {
    ($t:ident, [$($f:ident),*]) => {
        impl Built for $t {
            fn built(&self) -> bool {
                let mut z = $t::build();
                $(if let Some(v) = Opt::opt(&self.0.$f) { z = z.$f(v) })*
                z.finish() == *self
            }
        }
    };
}

comp!(Error, 0x1d, ErrorInner, |x| &*x.0, [condition: condition_mut, description: description_mut, info: info_mut]);
comp!(Open, 0x10, OpenInner, |x| &*x.0, [container_id: container_id_mut, hostname: hostname_mut, max_frame_size: max_frame_size_mut, channel_max: channel_max_mut, idle_time_out: idle_time_out_mut, outgoing_locales: outgoing_locales_mut, incoming_locales: incoming_locales_mut, offered_capabilities: offered_capabilities_mut, desired_capabilities: desired_capabilities_mut, properties: properties_mut]);
comp!(Begin, 0x11, BeginInner, |x| &*x.0, [remote_channel: remote_channel_mut, next_outgoing_id: next_outgoing_id_mut, incoming_window: incoming_window_mut, outgoing_window: outgoing_window_mut, handle_max: handle_max_mut, offered_capabilities: offered_capabilities_mut, desired_capabilities: desired_capabilities_mut, properties: properties_mut]);
comp!(Attach, 0x12, AttachInner, |x| &*x.0, [name: name_mut, handle: handle_mut, role: role_mut, snd_settle_mode: snd_settle_mode_mut, rcv_settle_mode: rcv_settle_mode_mut, source: source_mut, target: target_mut, unsettled: unsettled_mut, incomplete_unsettled: incomplete_unsettled_mut, initial_delivery_count: initial_delivery_count_mut, max_message_size: max_message_size_mut, offered_capabilities: offered_capabilities_mut, desired_capabilities: desired_capabilities_mut, properties: properties_mut]);
comp!(Flow, 0x13, FlowInner, |x| &*x.0, [next_incoming_id: next_incoming_id_mut, incoming_window: incoming_window_mut, next_outgoing_id: next_outgoing_id_mut, outgoing_window: outgoing_window_mut, handle: handle_mut, delivery_count: delivery_count_mut, link_credit: link_credit_mut, available: available_mut, drain: drain_mut, echo: echo_mut, properties: properties_mut]);
comp!(Transfer, 0x14, TransferInner, |x| &*x.0, [handle: handle_mut, delivery_id: delivery_id_mut, delivery_tag: delivery_tag_mut, message_format: message_format_mut, settled: settled_mut, more: more_mut, rcv_settle_mode: rcv_settle_mode_mut, state: state_mut, resume: resume_mut, aborted: aborted_mut, batchable: batchable_mut] body body);
comp!(Disposition, 0x15, DispositionInner, |x| &*x.0, [role: role_mut, first: first_mut, last: last_mut, settled: settled_mut, state: state_mut, batchable: batchable_mut]);
comp!(Detach, 0x16, DetachInner, |x| &*x.0, [handle: handle_mut, closed: closed_mut, error: error_mut]);
comp!(End, 0x17, End, |x| x, [error: error_mut]);
comp!(Close, 0x18, Close, |x| x, [error: error_mut]);
comp!(SaslMechanisms, 0x40, SaslMechanisms, |x| x, [sasl_server_mechanisms: sasl_server_mechanisms_mut]);
comp!(SaslInit, 0x41, SaslInit, |x| x, [mechanism: mechanism_mut, initial_response: initial_response_mut, hostname: hostname_mut]);
comp!(SaslChallenge, 0x42, SaslChallenge, |x| x, [challenge: challenge_mut]);
comp!(SaslResponse, 0x43, SaslResponse, |x| x, [response: response_mut]);
comp!(SaslOutcome, 0x44, SaslOutcome, |x| x, [code: code_mut, additional_data: additional_data_mut]);
comp!(Source, 0x28, Source, |x| x, [address: address_mut, durable: durable_mut, expiry_policy: expiry_policy_mut, timeout: timeout_mut, dynamic: dynamic_mut, dynamic_node_properties: dynamic_node_properties_mut, distribution_mode: distribution_mode_mut, filter: filter_mut, default_outcome: default_outcome_mut, outcomes: outcomes_mut, capabilities: capabilities_mut]);
comp!(Target, 0x29, Target, |x| x, [address: address_mut, durable: durable_mut, expiry_policy: expiry_policy_mut, timeout: timeout_mut, dynamic: dynamic_mut, dynamic_node_properties: dynamic_node_properties_mut, capabilities: capabilities_mut]);
comp!(Header, 0x70, Header, |x| x, [durable: durable_mut, priority: priority_mut, ttl: ttl_mut, first_acquirer: first_acquirer_mut, delivery_count: delivery_count_mut]);
comp!(Properties, 0x73, Properties, |x| x, [message_id: message_id_mut, user_id: user_id_mut, to: to_mut, subject: subject_mut, reply_to: reply_to_mut, correlation_id: correlation_id_mut, content_type: content_type_mut, content_encoding: content_encoding_mut, absolute_expiry_time: absolute_expiry_time_mut, creation_time: creation_time_mut, group_id: group_id_mut, group_sequence: group_sequence_mut, reply_to_group_id: reply_to_group_id_mut]);
comp!(Received, 0x23, Received, |x| x, [section_number: section_number_mut, section_offset: section_offset_mut]);
comp!(Accepted, 0x24, Accepted, |x| x, []);
comp!(Rejected, 0x25, Rejected, |x| x, [error: error_mut]);
comp!(Released, 0x26, Released, |x| x, []);
comp!(Modified, 0x27, Modified, |x| x, [delivery_failed: delivery_failed_mut, undeliverable_here: undeliverable_here_mut, message_annotations: message_annotations_mut]);

built!(Error, [condition, description, info]);
built!(Open, [container_id, hostname, max_frame_size, channel_max, idle_time_out, outgoing_locales, incoming_locales, offered_capabilities, desired_capabilities, properties]);
built!(Begin, [remote_channel, next_outgoing_id, incoming_window, outgoing_window, handle_max, offered_capabilities, desired_capabilities, properties]);
built!(Attach, [name, handle, role, snd_settle_mode, rcv_settle_mode, source, target, unsettled, incomplete_unsettled, initial_delivery_count, max_message_size, offered_capabilities, desired_capabilities, properties]);
built!(Flow, [next_incoming_id, incoming_window, next_outgoing_id, outgoing_window, handle, delivery_count, link_credit, available, drain, echo, properties]);
built!(Transfer, [handle, delivery_id, delivery_tag, message_format, settled, more, rcv_settle_mode, state, resume, aborted, batchable, body]);
built!(Disposition, [role, first, last, settled, state, batchable]);
built!(Detach, [handle, closed, error]);
impl Built for End {}
impl Built for Close {}
impl Built for SaslMechanisms {}
impl Built for SaslInit {}
impl Built for SaslChallenge {}
impl Built for SaslResponse {}
impl Built for SaslOutcome {}
impl Built for Source {}
impl Built for Target {}
impl Built for Header {}
impl Built for Properties {}
impl Built for Received {}
impl Built for Accepted {}
impl Built for Rejected {}
impl Built for Released {}
impl Built for Modified {}

impl S for TransferBody {
    fn s(&self) -> V {
        match self {
            TransferBody::Data(b) => b.s(),
            TransferBody::Message(m) => m.s(),
        }
    }
}

/// header, delivery annotations, message annotations, properties, application
/// properties, data sections, sequence sections, value, footer
impl S for Message {
    fn s(&self) -> V {
        let m = &*self.0;
        V::List(vec![
            m.header.s(),
            m.delivery_annotations.s(),
            m.message_annotations.s(),
            m.properties.s(),
            m.application_properties.s(),
            V::List(m.body.data.iter().chain(m.body.messages.iter().filter_map(|m| if let TransferBody::Data(d) = m { Some(d) } else { None })).map(|d| d.s()).collect()),
            V::List(m.body.sequence.iter().map(|d| d.s()).collect()),
            match &m.body.value {
                None => V::List(vec![]),
                Some(v) => V::List(vec![v.s()]),
            },
            m.footer.s(),
        ])
    }
}

impl S for Frame {
    fn s(&self) -> V {
        match self {
            Frame::Open(x) => x.s(),
            Frame::Begin(x) => x.s(),
            Frame::Attach(x) => x.s(),
            Frame::Flow(x) => x.s(),
            Frame::Transfer(x) => x.s(),
            Frame::Disposition(x) => x.s(),
            Frame::Detach(x) => x.s(),
            Frame::End(x) => x.s(),
            Frame::Close(x) => x.s(),
            Frame::Empty => V::Null,
        }
    }
}

impl S for AmqpFrame {
    fn s(&self) -> V {
        V::List(vec![V::U16(self.channel_id()), self.performative().s()])
    }
}

impl S for SaslFrame {
    fn s(&self) -> V {
        match &self.body {
            SaslFrameBody::SaslMechanisms(x) => x.s(),
            SaslFrameBody::SaslInit(x) => x.s(),
            SaslFrameBody::SaslChallenge(x) => x.s(),
            SaslFrameBody::SaslResponse(x) => x.s(),
            SaslFrameBody::SaslOutcome(x) => x.s(),
        }
    }
}

// ---------------------------------------------------------------- the schema

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Bool,
    U8,
    U16,
    U32,
    U64,
    Str,
    Sym,
    Bin,
    Ts,
    Any,
    Fields,
    UMap,
    Syms,
    Source,
    Target,
    Error,
    State,
    Outcome,
    Role,
    Snd,
    Rcv,
    Durable,
    Expiry,
    SaslCode,
    MsgId,
    Filter,
}

pub struct F {
    pub n: &'static str,
    pub ty: Ty,
    pub mand: bool,
    pub def: Option<V>,
}

pub struct Comp {
    pub code: u64,
    pub n: &'static str,
    pub f: Vec<F>,
}

pub fn comps() -> &'static Vec<Comp> {
    static C: std::sync::OnceLock<Vec<Comp>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        use Ty::*;
        let o = |n, ty| F { n, ty, mand: false, def: None };
        let m = |n, ty| F { n, ty, mand: true, def: None };
        let d = |n, ty, v| F { n, ty, mand: false, def: Some(v) };
        let no = V::Bool(false);
        let c = |code, n, f| Comp { code, n, f };
        vec![
            c(0x10, "open", vec![m("container-id", Str), o("hostname", Str), d("max-frame-size", U32, V::U32(u32::MAX)), d("channel-max", U16, V::U16(65535)), o("idle-time-out", U32), o("outgoing-locales", Syms), o("incoming-locales", Syms), o("offered-capabilities", Syms), o("desired-capabilities", Syms), o("properties", Fields)]),
            c(0x11, "begin", vec![o("remote-channel", U16), m("next-outgoing-id", U32), m("incoming-window", U32), m("outgoing-window", U32), d("handle-max", U32, V::U32(u32::MAX)), o("offered-capabilities", Syms), o("desired-capabilities", Syms), o("properties", Fields)]),
            c(0x12, "attach", vec![m("name", Str), m("handle", U32), m("role", Role), d("snd-settle-mode", Snd, V::U8(2)), d("rcv-settle-mode", Rcv, V::U8(0)), o("source", Source), o("target", Target), o("unsettled", UMap), d("incomplete-unsettled", Bool, no.clone()), o("initial-delivery-count", U32), o("max-message-size", U64), o("offered-capabilities", Syms), o("desired-capabilities", Syms), o("properties", Fields)]),
            c(0x13, "flow", vec![o("next-incoming-id", U32), m("incoming-window", U32), m("next-outgoing-id", U32), m("outgoing-window", U32), o("handle", U32), o("delivery-count", U32), o("link-credit", U32), o("available", U32), d("drain", Bool, no.clone()), d("echo", Bool, no.clone()), o("properties", Fields)]),
            c(0x14, "transfer", vec![m("handle", U32), o("delivery-id", U32), o("delivery-tag", Bin), o("message-format", U32), o("settled", Bool), d("more", Bool, no.clone()), o("rcv-settle-mode", Rcv), o("state", State), d("resume", Bool, no.clone()), d("aborted", Bool, no.clone()), d("batchable", Bool, no.clone())]),
            c(0x15, "disposition", vec![m("role", Role), m("first", U32), o("last", U32), d("settled", Bool, no.clone()), o("state", State), d("batchable", Bool, no.clone())]),
            c(0x16, "detach", vec![m("handle", U32), d("closed", Bool, no.clone()), o("error", Error)]),
            c(0x17, "end", vec![o("error", Error)]),
            c(0x18, "close", vec![o("error", Error)]),
            c(0x40, "sasl-mechanisms", vec![m("sasl-server-mechanisms", Syms)]),
            c(0x41, "sasl-init", vec![m("mechanism", Sym), o("initial-response", Bin), o("hostname", Str)]),
            c(0x42, "sasl-challenge", vec![m("challenge", Bin)]),
            c(0x43, "sasl-response", vec![m("response", Bin)]),
            c(0x44, "sasl-outcome", vec![m("code", SaslCode), o("additional-data", Bin)]),
            c(0x28, "source", vec![o("address", Str), d("durable", Durable, V::U32(0)), d("expiry-policy", Expiry, V::sym("session-end")), d("timeout", U32, V::U32(0)), d("dynamic", Bool, no.clone()), o("dynamic-node-properties", Fields), o("distribution-mode", Sym), o("filter", Filter), o("default-outcome", Outcome), o("outcomes", Syms), o("capabilities", Syms)]),
            c(0x29, "target", vec![o("address", Str), d("durable", Durable, V::U32(0)), d("expiry-policy", Expiry, V::sym("session-end")), d("timeout", U32, V::U32(0)), d("dynamic", Bool, no.clone()), o("dynamic-node-properties", Fields), o("capabilities", Syms)]),
            c(0x1d, "error", vec![m("condition", Sym), o("description", Str), o("info", Fields)]),
            c(0x70, "header", vec![d("durable", Bool, no.clone()), d("priority", U8, V::U8(4)), o("ttl", U32), d("first-acquirer", Bool, no.clone()), d("delivery-count", U32, V::U32(0))]),
            c(0x73, "properties", vec![o("message-id", MsgId), o("user-id", Bin), o("to", Str), o("subject", Str), o("reply-to", Str), o("correlation-id", MsgId), o("content-type", Sym), o("content-encoding", Sym), o("absolute-expiry-time", Ts), o("creation-time", Ts), o("group-id", Str), o("group-sequence", U32), o("reply-to-group-id", Str)]),
            c(0x23, "received", vec![m("section-number", U32), m("section-offset", U64)]),
            c(0x24, "accepted", vec![]),
            c(0x25, "rejected", vec![o("error", Error)]),
            c(0x26, "released", vec![]),
            c(0x27, "modified", vec![o("delivery-failed", Bool), o("undeliverable-here", Bool), o("message-annotations", Fields)]),
        ]
    })
}

pub fn by_code(code: u64) -> Option<&'static Comp> {
    comps().iter().find(|c| c.code == code)
}

/// sections that are not lists
pub const SECTIONS: [(u64, &str); 7] = [
    (0x71, "amqp:delivery-annotations:map"),
    (0x72, "amqp:message-annotations:map"),
    (0x74, "amqp:application-properties:map"),
    (0x75, "amqp:data:binary"),
    (0x76, "amqp:amqp-sequence:list"),
    (0x77, "amqp:amqp-value:*"),
    (0x78, "amqp:footer:map"),
];

pub fn sym_of(code: u64) -> String {
    if let Some((_, s)) = SECTIONS.iter().find(|s| s.0 == code) {
        return s.to_string();
    }
    format!("amqp:{}:list", by_code(code).map_or("?", |c| c.n))
}

pub fn code_of(d: &V) -> Option<u64> {
    match d {
        V::U64(c) => Some(*c),
        V::Sym(s) => comps()
            .iter()
            .map(|c| c.code)
            .chain(SECTIONS.iter().map(|s| s.0))
            .find(|c| sym_of(*c) == *s),
        _ => None,
    }
}

// ---------------------------------------------------------------- what a value denotes

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum No {
    /// must be reported as an error
    Bad,
    /// nothing is claimed
    Skip,
}
pub type N = Result<V, No>;

pub fn any(v: &V) -> N {
    Ok(match v {
        V::Char(c) if char::from_u32(*c).is_none() => return Err(No::Skip),
        V::Ts(t) if t.unsigned_abs() > 8_000_000_000_000_000 => return Err(No::Skip),
        V::List(l) => V::List(l.iter().map(any).collect::<Result<_, _>>()?),
        V::Arr(l) => V::Arr(l.iter().map(any).collect::<Result<_, _>>()?),
        V::Map(m) => nmap(m, &|k| any(k), &|v| any(v))?,
        V::Desc(d, x) => {
            if !matches!(**d, V::U64(_) | V::Sym(_)) {
                return Err(No::Skip);
            }
            V::Desc(d.clone(), Box::new(any(x)?))
        }
        v => v.clone(),
    })
}

fn nmap(m: &[(V, V)], kf: &dyn Fn(&V) -> N, vf: &dyn Fn(&V) -> N) -> N {
    let mut o = vec![];
    let mut r = Ok(());
    // an error anywhere wins over what is not judged
    for (k, v) in m {
        match (kf(k), vf(v)) {
            (Ok(k), Ok(v)) => o.push((k, v)),
            (Err(No::Bad), _) | (_, Err(No::Bad)) => return Err(No::Bad),
            _ => r = Err(No::Skip),
        }
    }
    r?;
    for i in 0..o.len() {
        if o[..i].iter().any(|x| x.0 == o[i].0) {
            return Err(No::Skip);
        }
    }
    Ok(map(o))
}

fn only(v: &V, p: impl Fn(&V) -> bool) -> N {
    if p(v) { Ok(v.clone()) } else { Err(No::Bad) }
}

pub fn fields(v: &V) -> N {
    match v {
        V::Map(m) => nmap(m, &|k| only(k, |k| matches!(k, V::Sym(_))), &any),
        _ => Err(No::Bad),
    }
}

/// annotations: reserved ulong keys are not judged
fn annotations(v: &V) -> N {
    match v {
        V::Map(m) => nmap(
            m,
            &|k| match k {
                V::U64(_) => Err(No::Skip),
                k => only(k, |k| matches!(k, V::Sym(_))),
            },
            &any,
        ),
        _ => Err(No::Bad),
    }
}

pub fn norm(ty: Ty, v: &V) -> N {
    match ty {
        Ty::Bool | Ty::Role => only(v, |v| matches!(v, V::Bool(_))),
        Ty::U8 => only(v, |v| matches!(v, V::U8(_))),
        Ty::U16 => only(v, |v| matches!(v, V::U16(_))),
        Ty::U32 => only(v, |v| matches!(v, V::U32(_))),
        Ty::U64 => only(v, |v| matches!(v, V::U64(_))),
        Ty::Str => only(v, |v| matches!(v, V::Str(_))),
        Ty::Sym => only(v, |v| matches!(v, V::Sym(_))),
        Ty::Bin => only(v, |v| matches!(v, V::Bin(_))),
        Ty::Ts => {
            only(v, |v| matches!(v, V::Ts(_)))?;
            any(v)
        }
        Ty::Any => any(v),
        Ty::Fields => fields(v),
        Ty::UMap => {
            only(v, |v| matches!(v, V::Map(_)))?;
            any(v)
        }
        Ty::Syms => match v {
            V::Sym(_) => Ok(V::Arr(vec![v.clone()])),
            V::Arr(l) if l.iter().all(|x| matches!(x, V::Sym(_))) => Ok(v.clone()),
            _ => Err(No::Bad),
        },
        Ty::Source => composite(v, &[0x28]),
        Ty::Target => composite(v, &[0x29]),
        Ty::Error => composite(v, &[0x1d]),
        Ty::State => composite(v, &[0x23, 0x24, 0x25, 0x26, 0x27]),
        Ty::Outcome => composite(v, &[0x24, 0x25, 0x26, 0x27]),
        Ty::Snd => only(v, |v| matches!(v, V::U8(0..=2))),
        Ty::Rcv => only(v, |v| matches!(v, V::U8(0..=1))),
        Ty::Durable => only(v, |v| matches!(v, V::U32(0..=2))),
        Ty::SaslCode => only(v, |v| matches!(v, V::U8(0..=4))),
        Ty::Expiry => only(v, |v| matches!(v, V::Sym(s) if ["link-detach", "session-end", "connection-close", "never"].contains(&s.as_str()))),
        Ty::MsgId => only(v, |v| matches!(v, V::U64(_) | V::Uuid(_) | V::Bin(_) | V::Str(_))),
        Ty::Filter => match v {
            V::Map(m) => nmap(
                m,
                &|k| only(k, |k| matches!(k, V::Sym(_))),
                &|v| match v {
                    V::Null => Ok(V::Null),
                    V::Desc(..) => any(v),
                    // the library's extension
                    _ => Err(No::Skip),
                },
            ),
            _ => Err(No::Bad),
        },
    }
}

/// a described list of one of the given types, absent fields filled in
pub fn composite(v: &V, codes: &[u64]) -> N {
    let V::Desc(d, l) = v else { return Err(No::Bad) };
    let Some(code) = code_of(d) else { return Err(No::Bad) };
    if !codes.contains(&code) {
        return Err(No::Bad);
    }
    let V::List(l) = &**l else { return Err(No::Bad) };
    let c = by_code(code).unwrap();
    let mut o = vec![];
    let mut skip = l.len() > c.f.len();
    for (i, f) in c.f.iter().enumerate() {
        match l.get(i).unwrap_or(&V::Null) {
            V::Null => {
                if f.mand {
                    return Err(No::Bad);
                }
                o.push(f.def.clone().unwrap_or(V::Null))
            }
            v => match norm(f.ty, v) {
                Ok(v) => o.push(v),
                Err(No::Bad) => return Err(No::Bad),
                Err(No::Skip) => skip = true,
            },
        }
    }
    if skip {
        return Err(No::Skip);
    }
    Ok(V::dlist(code, o))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Top {
    /// an AMQP frame with its size
    Frame,
    Sasl,
    /// a composite type, by its code
    Comp(u64),
    Msg,
    Var,
}

fn body(b: &[u8], typ: u8) -> Result<(u16, Option<V>, Vec<u8>), No> {
    if b.len() < 8 || u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize != b.len() {
        return Err(No::Skip);
    }
    let doff = b[4] as usize * 4;
    if doff < 8 || doff > b.len() || b[5] != typ {
        return Err(No::Bad);
    }
    let ch = u16::from_be_bytes([b[6], b[7]]);
    let b = &b[doff..];
    if b.is_empty() {
        return Ok((ch, None, vec![]));
    }
    let mut p = 0;
    match refc::dec(b, &mut p, 0) {
        Ok(v) => Ok((ch, Some(v), b[p..].to_vec())),
        Err(_) => Err(No::Skip),
    }
}

/// what the specification says `b` is
pub fn denote(top: Top, b: &[u8]) -> N {
    match top {
        Top::Frame => {
            let (ch, v, rest) = body(b, 0)?;
            let Some(v) = v else { return Ok(V::List(vec![V::U16(ch), V::Null])) };
            let mut n = composite(&v, &[0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18])?;
            let V::Desc(d, l) = &mut n else { unreachable!() };
            if **d == V::U64(0x14) {
                let V::List(l) = &mut **l else { unreachable!() };
                l.push(if rest.is_empty() { V::Null } else { V::Bin(rest) });
            } else if !rest.is_empty() {
                return Err(No::Skip);
            }
            Ok(V::List(vec![V::U16(ch), n]))
        }
        Top::Sasl => {
            let (_, v, rest) = body(b, 1)?;
            let n = composite(&v.ok_or(No::Bad)?, &[0x40, 0x41, 0x42, 0x43, 0x44])?;
            if rest.is_empty() { Ok(n) } else { Err(No::Skip) }
        }
        Top::Comp(c) => {
            let mut p = 0;
            let v = refc::dec(b, &mut p, 0).map_err(|_| No::Skip)?;
            if p != b.len() {
                return Err(No::Skip);
            }
            composite(&v, &[c])
        }
        Top::Var => {
            let mut p = 0;
            let v = refc::dec(b, &mut p, 0).map_err(|_| No::Skip)?;
            if p != b.len() {
                return Err(No::Skip);
            }
            any(&v)
        }
        Top::Msg => message(b),
    }
}

pub fn message(b: &[u8]) -> N {
    let mut p = 0;
    let mut o = vec![V::Null; 9];
    for i in [5, 6, 7] {
        o[i] = V::List(vec![])
    }
    let mut skip = false;
    while p < b.len() {
        let v = refc::dec(b, &mut p, 0).map_err(|_| No::Skip)?;
        let V::Desc(d, x) = &v else { return Err(No::Bad) };
        let Some(code) = code_of(d) else { return Err(No::Bad) };
        let r = match code {
            0x70 | 0x73 => composite(&v, &[code]),
            0x71 | 0x72 | 0x78 => annotations(x),
            0x74 => match &**x {
                V::Map(m) => nmap(
                    m,
                    &|k| only(k, |k| matches!(k, V::Str(_))),
                    &|v| match v {
                        V::List(_) | V::Map(_) | V::Arr(_) | V::Desc(..) => Err(No::Skip),
                        v => any(v),
                    },
                ),
                _ => Err(No::Bad),
            },
            0x75 => only(x, |x| matches!(x, V::Bin(_))),
            0x76 => {
                only(x, |x| matches!(x, V::List(_)))?;
                any(x)
            }
            0x77 => any(x),
            _ => return Err(No::Bad),
        };
        let r = match r {
            Ok(r) => r,
            Err(No::Bad) => return Err(No::Bad),
            Err(No::Skip) => {
                skip = true;
                continue;
            }
        };
        let slot = match code {
            0x70 => 0,
            0x71 => 1,
            0x72 => 2,
            0x73 => 3,
            0x74 => 4,
            0x75 => 5,
            0x76 => 6,
            0x77 => 7,
            _ => 8,
        };
        if let V::List(l) = &mut o[slot]
            && (5..8).contains(&slot)
        {
            skip |= slot == 7 && !l.is_empty();
            l.push(r)
        } else {
            skip |= o[slot] != V::Null;
            o[slot] = r
        }
    }
    if skip { Err(No::Skip) } else { Ok(V::List(o)) }
}

// ---------------------------------------------------------------- the judge

/// what the library made of the bytes
pub struct Dec {
    pub sem: V,
    pub size: usize,
    pub enc: Vec<u8>,
    /// its own decoder reads the re-encoding back as an equal value
    pub same: Result<(), String>,
    /// bytes of the input that were left over
    pub rest: usize,
}

pub fn reenc<T: Encode + ?Sized>(x: &T) -> (usize, Vec<u8>) {
    let n = x.encoded_size();
    let mut b = BytesMut::new();
    b.reserve(n);
    x.encode(&mut b);
    (n, b.to_vec())
}

thread_local! {
    /// memory the last decoding took
    static DEC_PEAK: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}

fn peak<T>(f: impl FnOnce() -> T) -> T {
    let (r, n) = crate::alloc::measure(f);
    DEC_PEAK.with(|p| p.set(n));
    r
}

fn plain<T: Encode + Decode + S + PartialEq>(b: &[u8]) -> Result<Dec, String> {
    let mut i = Bytes::copy_from_slice(b);
    let x = peak(|| T::decode(&mut i)).map_err(|e| format!("{e:?}"))?;
    let (size, enc) = reenc(&x);
    let mut j = Bytes::copy_from_slice(&enc);
    let same = match T::decode(&mut j) {
        Ok(y) if y == x && j.is_empty() => Ok(()),
        Ok(y) => Err(format!("{}, {} left", refc::show(&y.s()), j.len())),
        Err(e) => Err(format!("{e:?}")),
    };
    Ok(Dec { sem: x.s(), size, enc, same, rest: i.len() })
}

fn framed<T: Encode + Decode + S + PartialEq + std::fmt::Debug>(b: &[u8], extra: &[u8]) -> Result<Dec, String> {
    let mut i = BytesMut::new();
    i.extend_from_slice(b);
    i.extend_from_slice(extra);
    let x = match peak(|| AmqpCodec::<T>::new().decode(&mut i)) {
        Ok(Some(x)) => x,
        Ok(None) => return Err("more".into()),
        Err(e) => return Err(format!("{e:?}")),
    };
    if !extra.is_empty() && i.as_ref() != extra {
        return Err("the bytes after the frame were touched".into());
    }
    let (size, enc) = reenc(&x);
    let mut j = BytesMut::new();
    j.extend_from_slice(&enc);
    let same = match AmqpCodec::<T>::new().decode(&mut j) {
        Ok(Some(y)) if y == x && j.is_empty() => Ok(()),
        Ok(Some(y)) => Err(format!("{}, {} left", refc::show(&y.s()), j.len())),
        Ok(None) => Err("incomplete".into()),
        Err(e) => Err(format!("{e:?}")),
    };
    Ok(Dec { sem: x.s(), size, enc, same, rest: i.len() })
}

pub fn lib(top: Top, b: &[u8], extra: &[u8]) -> Result<Dec, String> {
    match top {
        Top::Frame => framed::<AmqpFrame>(b, extra),
        Top::Sasl => framed::<SaslFrame>(b, extra),
        Top::Msg => plain::<Message>(b),
        Top::Var => plain::<Variant>(b),
        Top::Comp(0x28) => plain::<Source>(b),
        Top::Comp(0x29) => plain::<Target>(b),
        Top::Comp(0x1d) => plain::<Error>(b),
        Top::Comp(0x70) => plain::<Header>(b),
        Top::Comp(0x73) => plain::<Properties>(b),
        Top::Comp(0x23) => plain::<Received>(b),
        Top::Comp(0x24) => plain::<Accepted>(b),
        Top::Comp(0x25) => plain::<Rejected>(b),
        Top::Comp(0x26) => plain::<Released>(b),
        Top::Comp(0x27) => plain::<Modified>(b),
        Top::Comp(c) => panic!("composite {c:#x}"),
    }
}

fn lazy(v: &V) -> bool {
    match v {
        V::Sym(s) => s == LAZY,
        V::List(l) | V::Arr(l) => l.iter().any(lazy),
        V::Map(m) => m.iter().any(|(k, v)| lazy(k) || lazy(v)),
        V::Desc(d, v) => lazy(d) || lazy(v),
        _ => false,
    }
}

/// a source with a filter that is a described value
fn described_filter(v: &V) -> bool {
    match v {
        V::List(l) => l.iter().any(described_filter),
        V::Desc(d, l) => match (&**d, &**l) {
            (V::U64(0x28), V::List(l)) => matches!(&l[7], V::Map(m) if m.iter().any(|x| matches!(x.1, V::Desc(..)))),
            (V::U64(0x10..=0x18), V::List(l)) => l.iter().any(described_filter),
            _ => false,
        },
        _ => false,
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|b| format!("{b:02x}")).collect();
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()))
    }
    s
}

/// rule, properties, message
pub type Found = (&'static str, &'static str, String);

/// bytes of memory one decoding step may take, for an input of n bytes
pub fn mem_bound(n: usize) -> isize {
    (65_536 + n * 512) as isize
}

/// one input, all rules.  Returns what it denotes, as far as it is judged.
pub fn judge(top: Top, b: &[u8], out: &mut Vec<Found>) -> Option<u64> {
    let want = denote(top, b);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| crate::alloc::measure(|| lib(top, b, &[]))));
    let (got, all) = match r {
        Ok(x) => x,
        Err(_) => {
            let m = crate::exec::take_panic().unwrap_or_default();
            out.push(("panic", "*", format!("{m}; input {}", hex(b))));
            return None;
        }
    };
    let peak = DEC_PEAK.with(|p| p.get());
    if peak > mem_bound(b.len()) {
        out.push(("memory", "C03", format!("decoding {} bytes allocates {peak}: {}", b.len(), hex(b))));
    }
    // contents of arrays and described values are only decoded on demand
    if all > 4 * mem_bound(b.len()) + (16 << 20) {
        out.push(("memory-lazy", "C03", format!("decoding the contents of {} bytes allocates {all}: {}", b.len(), hex(b))));
    }
    match (&want, &got) {
        (Ok(w), Ok(g)) if *w != g.sem || (g.rest > 0) => {
            out.push((
                "decode-value",
                "C02",
                format!("{} decodes to {} ({} bytes left) but denotes {}", hex(b), refc::show(&g.sem), g.rest, refc::show(w)),
            ));
        }
        (Ok(w), Err(e)) => {
            let filter = described_filter(w);
            out.push((if filter { "decode-error-filter" } else { "decode-error" }, "C02", format!("{} which denotes {} is refused: {e}", hex(b), refc::show(w))));
        }
        (Err(No::Bad), Ok(g)) => {
            out.push(("decode-invalid", "C02", format!("{} is not valid but decodes to {}", hex(b), refc::show(&g.sem))));
        }
        _ => {}
    }
    if let Ok(g) = &got {
        if g.size != g.enc.len() {
            out.push(("encoded-size", "C01", format!("{} announces {} bytes, writes {}", refc::show(&g.sem), g.size, g.enc.len())));
        }
        if !lazy(&g.sem) {
            match denote(top, &g.enc) {
                Ok(v) if v == g.sem => {
                    if let Err(e) = &g.same {
                        out.push(("encode-own", "C01", format!("{} encoded as {} is read back as {e}", refc::show(&g.sem), hex(&g.enc))));
                    }
                }
                Ok(v) => {
                    out.push(("encode-value", "C01", format!("{} is encoded as {} which denotes {}", refc::show(&g.sem), hex(&g.enc), refc::show(&v))))
                }
                // a value of the library's types that the reference does not judge
                Err(_) if want.is_err() => {}
                Err(e) => {
                    out.push(("encode-value", "C01", format!("{} is encoded as {} which is not valid ({e:?})", refc::show(&g.sem), hex(&g.enc))))
                }
            }
        }
    }
    if matches!(top, Top::Frame | Top::Sasl) && b.len() >= 8 && u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize == b.len() {
        match (&got, std::panic::catch_unwind(|| lib(top, b, &[0, 0x53, 0x10, 0x45, 0xc0, 1, 0]))) {
            (_, Err(_)) => {
                let m = crate::exec::take_panic().unwrap_or_default();
                out.push(("panic", "*", format!("{m}; input {} with bytes following", hex(b))));
            }
            (Ok(a), Ok(Ok(c))) if a.sem == c.sem => {}
            (Err(_), Ok(Err(_))) => {}
            (_, Ok(c)) => {
                let show = |d: Result<&Dec, &String>| d.map_or_else(|e| e.clone(), |d| refc::show(&d.sem));
                out.push((
                    "beyond-frame",
                    "C03+C04",
                    format!("{} gives {} alone but {} when more bytes follow", hex(b), show(got.as_ref()), show(c.as_ref())),
                ))
            }
        }
    }
    want.ok().map(|v| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        refc::show(&v).hash(&mut h);
        h.finish()
    })
}
