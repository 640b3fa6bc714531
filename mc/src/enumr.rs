//! Exhaustive enumerations that are not explorations of an endpoint by events
//! (codec, handshake).
use crate::explore::Stats;

#[derive(Clone, Copy)]
pub struct Kind {
    pub name: &'static str,
    /// the work, cut into independent parts, at a size
    pub parts: fn(usize) -> Vec<String>,
    /// one part
    pub run: fn(&str, &mut Stats, &mut dyn FnMut(&str) -> bool),
    /// one case of it (what `run` marks and reports as path)
    pub one: fn(&str, &mut Stats),
}

pub static KINDS: &[Kind] = &[crate::cgen::FORMS, crate::cgen::VAR, crate::cgen::MSG, crate::cgen::MUT, crate::cgen::API, crate::cgen::SPLIT, crate::cgen::HS_SERVER, crate::cgen::HS_CLIENT, crate::cgen::IDLE, crate::cgen::HOSTILE, crate::cgen::FIELDS, crate::cgen::SERVICES, crate::cgen::CYCLES];

pub fn kind(n: &str) -> Option<Kind> {
    KINDS.iter().find(|k| k.name == n).copied()
}
