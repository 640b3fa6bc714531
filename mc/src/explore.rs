//! Stateless exhaustive exploration: every path of (event, timing) choices of a
//! family up to its depth and deviation budget is executed on the real endpoint.
use std::collections::BTreeMap;
use std::fmt::Write as _;

use crate::exec;
use crate::mon::Mon;
use crate::sut::*;

/// after the event: run to quiescence
pub const QUIET: u16 = u16::MAX;

pub type Path = Vec<(u16, u16)>;

pub struct Run<'a> {
    pub w: World,
    pub poll: &'a mut dyn FnMut() -> bool,
}

impl Run<'_> {
    pub fn ev(&mut self, e: Ev) -> &mut Self {
        self.w.inject(&e);
        self
    }
    pub fn q(&mut self) -> &mut Self {
        self.w.quiesce(self.poll);
        self
    }
    pub fn go(&mut self, e: Ev) -> &mut Self {
        if let Ev::Time(ms) = e {
            self.w.inject(&e);
            self.w.advance(ms, self.poll);
            return self;
        }
        self.ev(e).q()
    }
    pub fn m(&self) -> &Mon {
        &self.w.mon
    }
}

pub struct Fam {
    pub name: &'static str,
    pub cfg: fn() -> Cfg,
    pub setup: fn(&mut Run),
    pub menu: fn(&Run, &mut Vec<Ev>),
    pub lite: bool,
}

#[derive(Default, Debug)]
pub struct Node {
    pub menu: usize,
    pub polls: u16,
    pub pruned: bool,
    pub viols: Vec<(String, Vec<String>, String)>,
    pub states: Vec<u64>,
    pub events: u64,
    pub polls_total: u64,
    pub trace: Vec<String>,
}

pub fn run(fam: &'static Fam, path: &[(u16, u16)], keep_trace: bool) -> Node {
    let p: Path = path.to_vec();
    let r = exec::isolated(4 << 20, move || {
        crate::alloc::quarantine(true);
        let r = exec::with_runtime(move |poll| run_inner(fam, &p, poll, keep_trace));
        crate::alloc::quarantine(false);
        r
    });
    match r {
        Ok(n) => n,
        Err(m) => Node {
            viols: vec![("panic".into(), vec!["*".into()], m)],
            ..Default::default()
        },
    }
}

fn run_inner(fam: &'static Fam, path: &[(u16, u16)], poll: &mut dyn FnMut() -> bool, keep: bool) -> Node {
    let cfg = (fam.cfg)();
    let mut w = World::new(cfg);
    w.mon.lite = fam.lite;
    w.keep_trace = keep;
    let mut r = Run { w, poll };
    (fam.setup)(&mut r);
    let mut n = Node::default();
    let mut menu = vec![];
    let setup_bad = !r.w.mon.viols.is_empty() || r.w.dead;
    let mut step_no = 0;
    if !setup_bad {
        for (e, t) in path {
            menu.clear();
            (fam.menu)(&r, &mut menu);
            let Some(ev) = menu.get(*e as usize).cloned() else {
                n.pruned = true;
                n.viols.push((
                    "nondeterminism".into(),
                    vec![],
                    format!("step {step_no}: choice {e} of {}", menu.len()),
                ));
                break;
            };
            step_no += 1;
            r.w.inject(&ev);
            let before = r.w.polls;
            if let Ev::Time(ms) = ev {
                r.w.advance(ms, r.poll);
                n.polls = 0;
            } else if *t == QUIET {
                r.w.quiesce(r.poll);
                n.polls = (r.w.polls - before).min(200).saturating_sub(1) as u16;
            } else {
                n.polls = 0;
                for _ in 0..*t {
                    if !r.w.step(r.poll) {
                        n.pruned = true;
                        break;
                    }
                }
            }
            if r.w.dead || !r.w.mon.viols.is_empty() {
                break;
            }
        }
        menu.clear();
        if !n.pruned && !r.w.dead {
            (fam.menu)(&r, &mut menu);
            n.menu = menu.len();
        }
    }
    if !n.pruned && !r.w.dead {
        // epilogue: everything pending now must come to an end with the connection
        if r.w.mon.viols.is_empty() {
            r.q();
        }
        if r.w.mon.viols.is_empty() && !r.w.dead {
            if r.w.peer.is_some() {
                r.go(Ev::PDrop);
            }
            r.w.release_gates();
            r.q();
            r.go(Ev::Time(3000));
            if !r.w.dead {
                let p = std::mem::take(&mut r.w.pending_ops);
                r.w.mon.finish(&p);
            }
        }
    }
    if n.pruned {
        r.w.mon.enabled = false;
    }
    r.w.teardown(r.poll);
    for v in &r.w.mon.viols {
        n.viols.push((
            v.rule.to_string(),
            v.props.iter().chain(crate::mon::also(v.rule)).map(|s| s.to_string()).collect(),
            v.msg.clone(),
        ));
    }
    if let Some(p) = &r.w.mon.panic {
        n.viols.insert(0, ("panic".into(), vec!["*".into()], p.clone()));
    }
    if r.w.mon.livelock {
        n.viols.insert(0, ("livelock".into(), vec!["*".into()], "the endpoint never comes to rest".into()));
    }
    if !n.viols.is_empty() {
        n.menu = 0;
    }
    n.states = std::mem::take(&mut r.w.mon.states);
    n.events = r.w.mon.events;
    n.polls_total = r.w.polls;
    if keep {
        n.trace = std::mem::take(&mut r.w.trace);
    }
    n
}

pub fn show_path(p: &[(u16, u16)]) -> String {
    let mut s = String::new();
    for (i, (e, t)) in p.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        if *t == QUIET {
            let _ = write!(s, "{e}");
        } else {
            let _ = write!(s, "{e}:{t}");
        }
    }
    if s.is_empty() { "-".into() } else { s }
}

pub fn parse_path(s: &str) -> Path {
    if s == "-" || s.is_empty() {
        return vec![];
    }
    s.split(',')
        .map(|x| match x.split_once(':') {
            Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
            None => (x.parse().unwrap(), QUIET),
        })
        .collect()
}

#[derive(Default)]
pub struct Stats {
    pub nodes: u64,
    pub events: u64,
    pub polls: u64,
    pub states: std::collections::HashSet<u64>,
    /// (rule, properties) -> (count, first path, message)
    pub viols: BTreeMap<(String, String), (u64, String, String)>,
    pub children: Vec<Path>,
    pub samples: Vec<String>,
    pub stopped: bool,
}

/// Explore the subtree below `path`, `budget` nodes of it; what is left over is returned
/// as `children`.
pub fn explore(
    fam: &'static Fam,
    path: &mut Path,
    depth: usize,
    dev: usize,
    budget: u64,
    st: &mut Stats,
    mark: &mut dyn FnMut(&[(u16, u16)]) -> bool,
) {
    if !mark(path) {
        st.stopped = true;
        return;
    }
    let n = run(fam, path, false);
    if n.pruned && n.viols.is_empty() {
        return;
    }
    st.nodes += 1;
    st.events += n.events;
    st.polls += n.polls_total;
    if st.states.len() < 4_000_000 {
        st.states.extend(n.states.iter().copied());
    }
    for (i, v) in n.viols.iter().enumerate() {
        // later reports of one execution may be consequences of the first
        if i > 0 && v.1 == n.viols[0].1 {
            continue;
        }
        let e = st
            .viols
            .entry((v.0.clone(), v.1.join("+")))
            .or_insert_with(|| (0, show_path(path), v.2.clone()));
        e.0 += 1;
    }
    let used = path.iter().filter(|x| x.1 != QUIET).count();
    let last_q = path.last().map(|x| x.1 == QUIET).unwrap_or(false);
    if last_q && used < dev {
        let i = path.len() - 1;
        for k in 0..n.polls {
            path[i].1 = k;
            if st.nodes >= budget {
                st.children.push(path.clone())
            } else {
                explore(fam, path, depth, dev, budget, st, mark);
            }
        }
        path[i].1 = QUIET;
    }
    if path.len() < depth {
        for e in 0..n.menu {
            path.push((e as u16, QUIET));
            if st.nodes >= budget {
                st.children.push(path.clone())
            } else {
                explore(fam, path, depth, dev, budget, st, mark);
            }
            path.pop();
        }
    }
}
