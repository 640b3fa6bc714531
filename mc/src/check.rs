//! `check <property> <tier>` and `replay <file>`.
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::pool::{self, Task};
use crate::{enumr, explore, fam, mon};

pub struct Plan {
    pub id: &'static str,
    /// family, (depth, deviations) of the quick and of the thorough tier
    pub fams: &'static [(&'static str, (usize, usize), (usize, usize))],
}

include!("plan.rs");

/// One accepted defect: property, family (or *), rule, text the message contains
struct Known {
    prop: String,
    fam: String,
    rule: String,
    text: String,
    what: String,
}

fn known(dir: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{dir}/known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let f: Vec<&str> = l.splitn(5, '\t').collect();
            if f.len() < 5 {
                return None;
            }
            Some(Known {
                prop: f[0].strip_prefix("property=")?.into(),
                fam: f[1].strip_prefix("family=")?.into(),
                rule: f[2].strip_prefix("rule=")?.into(),
                text: f[3].strip_prefix("text=")?.into(),
                what: f[4].into(),
            })
        })
        .collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// runs `mc path` (or `mc case`) in a process of its own; None: it hung
fn rerun(f: &str, path: &str, prop: &str, limit: Duration) -> Option<(bool, String)> {
    let out = std::env::temp_dir().join(format!("mc-rerun-{}", std::process::id()));
    let file = std::fs::File::create(&out).ok()?;
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["path", f, path, prop])
        .stdin(Stdio::null())
        .stdout(file)
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let text = std::fs::read(&out).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    st.map(|s| (s.code() == Some(0), text))
}

pub fn check(id: &str, tier: &str) -> i32 {
    let Some(plan) = PLANS.iter().find(|p| p.id == id) else {
        eprintln!("no check for {id}");
        return 2;
    };
    let quick = tier == "quick";
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known: Vec<Known> = known(&dir).into_iter().filter(|k| k.prop == id).collect();
    let mut tasks = vec![];
    for (f, q, t) in plan.fams {
        let (depth, dev) = if quick { *q } else { *t };
        if depth == 0 && dev == 0 {
            continue;
        }
        if let Some(k) = enumr::kind(f) {
            for p in (k.parts)(depth) {
                tasks.push(Task { fam: f.to_string(), depth, dev, path: p });
            }
        } else {
            fam::fam(f).unwrap_or_else(|| panic!("family {f}"));
            tasks.push(Task { fam: f.to_string(), depth, dev, path: "-".into() });
        }
    }
    let limit = Duration::from_secs(if quick { 300 } else { 700 });
    let matches = |f: &str, rule: &str, msg: &str| {
        known
            .iter()
            .find(|k| (k.fam == "*" || k.fam == f) && k.rule == rule && msg.contains(&k.text))
    };
    let stop = |f: &str, rule: &str, props: &str, msg: &str| {
        (props == "*" || props.split('+').any(|p| p == id)) && matches(f, rule, msg).is_none()
    };
    let t0 = Instant::now();
    let rep = pool::run(tasks, limit, Duration::from_secs(60), id, &stop);
    let mut viols = vec![];
    let mut notes = vec![];
    let mut seen_known = std::collections::BTreeSet::new();
    for ((f, rule, props), (_, path, msg)) in &rep.viols {
        if !(props == "*" || props.split('+').any(|p| p == id)) {
            notes.push(format!("{f} {path}: {rule}: {msg}"));
            continue;
        }
        if let Some(k) = matches(f, rule, msg) {
            seen_known.insert(k.what.clone());
            continue;
        }
        viols.push((f.clone(), rule.clone(), path.clone(), msg.clone()));
    }
    // shortest first; what stops the machine last
    viols.sort_by_key(|v| (v.1 == "hang", v.2.len()));
    let rdir = format!("{dir}/evidence/replay");
    let mut shown = 0;
    for (i, (f, rule, path, msg)) in viols.iter().enumerate() {
        if i >= 5 {
            break;
        }
        let mut trace = String::new();
        let mut again = 0;
        let mut gone = 0;
        for _ in 0..if rule == "hang" { 2 } else { 3 } {
            match rerun(f, path, id, Duration::from_secs(90)) {
                None => again += 1,
                Some((ok, t)) => {
                    if ok {
                        gone += 1
                    } else {
                        again += 1
                    }
                    trace = t;
                }
            }
        }
        if rule == "hang" && again == 0 {
            // the machine was slow, the execution is not
            notes.push(format!("{f} {path}: stalled once, finishes when run again"));
            continue;
        }
        let _ = std::fs::create_dir_all(&rdir);
        let file = format!("{rdir}/{id}-{i}.txt");
        let _ = std::fs::write(
            &file,
            format!(
                "property {id}\nfamily {f}\npath {path}\nrule {rule}\nmessage {msg}\nreproduced {again} of {}\n\n{trace}",
                again + gone
            ),
        );
        println!("{f} {path}: {rule}: {msg}");
        println!("VIOLATION property={id} replay={file}");
        shown += 1;
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    for n in notes.iter().take(20) {
        println!("note: {n}");
    }
    // evidence
    let mut samples = vec![];
    for (f, q, t) in plan.fams {
        let (depth, _) = if quick { *q } else { *t };
        if let Some(fm) = fam::fam(f)
            && depth > 0
            && samples.len() < 6
        {
            let mut p = vec![];
            for _ in 0..depth.min(3) {
                let n = explore::run(fm, &p, false);
                if n.menu == 0 {
                    break;
                }
                p.push(((n.menu - 1) as u16, explore::QUIET));
            }
            let n = explore::run(fm, &p, true);
            samples.push(format!("{f} path {}: {}", explore::show_path(&p), n.trace.join(" | ")));
        }
    }
    samples.extend(rep.samples.iter().take(12).cloned());
    let fams: Vec<String> = rep
        .per_fam
        .iter()
        .map(|(k, v)| {
            format!(
                "{{\"scenario\":{},\"executions\":{},\"transitions\":{},\"complete\":{}}}",
                esc(k),
                v.0,
                v.1,
                !v.2
            )
        })
        .collect();
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"scheduler_steps\":{},\"exhaustive\":{},\"scenarios\":[{}],\"samples\":[{}],\"notes\":[{}],\"explanation\":{}}},\"assumptions\":[{}],\"wall_s\":{:.1},\"violations\":{}}}\n",
        esc(id),
        esc(if quick { "quick" } else { "thorough" }),
        rep.states.len(),
        rep.events,
        rep.nodes,
        rep.polls,
        !rep.stopped,
        fams.join(","),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        esc(if plan.fams.iter().all(|f| enumr::kind(f.0).is_some()) {
            "every case of the listed enumerations is executed on the real crate (its public encoders, decoders, builders and frame codecs) and compared with the reference model and reference codec; executions = transitions = cases, states = distinct values or inputs by what they denote"
        } else {
            "every execution runs the real crate: each path of (event, timing) choices of a scenario up to the stated depth and number of timing deviations is executed from scratch under a controlled scheduler, a controlled transport and a controlled clock, with the reference model running in lock-step; states = distinct reference-model states seen, transitions = events observed, traces = complete executions compared with the model"
        }),
        ASSUMPTIONS.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        shown
    );
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{id}.json"), e).expect("evidence");
    println!(
        "{id} {tier}: {} executions, {} states, {} transitions, {:.1}s{}",
        rep.nodes,
        rep.states.len(),
        rep.events,
        t0.elapsed().as_secs_f64(),
        if rep.stopped { " (not exhaustive)" } else { "" }
    );
    (shown > 0) as i32
}

pub fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(k))
            .map(|x| x.trim().to_string())
            .unwrap_or_default()
    };
    path(&get("family "), &get("path "), &get("property "))
}

pub fn path(f: &str, p: &str, prop: &str) -> i32 {
    if !prop.is_empty() {
        let _ = mon::ONLY.set(prop.to_string());
    }
    if let Some(k) = enumr::kind(f) {
        let mut st = explore::Stats::default();
        (k.one)(p, &mut st);
        for (k, v) in &st.viols {
            println!("VIOL {} [{}] {}: {}", k.0, k.1, v.1, v.2);
        }
        return !st.viols.is_empty() as i32;
    }
    let n = explore::run(fam::fam(f).expect("family"), &explore::parse_path(p), true);
    for t in &n.trace {
        println!("{t}");
    }
    println!("menu {} polls {} pruned {}", n.menu, n.polls, n.pruned);
    for v in &n.viols {
        println!("VIOL {v:?}");
    }
    !n.viols.is_empty() as i32
}
