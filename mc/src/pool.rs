//! Worker processes: exploration is spread over them, and a crash or a hang of
//! the code under test is pinned to the path that was being executed.
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::explore::{self, Stats, parse_path, show_path};

const MAP: usize = 4096;

struct Shm(*mut u8);
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}

impl Shm {
    fn open(path: &str, create: bool) -> Shm {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("shm");
        f.set_len(MAP as u64).expect("shm");
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                MAP,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shm(p as *mut u8)
    }
    fn seq(&self) -> &AtomicU64 {
        unsafe { &*(self.0 as *const AtomicU64) }
    }
    fn stop(&self) -> &AtomicBool {
        unsafe { &*(self.0.add(8) as *const AtomicBool) }
    }
    fn set(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(MAP - 32);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(32), n);
            *(self.0.add(16) as *mut u64) = n as u64;
        }
        self.seq().fetch_add(1, Ordering::SeqCst);
    }
    fn get(&self) -> String {
        unsafe {
            let n = (*(self.0.add(16) as *const u64) as usize).min(MAP - 32);
            String::from_utf8_lossy(std::slice::from_raw_parts(self.0.add(32), n)).into_owned()
        }
    }
}

/// A unit of work: `kind` 'N' one node, 'T' a whole subtree
#[derive(Clone, Debug)]
pub struct Task {
    pub fam: String,
    pub depth: usize,
    pub dev: usize,
    pub path: String,
}

pub fn worker(shm: &str, only: &str) {
    if only != "-" {
        let _ = crate::mon::ONLY.set(only.to_string());
    }
    let shm = Shm::open(shm, false);
    let inp = std::io::stdin();
    let out = std::io::stdout();
    let mut first = 0;
    for line in inp.lock().lines() {
        let Ok(line) = line else { return };
        let f: Vec<&str> = line.split(' ').collect();
        let (name, depth, dev, budget) = (f[0], f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        let mut st = Stats::default();
        if let Some(k) = crate::enumr::kind(name) {
            (k.run)(f[4], &mut st, &mut |s: &str| {
                shm.set(&format!("{name} {s}"));
                !shm.stop().load(Ordering::Relaxed)
            });
        } else {
            let fam = crate::fam::fam(name).expect("family");
            let mut path = parse_path(f[4]);
            if first < 40 {
                first += 1;
                shm.set(&format!("{name} {}", f[4]));
                let (a, b) = (explore::run(fam, &path, false), explore::run(fam, &path, false));
                if a.states != b.states || a.menu != b.menu {
                    st.viols.insert(
                        ("nondeterminism".into(), String::new()),
                        (1, show_path(&path), "two executions of one path differ".into()),
                    );
                }
            }
            explore::explore(fam, &mut path, depth, dev, budget, &mut st, &mut |p| {
                shm.set(&format!("{name} {}", show_path(p)));
                !shm.stop().load(Ordering::Relaxed)
            });
        }
        let mut s = String::new();
        for c in &st.children {
            s.push_str(&format!("C {}\n", show_path(c)));
        }
        for (k, v) in &st.viols {
            s.push_str(&format!(
                "V {}\t{}\t{}\t{}\t{}\n",
                k.0,
                k.1,
                v.0,
                v.1,
                v.2.replace(['\n', '\t'], " ")
            ));
        }
        for c in &st.samples {
            s.push_str(&format!("X {}\n", c.replace(['\n', '\t'], " ")));
        }
        s.push('S');
        for h in &st.states {
            s.push_str(&format!(" {h:x}"));
        }
        s.push_str(&format!("\nD {} {} {} {}\n", st.nodes, st.events, st.polls, st.stopped as u8));
        let mut o = out.lock();
        if o.write_all(s.as_bytes()).is_err() || o.flush().is_err() {
            return;
        }
    }
}

#[derive(Default)]
pub struct Report {
    pub nodes: u64,
    pub events: u64,
    pub polls: u64,
    pub states: HashSet<u64>,
    pub stopped: bool,
    /// (family, rule, props) -> (count, path, msg)
    pub viols: BTreeMap<(String, String, String), (u64, String, String)>,
    pub per_fam: BTreeMap<String, (u64, u64, bool)>,
    pub wall: f64,
    pub samples: Vec<String>,
}

struct Queue {
    q: VecDeque<Task>,
    busy: usize,
    rep: Report,
    halt: bool,
}

struct Proc {
    child: Child,
    inp: std::process::ChildStdin,
    out: BufReader<std::process::ChildStdout>,
    shm: Arc<Shm>,
    file: String,
}

fn spawn(dir: &str, only: &str, i: usize, k: usize) -> Proc {
    let file = format!("{dir}/w{i}-{k}");
    let shm = Shm::open(&file, true);
    shm.stop().store(false, Ordering::SeqCst);
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", &file, only])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    Proc {
        inp: child.stdin.take().unwrap(),
        out: BufReader::new(child.stdout.take().unwrap()),
        child,
        shm: Arc::new(shm),
        file,
    }
}

/// `stop_on`: a violation for which this holds ends the run early
pub fn run(tasks: Vec<Task>, limit: Duration, hang: Duration, only: &str, stop_on: &(dyn Fn(&str, &str, &str, &str) -> bool + Sync)) -> Report {
    let t0 = Instant::now();
    let dir = format!("{}/mc-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch");
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let q = Mutex::new(Queue { q: tasks.into(), busy: 0, rep: Report::default(), halt: false });
    let cv = Condvar::new();
    // shared with the watchdog: (shm, pid, busy, last seq, since)
    let slots: Vec<Mutex<Option<(Arc<Shm>, u32, bool, u64, Instant)>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for i in 0..n {
            let (q, cv, slots, dir) = (&q, &cv, &slots, &dir);
            sc.spawn(move || {
                let mut k = 0;
                let mut p = spawn(dir, only, i, k);
                let mut served = 0u64;
                let mut ran = 0u64;
                loop {
                    let (task, budget) = {
                        let mut g = q.lock().unwrap();
                        loop {
                            if g.halt {
                                g.q.clear();
                            }
                            if let Some(t) = g.q.pop_front() {
                                g.busy += 1;
                                // split finely while there is too little to share
                                let budget: u64 = if t.path == "-" || g.q.len() < n { 1 } else { 2000 };
                                break (t, budget);
                            }
                            if g.busy == 0 {
                                cv.notify_all();
                                drop(g);
                                drop(p.inp);
                                let _ = p.child.wait();
                                let _ = std::fs::remove_file(&p.file);
                                return;
                            }
                            g = cv.wait(g).unwrap();
                        }
                    };
                    *slots[i].lock().unwrap() =
                        Some((p.shm.clone(), p.child.id(), true, p.shm.seq().load(Ordering::SeqCst), Instant::now()));
                    let line = format!("{} {} {} {} {}\n", task.fam, task.depth, task.dev, budget, task.path);
                    let mut ok = p.inp.write_all(line.as_bytes()).is_ok() && p.inp.flush().is_ok();
                    let mut lines = vec![];
                    while ok {
                        let mut l = String::new();
                        match p.out.read_line(&mut l) {
                            Ok(0) | Err(_) => ok = false,
                            Ok(_) => {
                                let end = l.starts_with("D ");
                                lines.push(l);
                                if end {
                                    break;
                                }
                            }
                        }
                    }
                    let hung = {
                        let mut s = slots[i].lock().unwrap();
                        let h = s.as_ref().map(|s| !s.2).unwrap_or(false);
                        *s = None;
                        h
                    };
                    let mut g = q.lock().unwrap();
                    g.busy -= 1;
                    if !ok {
                        let at = p.shm.get();
                        let (f, path) = at.split_once(' ').unwrap_or((&task.fam, &task.path));
                        let st = p.child.wait();
                        let (rule, msg) = if hung {
                            ("hang", format!("no progress for {}s", hang.as_secs()))
                        } else {
                            ("crash", format!("process died: {st:?}"))
                        };
                        let e = (1, path.to_string(), msg.clone());
                        g.rep.viols.entry((f.to_string(), rule.into(), "*".into())).or_insert(e);
                        g.rep.stopped = true;
                        if stop_on(f, rule, "*", &msg) {
                            g.halt = true;
                        }
                    } else {
                        for l in lines {
                            let l = l.trim_end_matches('\n');
                            let (k, rest) = l.split_at(1);
                            let rest = rest.trim_start();
                            match k {
                                "C" => {
                                    let t = Task { path: rest.to_string(), ..task.clone() };
                                    g.q.push_back(t)
                                }
                                "V" => {
                                    let f: Vec<&str> = rest.splitn(5, '\t').collect();
                                    let c: u64 = f[2].parse().unwrap_or(1);
                                    if stop_on(&task.fam, f[0], f[1], f[4]) {
                                        g.halt = true;
                                    }
                                    let e = g
                                        .rep
                                        .viols
                                        .entry((task.fam.clone(), f[0].into(), f[1].into()))
                                        .or_insert_with(|| (0, f[3].into(), f[4].into()));
                                    e.0 += c;
                                    if f[3].len() < e.1.len() {
                                        e.1 = f[3].into();
                                        e.2 = f[4].into();
                                    }
                                }
                                "X" => {
                                    if g.rep.samples.len() < 40 {
                                        g.rep.samples.push(rest.to_string())
                                    }
                                }
                                "S" => {
                                    if g.rep.states.len() < 30_000_000 {
                                        g.rep.states.extend(
                                            rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()),
                                        )
                                    }
                                }
                                "D" => {
                                    let f: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                                    g.rep.nodes += f[0];
                                    ran += f[0];
                                    g.rep.events += f[1];
                                    g.rep.polls += f[2];
                                    let stopped = f[3] == 1;
                                    g.rep.stopped |= stopped;
                                    let name = format!("{}(depth {}, deviations {})", task.fam, task.depth, task.dev);
                                    let e = g.rep.per_fam.entry(name).or_default();
                                    e.0 += f[0];
                                    e.1 += f[1];
                                    e.2 |= stopped;
                                }
                                _ => {}
                            }
                        }
                    }
                    if g.halt {
                        g.q.clear();
                        slots.iter().for_each(|s| {
                            if let Ok(s) = s.try_lock()
                                && let Some(s) = &*s
                            {
                                s.0.stop().store(true, Ordering::SeqCst)
                            }
                        });
                    }
                    cv.notify_all();
                    drop(g);
                    served += 1;
                    // executions leak a little: use a fresh process now and then
                    if !ok || ran > 15_000 || served % 4000 == 0 {
                        ran = 0;
                        drop(p.inp);
                        let _ = p.child.kill();
                        let _ = p.child.wait();
                        let _ = std::fs::remove_file(&p.file);
                        k += 1;
                        p = spawn(dir, only, i, k);
                    }
                }
            });
        }
        // watchdog
        let (q, slots, done) = (&q, &slots, &done);
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let over = t0.elapsed() > limit;
                for s in slots {
                    let mut g = s.lock().unwrap();
                    if let Some((shm, pid, busy, seq, since)) = &mut *g {
                        if over {
                            shm.stop().store(true, Ordering::SeqCst);
                        }
                        let now = shm.seq().load(Ordering::SeqCst);
                        if now != *seq {
                            *seq = now;
                            *since = Instant::now();
                        } else if *busy && since.elapsed() > hang {
                            *busy = false;
                            unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
                        }
                    }
                }
                let mut g = q.lock().unwrap();
                if over {
                    if !g.q.is_empty() {
                        g.rep.stopped = true;
                    }
                    g.halt = true;
                    g.q.clear();
                }
                if g.busy == 0 && g.q.is_empty() {
                    return;
                }
            }
        });
    });
    let _ = std::fs::remove_dir_all(&dir);
    let mut rep = q.into_inner().unwrap().rep;
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}
