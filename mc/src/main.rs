mod alloc;
mod cgen;
mod check;
mod capi;
mod split;
mod codec;
mod cycles;
mod enumr;
mod exec;
mod explore;
mod fam;
mod hostile;
mod hs;
mod fields;
mod services;
mod idle;
mod mon;
mod peer;
mod pool;
mod refc;
mod sut;

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a[..] {
        ["survey", f, d, dev] => survey(f, d.parse().unwrap(), dev.parse().unwrap()),
        ["worker", f, only] => pool::worker(f, only),
        ["sv", f, d, dev, secs] => sv(f, d.parse().unwrap(), dev.parse().unwrap(), secs.parse().unwrap()),
        ["any", secs, ref specs @ ..] => any(secs.parse().unwrap(), specs),
        ["kind", k, size, pat] => kind(k, size.parse().unwrap(), pat),
        ["path", f, p] => std::process::exit(check::path(f, p, "")),
        ["path", f, p, c] => std::process::exit(check::path(f, p, c)),
        ["check", id, tier] => std::process::exit(check::check(id, tier)),
        ["replay", f] => std::process::exit(check::replay(f)),
        _ => std::process::exit(2),
    }
}


fn survey(f: &str, d: usize, dev: usize) {
    let t = std::time::Instant::now();
    let mut st = explore::Stats::default();
    explore::explore(fam::fam(f).expect("family"), &mut vec![], d, dev, u64::MAX, &mut st, &mut |_| true);
    println!(
        "{f} depth {d} dev {dev}: {} nodes {} states {} events {} polls in {:.1}s",
        st.nodes,
        st.states.len(),
        st.events,
        st.polls,
        t.elapsed().as_secs_f64()
    );
    for (k, v) in &st.viols {
        println!("  {} [{}] x{}  path {}\n      {}", k.0, k.1, v.0, v.1, v.2);
    }
}

fn sv(f: &str, depth: usize, dev: usize, secs: u64) {
    let all = fam::names().join(",");
    let tasks = if f == "all" { &all } else { f }
        .split(',')
        .map(|f| pool::Task { fam: f.into(), depth, dev, path: "-".into() })
        .collect();
    let r = pool::run(tasks, std::time::Duration::from_secs(secs), std::time::Duration::from_secs(20), "-", &|_, _, _, _| false);
    println!(
        "{} nodes {} states {} events {} polls in {:.1}s{}",
        r.nodes, r.states.len(), r.events, r.polls, r.wall, if r.stopped { " STOPPED" } else { "" }
    );
    for (k, v) in &r.per_fam {
        println!("   {k}: {} nodes {} events{}", v.0, v.1, if v.2 { " stopped" } else { "" });
    }
    for (k, v) in &r.viols {
        println!("  {}: {} [{}] x{}  path {}\n      {}", k.0, k.1, k.2, v.0, v.1, v.2);
    }
}

/// all parts of an enumeration whose name starts with `pat`, in worker processes
fn kind(k: &str, size: usize, pat: &str) {
    let kd = enumr::kind(k).expect("kind");
    let tasks = (kd.parts)(size)
        .into_iter()
        .filter(|p| p.starts_with(pat))
        .map(|p| pool::Task { fam: k.into(), depth: size, dev: 0, path: p })
        .collect();
    let r = pool::run(tasks, std::time::Duration::from_secs(3600), std::time::Duration::from_secs(20), "-", &|_, _, _, _| false);
    println!("{k} size {size}: {} nodes {} states in {:.1}s{}", r.nodes, r.states.len(), r.wall, if r.stopped { " STOPPED" } else { "" });
    for (k, v) in &r.viols {
        println!("  {}: {} [{}] x{}  path {}\n      {}", k.0, k.1, k.2, v.0, v.1, v.2);
    }
}

/// `family:depth:deviations` and `kind:size:part-prefix`, until the first violation
fn any(secs: u64, specs: &[&str]) {
    let mut tasks = vec![];
    for s in specs {
        let v: Vec<&str> = s.split(':').collect();
        if let Some(kd) = enumr::kind(v[0]) {
            let size = v[1].parse().unwrap();
            for p in (kd.parts)(size).into_iter().filter(|p| v[2].split('|').any(|x| p.starts_with(x))) {
                tasks.push(pool::Task { fam: v[0].into(), depth: size, dev: 0, path: p })
            }
        } else {
            tasks.push(pool::Task { fam: v[0].into(), depth: v[1].parse().unwrap(), dev: v[2].parse().unwrap(), path: "-".into() })
        }
    }
    let r = pool::run(tasks, std::time::Duration::from_secs(secs), std::time::Duration::from_secs(20), "-", &|_, _, _, _| true);
    println!("any: {} nodes in {:.1}s{}", r.nodes, r.wall, if r.stopped { " STOPPED" } else { "" });
    for (k, v) in r.viols.iter().take(2) {
        let m: String = v.2.chars().take(300).collect();
        println!("VIOL {}: {} [{}] path {}  {}", k.0, k.1, k.2, v.1, m);
    }
    std::process::exit(if !r.viols.is_empty() { 1 } else if r.stopped { 3 } else { 0 })
}
