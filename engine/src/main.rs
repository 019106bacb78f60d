//! symex: bounded symbolic execution of rustc's LLVM IR, deciding assertions with Z3.
mod exec;
mod expr;
mod fx;
mod ir;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::c_void;
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
}

struct Shared {
    active: AtomicI64,
    seq: AtomicU64,
    stop: AtomicU64,
    steps: AtomicU64,
    viols: AtomicU64,
    /// Milliseconds after the start at which the first violation was found.
    first: AtomicU64,
}

static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
static EARLY: AtomicU64 = AtomicU64::new(0);

/// Leaves a violation where the driver finds it even if this program does not finish.
fn early(kind: &str, id: &str, trace: &[String], cells: &[(u32, u64, u8)]) {
    let n = EARLY.fetch_add(1, Ordering::Relaxed);
    let p = format!("{}/early.{}.{}", OUT.get().unwrap(), std::process::id(), n);
    cells_file(&format!("{}.txt", p), cells);
    let j = format!("{{\"kind\":{},\"id\":\"{}\",\"file\":{},\"trace\":\"{}\"}}", q(kind), esc(id), q(&format!("{}.txt", p)), esc(&trace.join(" | ")));
    std::fs::write(format!("{}.tmp", p), j).unwrap();
    std::fs::rename(format!("{}.tmp", p), format!("{}.json", p)).unwrap();
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn q(s: &str) -> String {
    format!("\"{}\"", esc(s))
}
fn cells_file(path: &str, cells: &[(u32, u64, u8)]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for (a, i, v) in cells {
        writeln!(f, "{} {} {}", a, i, v).unwrap();
    }
}

struct Opt {
    ll: String,
    entry: String,
    out: String,
    workers: i64,
    deadline: f64,
    max_steps: u64,
    max_paths: u64,
    max_viol: u64,
    arith: bool,
    /// Seconds to go on after the first violation.
    after: u64,
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut o = Opt { ll: String::new(), entry: String::new(), out: String::new(), workers: 8, deadline: 800.0, max_steps: 3_000_000, max_paths: u64::MAX, max_viol: 24, arith: false, after: 30 };
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--ll" => o.ll = v(),
            "--entry" => o.entry = v(),
            "--out" => o.out = v(),
            "--workers" => o.workers = v().parse().unwrap(),
            "--deadline" => o.deadline = v().parse().unwrap(),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--after" => o.after = v().parse().unwrap(),
            "--arith" => o.arith = v() == "1",
            _ => panic!("unknown option {}", k),
        }
    }
    let t = std::thread::Builder::new().stack_size(3 << 30).spawn(move || run(o)).unwrap();
    let code = t.join().unwrap_or(3);
    std::process::exit(code);
}

fn run(o: Opt) -> i32 {
    let t0 = Instant::now();
    std::fs::create_dir_all(&o.out).unwrap();
    let text = std::fs::read_to_string(&o.ll).expect("ll");
    let m = ir::Module::parse(text);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.active.store(1, Ordering::SeqCst);
    let mut ex = Exec::new(m);
    ex.max_steps = o.max_steps;
    OUT.set(o.out.clone()).unwrap();
    ex.on_violation = Some(early);
    ex.until = Some(t0 + Duration::from_secs_f64(o.deadline));
    ex.s.arith = o.arith;
    ex.p.words = o.arith;
    let st = match ex.start(&o.entry) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    ex.work.push(st);
    // workers which are left by their parents become children of this process (PR_SET_CHILD_SUBREAPER)
    unsafe { prctl(36, 1, 0, 0, 0) };
    let mut handed = Instant::now();
    let mut is_child = false;
    let mut my_id = 0u64;
    let mut last_steps = 0;
    'outer: while let Some(mut st) = ex.work.pop() {
        loop {
            // run in slices so that work can be handed out
            let base_steps = st.steps;
            let end = ex.exec_slice(&mut st, 20_000);
            let _ = base_steps;
            sh.steps.fetch_add(ex.rep.steps - last_steps, Ordering::Relaxed);
            last_steps = ex.rep.steps;
            let first = sh.first.load(Ordering::Relaxed);
            let enough = first > 0 && t0.elapsed().as_millis() as u64 > first + o.after * 1000;
            if enough || t0.elapsed().as_secs_f64() > o.deadline || ex.rep.paths >= o.max_paths || sh.stop.load(Ordering::Relaxed) != 0 {
                ex.rep.stopped += 1 + ex.work.len() as u64;
                sh.stop.store(1, Ordering::Relaxed);
                if let Some(e) = end {
                    ex.finish(&st, e);
                }
                break 'outer;
            }
            // hand out half of the pending states
            while (ex.work.len() >= 2 || (ex.work.len() == 1 && end.is_none())) && handed.elapsed().as_millis() >= 10 {
                let act = sh.active.load(Ordering::Relaxed);
                if act >= o.workers {
                    break;
                }
                if sh.active.compare_exchange(act, act + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
                    continue;
                }
                let pid = unsafe { fork() };
                if pid < 0 {
                    sh.active.fetch_sub(1, Ordering::SeqCst);
                    break;
                }
                let n = ex.work.len();
                let take: Vec<usize> = (0..n).filter(|i| i % 2 == 0).collect();
                let all = std::mem::take(&mut ex.work);
                let mut mine = vec![];
                let mut theirs = vec![];
                for (i, s) in all.into_iter().enumerate() {
                    if take.contains(&i) { theirs.push(s) } else { mine.push(s) }
                }
                if pid == 0 {
                    is_child = true;
                    my_id = sh.seq.fetch_add(1, Ordering::SeqCst) + 1;
                    ex.work = theirs;
                    ex.rep = Report::default();
                    last_steps = 0;
                    ex.s.stats = Default::default();
                    ex.dbgs.iter_mut().for_each(|x| *x = 0);
                    ex.fset.clear();
                    ex.sample_max = 6;
                    ex.sample_mod = 64;
                    handed = Instant::now();
                    continue 'outer;
                } else {
                    ex.work = mine;
                    handed = Instant::now();
                }
            }
            if let Some(e) = end {
                ex.finish(&st, e);
                break;
            }
        }
        let nv = ex.rep.violations.len() as u64;
        if nv > 0 {
            let ms = t0.elapsed().as_millis() as u64 + 1;
            let _ = sh.first.compare_exchange(0, ms, Ordering::Relaxed, Ordering::Relaxed);
        }
        if nv > 0 && sh.viols.fetch_max(nv, Ordering::Relaxed) >= o.max_viol {
            // enough counterexamples: stop exploring
            ex.rep.stopped += ex.work.len() as u64;
            break;
        }
    }
    sh.active.fetch_sub(1, Ordering::SeqCst);
    write_result(&ex, &o.out, my_id);
    if is_child {
        unsafe { _exit(0) };
    }
    let mut bad = 0;
    loop {
        let mut s = 0;
        if unsafe { waitpid(-1, &mut s, 0) } < 0 {
            break;
        }
        bad += (s != 0) as u64;
    }
    if bad > 0 {
        std::fs::write(format!("{}/crash.{}", o.out, my_id), format!("{} worker(s) died", bad)).unwrap();
    }
    merge(&o, t0.elapsed());
    0
}

/// Line-based partial result; merged by the root process.
fn write_result(ex: &Exec, out: &str, id: u64) {
    let r = &ex.rep;
    let s = &ex.s.stats;
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/part.{}", out, id)).unwrap());
    macro_rules! n {
        ($k:expr, $v:expr) => {
            writeln!(f, "N\t{}\t{}", $k, $v).unwrap()
        };
    }
    n!("paths", r.paths);
    n!("infeasible", r.infeasible);
    n!("steps", r.steps);
    n!("forks", r.forks);
    n!("checks", r.checks);
    n!("checks_trivial", r.checks_trivial);
    n!("stopped", r.stopped);
    n!("queries", s.queries);
    n!("cache_hits", s.cache_hits);
    n!("cex_hits", s.cex_hits);
    n!("smt_queries", s.smt);
    n!("smt_unsat", s.unsat);
    n!("smt_sat", s.sat);
    n!("smt_refinements", s.refine);
    n!("integer_queries", s.ints);
    n!("exprs", ex.p.n.len());
    n!("workers", 1);
    writeln!(f, "F\tsolver_seconds\t{}", s.secs).unwrap();
    writeln!(f, "M\tmax_query_seconds\t{}", s.max_secs).unwrap();
    writeln!(f, "M\tmax_path_steps\t{}", r.max_path_steps).unwrap();
    for (k, v) in &r.check_ids {
        writeln!(f, "K\t{}\t{}", esc(k), v).unwrap();
    }
    for k in &r.reach {
        writeln!(f, "R\t{}", esc(k)).unwrap();
    }
    for (k, v) in &r.viol_count {
        writeln!(f, "C\t{}\t{}", esc(k), v).unwrap();
    }
    for e in &r.errors {
        writeln!(f, "E\t{}", esc(e)).unwrap();
    }
    for (i, v) in r.violations.iter().enumerate() {
        let p = format!("{}/viol.{}.{}.txt", out, id, i);
        cells_file(&p, &v.cells);
        writeln!(f, "V\t{}\t{}\t{}\t{}", v.kind, esc(&v.id), p, esc(&v.trace.join(" | "))).unwrap();
    }
    for (i, v) in r.samples.iter().enumerate() {
        let p = format!("{}/sample.{}.{}.txt", out, id, i);
        cells_file(&p, &v.cells);
        let o: Vec<String> = v.obs.iter().map(|x| x.to_string()).collect();
        writeln!(f, "S\t{}\t{}", p, o.join(" ")).unwrap();
    }
    // coverage: functions (including inlined) and source lines
    let mut fns: BTreeSet<(String, String)> = BTreeSet::new();
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
    for (w, &bits) in ex.dbgs.iter().enumerate() {
        if bits == 0 {
            continue;
        }
        for b in 0..64 {
            if bits >> b & 1 == 1 {
                if let Some((file, l, n)) = ex.dbg_loc((w * 64 + b) as u32) {
                    if let Some(i) = file.find("/repo/") {
                        let file = file[i + 6..].to_string();
                        fns.insert((file.clone(), n));
                        if l > 0 {
                            lines.insert((file, l));
                        }
                    }
                }
            }
        }
    }
    for (a, b) in fns {
        writeln!(f, "G\t{}\t{}", esc(&a), esc(&b)).unwrap();
    }
    for (a, b) in lines {
        writeln!(f, "L\t{}\t{}", esc(&a), b).unwrap();
    }
    for id in &ex.fset {
        writeln!(f, "D\t{}", ex.m.funcs[*id as usize].name).unwrap();
    }
}

fn merge(o: &Opt, wall: Duration) {
    let mut n: BTreeMap<String, f64> = BTreeMap::new();
    let mut k: BTreeMap<String, u64> = BTreeMap::new();
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    let mut r: BTreeSet<String> = BTreeSet::new();
    let mut e: BTreeMap<String, u64> = BTreeMap::new();
    let mut g: BTreeSet<String> = BTreeSet::new();
    let mut d: BTreeSet<String> = BTreeSet::new();
    let mut l: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut v = vec![];
    let mut s = vec![];
    for f in std::fs::read_dir(&o.out).unwrap().flatten() {
        let name = f.file_name().to_string_lossy().to_string();
        if name.starts_with("crash.") {
            *e.entry("a worker process died (out of memory or engine crash)".into()).or_insert(0) += 1;
        }
        if !name.starts_with("part.") {
            continue;
        }
        for line in std::fs::read_to_string(f.path()).unwrap().lines() {
            let p: Vec<&str> = line.split('\t').collect();
            match p[0] {
                "N" | "F" => *n.entry(p[1].into()).or_insert(0.0) += p[2].parse::<f64>().unwrap(),
                "M" => {
                    let x = n.entry(p[1].into()).or_insert(0.0);
                    *x = x.max(p[2].parse().unwrap());
                }
                "K" => *k.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "C" => *c.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "R" => {
                    r.insert(p[1].into());
                }
                "E" => *e.entry(p[1].into()).or_insert(0) += 1,
                "G" => {
                    g.insert(format!("{} {}", p[1], p[2]));
                }
                "D" => {
                    d.insert(p[1].into());
                }
                "L" => {
                    l.entry(p[1].into()).or_default().insert(p[2].parse().unwrap());
                }
                "V" => v.push(format!("{{\"kind\":{},\"id\":\"{}\",\"file\":{},\"trace\":\"{}\"}}", q(p[1]), p[2], q(p[3]), p[4])),
                "S" => s.push(format!("{{\"file\":{},\"obs\":[{}]}}", q(p[1]), p.get(2).unwrap_or(&"").replace(' ', ","))),
                _ => {}
            }
        }
    }
    let num = |x: f64| if x.fract() == 0.0 { format!("{}", x as u64) } else { format!("{:.3}", x) };
    let mut j = String::from("{");
    j += &format!("\"entry\":{},\"wall_s\":{:.3},\"solver\":{},", q(&o.entry), wall.as_secs_f64(), q(&solver::version()));
    j += &format!("\"counters\":{{{}}},", n.iter().map(|(a, b)| format!("{}:{}", q(a), num(*b))).collect::<Vec<_>>().join(","));
    j += &format!("\"checks\":{{{}}},", k.iter().map(|(a, b)| format!("\"{}\":{}", a, b)).collect::<Vec<_>>().join(","));
    j += &format!("\"violation_counts\":{{{}}},", c.iter().map(|(a, b)| format!("\"{}\":{}", a, b)).collect::<Vec<_>>().join(","));
    j += &format!("\"errors\":{{{}}},", e.iter().map(|(a, b)| format!("\"{}\":{}", a, b)).collect::<Vec<_>>().join(","));
    j += &format!("\"reach\":[{}],", r.iter().map(|a| format!("\"{}\"", a)).collect::<Vec<_>>().join(","));
    j += &format!("\"functions\":[{}],", g.iter().map(|a| format!("\"{}\"", a)).collect::<Vec<_>>().join(","));
    j += &format!("\"ir_functions\":{},", d.len());
    j += &format!("\"lines\":{{{}}},", l.iter().map(|(a, b)| format!("\"{}\":[{}]", a, b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    j += &format!("\"violations\":[{}],", v.join(","));
    j += &format!("\"samples\":[{}]}}\n", s.join(","));
    std::fs::write(format!("{}/result.json", o.out), j).unwrap();
}
