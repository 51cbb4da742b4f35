//! lirsym: decide harness assertions by symbolic execution of LLVM IR.
mod exec;
mod fl;
mod formula;
mod int;
mod ir;
mod mem;
mod bnp;
mod poly;
mod smt;
mod state;
mod val;
mod z;

use state::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Stats {
    name: String,
    paths: u64,
    infeasible: u64,
    panics: u64,
    unsup: BTreeMap<String, u64>,
    steps_out: u64,
    checks: u64,
    forks: u64,
    bands: u64,
    reached: u64,
    queries: u64,
    boxed: u64,
    unsat: u64,
    unknown: u64,
    errors: u64,
    solver: f64,
    unsettled: u64,
    max_depth: u32,
    used: BTreeSet<Arc<str>>,
    violation: Option<(String, String)>, // what, replay line
    candidates: Vec<String>,
    wit: Vec<String>,   // one input per explored path
    replayed: u64,
}

/// Pending paths of one harness and what it has used.
struct Job {
    q: Vec<State>,
    busy: usize,
    starts: f64, // sum of the start times of the running paths
    cpu: f64,
    dead: bool,   // violated or cut off
    closed: bool, // witnesses replayed
    stop: Arc<AtomicBool>,
    s: Stats,
    tries: usize,
}
struct Queue {
    jobs: Vec<Job>,
    rng: u64,
    fin: bool,
    t0: Instant,
}

struct Opts {
    ll: String,
    harness: Vec<String>,
    replay: Vec<String>,
    json: Option<String>,
    threads: usize,
    time: f64,
    total: f64,
    seed: u64,
    qtimeout: u64,
    z3: String,
    verbose: bool,
    skip: Vec<String>,
    max_steps: u64,
}

fn main() {
    let mut o = Opts {
        ll: String::new(),
        harness: vec![],
        replay: vec![],
        json: None,
        threads: 8,
        time: 60.0,
        total: 1e9,
        seed: 1,
        qtimeout: 4000,
        z3: "z3-new".into(),
        verbose: false,
        skip: vec![],
        max_steps: 3_000_000,
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut nx = || a.next().expect("argument");
        match x.as_str() {
            "--harness" => o.harness.extend(nx().split(',').map(|s| s.to_string())),
            "--replay" => o.replay.push(nx()),
            "--json" => o.json = Some(nx()),
            "--threads" => o.threads = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--total" => o.total = nx().parse().unwrap(),
            "--seed" => o.seed = nx().parse().unwrap(),
            "--query-timeout" => o.qtimeout = nx().parse().unwrap(),
            "--z3" => o.z3 = nx(),
            "--max-steps" => o.max_steps = nx().parse().unwrap(),
            "--skip" => o.skip.push(nx()),
            "-v" => o.verbose = true,
            f => o.ll = f.into(),
        }
    }
    let src = std::fs::read_to_string(&o.ll).expect("cannot read the IR");
    let m = match ir::parse(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("lirsym: parse error: {}", e);
            std::process::exit(2);
        }
    };
    let ctx = match link(m, o.max_steps) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("lirsym: link error: {}", e);
            std::process::exit(2);
        }
    };
    let mut out = vec![];
    let mut bad = false;
    for (h, (s, left, wall)) in o.harness.iter().zip(run(&ctx, &o)) {
        let unsup: u64 = s.unsup.values().sum();
        println!(
            "{}: paths {} (unfinished {}, undecided {}, unsettled {}) checks {} bands {} forks {} queries {} (unsat {}, unknown {}) solver {:.1}s cpu {:.1}s{}",
            h, s.paths, left, unsup + s.steps_out, s.unsettled, s.checks, s.bands, s.forks, s.queries, s.unsat, s.unknown, s.solver, wall,
            match &s.violation { Some(v) => format!(" VIOLATED {} [{}]", v.0, v.1), None => String::new() }
        );
        for (k, n) in &s.unsup {
            println!("   undecided x{}: {}", n, k);
        }
        if o.verbose {
            for c in s.candidates.iter().take(5) {
                println!("   not reproduced: {}", c);
            }
        }
        bad |= s.violation.is_some();
        out.push(json(h, &s, left, wall));
    }
    if let Some(p) = &o.json {
        std::fs::write(p, format!("[{}]\n", out.join(",\n"))).expect("cannot write the result");
    }
    std::process::exit(if bad { 1 } else { 0 });
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn json(h: &str, s: &Stats, left: usize, wall: f64) -> String {
    let uns: Vec<String> = s.unsup.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let used: Vec<String> = s.used.iter().map(|x| js(x)).collect();
    format!(
        "{{\"harness\":{},\"paths\":{},\"infeasible\":{},\"unfinished\":{},\"undecided\":{{{}}},\"step_limit\":{},\"unsettled\":{},\"checks\":{},\"bands\":{},\"reached\":{},\"forks\":{},\"queries\":{},\"unsat\":{},\"unknown\":{},\"boxed\":{},\"solver_errors\":{},\"solver_s\":{:.2},\"cpu_s\":{:.2},\"max_depth\":{},\"replayed\":{},\"sample\":{},\"violation\":{},\"replay\":{},\"functions\":[{}]}}",
        js(h), s.paths, s.infeasible, left, uns.join(","), s.steps_out, s.unsettled, s.checks, s.bands, s.reached, s.forks,
        s.queries, s.unsat, s.unknown, s.boxed, s.errors, s.solver, wall, s.max_depth, s.replayed, s.wit.first().map_or("null".into(), |x| js(x)),
        s.violation.as_ref().map_or("null".into(), |v| js(&v.0)),
        s.violation.as_ref().map_or("null".into(), |v| js(&v.1)),
        used.join(",")
    )
}

fn line(h: &str, i: &[Inp]) -> String {
    let mut s = h.to_string();
    for x in i {
        match x {
            Inp::I(k) => s.push_str(&format!(" i{}", k)),
            Inp::F(f) => s.push_str(&format!(" f{:08x}", f.to_bits())),
        }
    }
    s
}

/// Run input lines on the natively compiled harness; first failing line and its message.
fn replay(bins: &[String], lines: &[String], skip: &[String]) -> Option<(String, String)> {
    lines.chunks(200).find_map(|c| replay1(bins, c, skip))
}
fn replay1(bins: &[String], lines: &[String], skip: &[String]) -> Option<(String, String)> {
    for b in bins {
        let mut c = match Command::new("timeout")
            .args(["-s", "KILL", "20", b.as_str()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                eprintln!("lirsym: cannot start {}: {}", b, e);
                continue;
            }
        };
        let mut si = c.stdin.take().unwrap();
        let txt = lines.join("\n") + "\n";
        let wr = std::thread::spawn(move || {
            let _ = si.write_all(txt.as_bytes());
        });
        let out = c.wait_with_output();
        let _ = wr.join();
        if let Ok(out) = out {
            let txt = String::from_utf8_lossy(&out.stdout).into_owned();
            let res: Vec<&str> = txt.lines().filter_map(|l| l.strip_prefix("@@")).collect();
            for (l, r) in lines.iter().zip(&res) {
                if let Some(msg) = r.strip_prefix("FAIL ") {
                    if skip.iter().any(|s| msg.contains(s.as_str())) {
                        continue;
                    }
                    return Some((msg.to_string(), l.clone()));
                }
            }
            // killed on a line: that run does not end (137: KILL by timeout)
            if res.len() < lines.len() && out.status.code() != Some(0) {
                use std::os::unix::process::ExitStatusExt;
                let k = out.status.code() == Some(137) || out.status.signal() == Some(9);
                if k && lines.len() > 1 {
                    // that line by itself, and the ones after it
                    let n = res.len();
                    let one = replay1(bins, &lines[n..n + 1], skip);
                    if one.is_some() || n + 1 == lines.len() {
                        return one;
                    }
                    return replay1(bins, &lines[n + 1..], skip);
                }
                let msg = if k { "does not terminate" } else { "aborts" };
                return Some((msg.to_string(), lines[res.len()].clone()));
            }
        }
    }
    None
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn unit(&mut self) -> f32 {
        (self.next() >> 40) as f32 / (1u64 << 24) as f32
    }
}
/// The candidate itself and nearby inputs (a model of the real-arithmetic
/// encoding may lie a rounding error away from the inputs that fail).
fn near(i: &[Inp]) -> Vec<Vec<Inp>> {
    let mut r = vec![i.to_vec()];
    if !i.iter().any(|x| matches!(x, Inp::F(_))) {
        return r;
    }
    let mut g = Rng(0x9e3779b97f4a7c15);
    for scale in [1e-7f32, 1e-6, 1e-5, 1e-4, 1e-3] {
        for _ in 0..12 {
            r.push(
                i.iter()
                    .map(|x| match x {
                        Inp::F(f) => Inp::F(f + (g.unit() * 2.0 - 1.0) * scale * f.abs().max(1.0)),
                        x => x.clone(),
                    })
                    .collect(),
            );
        }
    }
    r
}

enum Work {
    Path(usize, State, f64),
    Close(usize, Vec<String>),
}
impl Job {
    fn used(&self, now: f64) -> f64 {
        self.cpu + self.busy as f64 * now - self.starts
    }
}
impl Queue {
    /// A path of the open harness that has used the least time so far; or a
    /// finished harness whose witnesses are to be run natively.
    fn pick(&mut self, cap: f64) -> Option<Work> {
        let mut best: Option<usize> = None;
        let mut least = 0.0;
        let now = self.t0.elapsed().as_secs_f64();
        for (i, j) in self.jobs.iter_mut().enumerate() {
            if j.closed {
                continue;
            }
            if j.dead || self.fin || j.q.is_empty() || j.used(now) > cap {
                if j.busy == 0 {
                    j.closed = true;
                    for st in j.q.iter().filter(|x| x.wok).take(400) {
                        j.s.wit.push(line(&j.s.name, &st.concrete_inputs()));
                    }
                    j.s.wit.sort();
                    j.s.wit.dedup();
                    if j.s.violation.is_none() && !j.s.wit.is_empty() {
                        j.s.replayed = j.s.wit.len() as u64;
                        return Some(Work::Close(i, j.s.wit.clone()));
                    }
                }
                continue;
            }
            // every running path counts for a little, so that cheap harnesses spread
            let c = j.used(now) + 0.05 * j.busy as f64;
            if best.is_none() || c < least {
                best = Some(i);
                least = c;
            }
        }
        let i = best?;
        // an arbitrary pending path: a run cut short by its time
        // limit has then seen a spread of the space
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let j = &mut self.jobs[i];
        let n = j.q.len();
        let k = if n > 20000 { n - 1 } else { (self.rng >> 33) as usize % n };
        j.busy += 1;
        j.starts += now;
        Some(Work::Path(i, j.q.swap_remove(k), now))
    }
    /// Whether another harness has had less time than this one and waits for a thread.
    fn outranked(&self, i: usize, cap: f64) -> bool {
        let now = self.t0.elapsed().as_secs_f64();
        let own = self.jobs[i].used(now);
        own > cap
            || self.jobs.iter().enumerate().any(|(k, j)| k != i && !j.closed && !j.dead && !j.q.is_empty() && j.used(now) < own)
    }
    fn over(&self) -> bool {
        self.jobs.iter().all(|j| j.closed)
    }
}

fn run(ctx: &Ctx, o: &Opts) -> Vec<(Stats, usize, f64)> {
    let deadline = Instant::now() + Duration::from_secs_f64(o.total);
    let cap = o.time * o.threads as f64;
    let mut jobs = vec![];
    for h in &o.harness {
        let stop = Arc::new(AtomicBool::new(false));
        let mut j = Job { q: vec![], busy: 0, starts: 0.0, cpu: 0.0, dead: false, closed: false, stop: stop.clone(), s: Stats::default(), tries: 0 };
        j.s.name = h.clone();
        let mut smt = smt::Smt::new(&o.z3, o.qtimeout, stop.clone());
        let mut used = BTreeSet::new();
        let mut ex = Ex {
            c: ctx,
            smt: &mut smt,
            st: State::new(ctx.base_mem.clone()),
            spawned: vec![],
            used: &mut used,
            stop: &stop,
            checks: 0,
            forks: 0,
            bands: 0,
        };
        match ex.call_fn(&h.as_str().into(), vec![]) {
            Ok(_) => j.q.push(ex.st),
            Err(e) => {
                j.s.unsup.insert(format!("{:?}", e), 1);
            }
        }
        jobs.push(j);
    }
    let q = Mutex::new(Queue { jobs, rng: o.seed, fin: false, t0: Instant::now() });
    let cv = Condvar::new();
    std::thread::scope(|sc| {
        // deadline watcher
        sc.spawn(|| loop {
            {
                let mut g = q.lock().unwrap();
                if g.over() {
                    break;
                }
                if !g.fin && Instant::now() > deadline {
                    g.fin = true;
                    for j in &g.jobs {
                        j.stop.store(true, Ordering::Relaxed);
                    }
                    cv.notify_all();
                }
            }
            std::thread::sleep(Duration::from_millis(20));
        });
        for _ in 0..o.threads {
            sc.spawn(|| {
                let never = Arc::new(AtomicBool::new(false));
                let mut smt = smt::Smt::new(&o.z3, o.qtimeout, never);
                loop {
                    let work = {
                        let mut g = q.lock().unwrap();
                        loop {
                            if let Some(w) = g.pick(cap) {
                                break Some(w);
                            }
                            if g.over() {
                                cv.notify_all();
                                break None;
                            }
                            g = cv.wait(g).unwrap();
                        }
                    };
                    let (ji, st) = match work {
                        None => break,
                        Some(Work::Close(i, wit)) => {
                            // the real code is run on the witness of every explored path
                            if !o.replay.is_empty() {
                                if let Some((msg, ln)) = replay(&o.replay, &wit, &o.skip) {
                                    let mut g = q.lock().unwrap();
                                    g.jobs[i].s.violation = Some((format!("{} (path witness)", msg), ln));
                                }
                            }
                            continue;
                        }
                        Some(Work::Path(i, st, t)) => (i, (st, t)),
                    };
                    let (st, tq) = st;
                    let (h, stop) = {
                        let g = q.lock().unwrap();
                        (g.jobs[ji].s.name.clone(), g.jobs[ji].stop.clone())
                    };
                    let t0 = Instant::now();
                    smt.stop = stop.clone();
                    let before = (smt.queries, smt.boxed, smt.unsat, smt.unknown, smt.errors, smt.time);
                    let mut used = BTreeSet::new();
                    let mut ex = Ex {
                        c: ctx,
                        smt: &mut smt,
                        st,
                        spawned: vec![],
                        used: &mut used,
                        stop: &stop,
                        checks: 0,
                        forks: 0,
                        bands: 0,
                    };
                    // run the path; publish siblings as they appear
                    let end = loop {
                        let e = ex.run_some(512);
                        if !ex.spawned.is_empty() {
                            let sp = std::mem::take(&mut ex.spawned);
                            let mut g = q.lock().unwrap();
                            g.jobs[ji].q.extend(sp);
                            cv.notify_all();
                        }
                        if let Some(e) = e {
                            break e;
                        }
                        // a long path makes way for the harnesses that had less time
                        if t0.elapsed().as_secs_f64() > 1.5 && q.lock().unwrap().outranked(ji, cap) {
                            break End::Stop;
                        }
                    };
                    let mut l = Stats::default();
                    l.checks += ex.checks;
                    l.forks += ex.forks;
                    l.bands += ex.bands;
                    l.max_depth = ex.st.depth;
                    l.reached += ex.st.seen_checks as u64;
                    let wok = ex.st.wok;
                    let inputs = ex.st.concrete_inputs();
                    let mut cand: Option<(String, Vec<Inp>)> = None;
                    let mut again: Option<State> = None;
                    match end {
                        End::Done => {
                            l.paths += 1;
                            if wok {
                                l.wit.push(line(&h, &inputs));
                            }
                        }
                        End::Infeasible => l.infeasible += 1,
                        End::Unsupported(s) => {
                            *l.unsup.entry(s.clone()).or_insert(0) += 1;
                            if o.verbose {
                                println!("   UNDECIDED {} near {}", s, line(&h, &inputs));
                            }
                            // a path the engine cannot follow is at least tried on its witness
                            cand = Some((format!("undecided: {}", s), inputs));
                        }
                        End::Steps => {
                            l.steps_out += 1;
                            cand = Some(("does not terminate".into(), inputs));
                        }
                        End::Stop => {
                            again = Some(ex.st.clone());
                        }
                        End::Panic(s) => {
                            l.panics += 1;
                            let sure = ex.sure_path();
                            if !sure && !wok {
                                if let smt::Res::Sat(m, b) = ex.smt.check(&ex.st.vars, &ex.st.pc, &[]) {
                                    ex.st.set_model(&m, &b);
                                }
                            }
                            let inp = ex.st.concrete_inputs();
                            cand = Some((format!("panic: {}", s), inp));
                        }
                        End::Check(id, sure, i) => {
                            cand = Some((format!("check {}{}", id, if sure { "" } else { " (unsure)" }), i));
                        }
                    }
                    drop(ex);
                    let mut found = None;
                    if let Some((what, i)) = cand {
                        let go = {
                            let mut g = q.lock().unwrap();
                            g.jobs[ji].tries += 1;
                            g.jobs[ji].tries <= 400 && !g.jobs[ji].dead
                        };
                        let mut open = true;
                        if go && !o.replay.is_empty() {
                            let lines: Vec<String> = near(&i).iter().map(|x| line(&h, x)).collect();
                            if let Some((msg, ln)) = replay(&o.replay, &lines, &o.skip) {
                                found = Some((format!("{} ({})", msg, what), ln));
                                open = false;
                            }
                        }
                        if open && !what.starts_with("undecided") {
                            l.unsettled += 1;
                            l.candidates.push(format!("{} {}", what, line(&h, &i)));
                        }
                    }
                    l.queries = smt.queries - before.0;
                    l.boxed = smt.boxed - before.1;
                    l.unsat = smt.unsat - before.2;
                    l.unknown = smt.unknown - before.3;
                    l.errors = smt.errors - before.4;
                    l.solver = smt.time - before.5;
                    let mut g = q.lock().unwrap();
                    let j = &mut g.jobs[ji];
                    j.busy -= 1;
                    j.starts -= tq;
                    j.cpu += t0.elapsed().as_secs_f64();
                    if let Some(s) = again {
                        j.q.push(s);
                    }
                    if found.is_some() && j.s.violation.is_none() {
                        j.s.violation = found;
                        j.dead = true;
                        stop.store(true, Ordering::Relaxed);
                    }
                    j.s.add(l);
                    j.s.used.extend(used);
                    cv.notify_all();
                }
            });
        }
    });
    q.into_inner().unwrap().jobs.into_iter().map(|j| (j.s, j.q.len(), j.cpu)).collect()
}

impl Stats {
    fn add(&mut self, l: Stats) {
        self.paths += l.paths;
        self.infeasible += l.infeasible;
        self.panics += l.panics;
        self.steps_out += l.steps_out;
        self.checks += l.checks;
        self.forks += l.forks;
        self.bands += l.bands;
        self.reached += l.reached;
        self.unsettled += l.unsettled;
        self.max_depth = self.max_depth.max(l.max_depth);
        if self.candidates.len() < 20 {
            self.candidates.extend(l.candidates);
        }
        if self.wit.len() < 3200 {
            self.wit.extend(l.wit);
        }
        for (k, n) in l.unsup {
            *self.unsup.entry(k).or_insert(0) += n;
        }
        self.queries += l.queries;
        self.boxed += l.boxed;
        self.unsat += l.unsat;
        self.unknown += l.unknown;
        self.errors += l.errors;
        self.solver += l.solver;
    }
}

impl<'a> Ex<'a> {
    fn run_some(&mut self, n: u32) -> Option<End> {
        for _ in 0..n {
            if let Err(e) = self.step1() {
                return Some(e);
            }
            if !self.spawned.is_empty() {
                return None;
            }
        }
        None
    }
}
