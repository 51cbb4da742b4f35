//! One z3 process, driven through a pipe. Every query is self-contained.
use crate::formula::F;
use crate::poly::Iv;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Var {
    pub int: bool,
    pub b: Iv,
}

pub enum Res {
    /// values of the variables in the cone; exact = every asserted formula checked or implied
    Sat(Vec<(u16, f64)>, Vec<(u32, bool)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    child: Option<(Child, ChildStdin, Receiver<String>)>,
    pub bin: String,
    pub queries: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub errors: u64,
    pub time: f64,
    pub timeout_ms: u64,
    pub dump: Option<String>,
    pub qlog: bool,
    pub boxed: u64,
    pub stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
}

impl Smt {
    pub fn new(bin: &str, timeout_ms: u64, stop: std::sync::Arc<std::sync::atomic::AtomicBool>) -> Smt {
        Smt {
            child: None,
            bin: bin.into(),
            queries: 0,
            unsat: 0,
            unknown: 0,
            errors: 0,
            time: 0.0,
            timeout_ms,
            dump: None,
            boxed: 0,
            stop,
            qlog: std::env::var("LIRSYM_QLOG").is_ok(),
        }
    }
    fn ensure(&mut self) {
        if self.child.is_some() {
            return;
        }
        let mut c = Command::new(&self.bin)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let si = c.stdin.take().unwrap();
        let so = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((c, si, rx));
    }
    fn kill(&mut self) {
        if let Some((mut c, si, _)) = self.child.take() {
            drop(si);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// Send a script ending in an echo marker; collect the lines before it.
    fn talk(&mut self, script: &str, timeout: u64) -> Option<Vec<String>> {
        self.ensure();
        let (_, si, rx) = self.child.as_mut().unwrap();
        if si.write_all(script.as_bytes()).is_err() || si.flush().is_err() {
            self.kill();
            return None;
        }
        let dl = Instant::now() + Duration::from_millis(timeout + timeout / 2 + 500);
        let mut out = vec![];
        loop {
            let now = Instant::now();
            if now >= dl {
                self.kill();
                return None;
            }
            match rx.recv_timeout((dl - now).min(Duration::from_millis(100))) {
                Err(RecvTimeoutError::Timeout) if !self.stop.load(std::sync::atomic::Ordering::Relaxed) => {}
                Ok(l) => {
                    if l.contains("@@done") {
                        return Some(out);
                    }
                    out.push(l);
                }
                Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => {
                    self.kill();
                    return None;
                }
            }
        }
    }
    /// Is the conjunction satisfiable?
    pub fn check(&mut self, vars: &[Var], pc: &[F], extra: &[F]) -> Res {
        let t0 = Instant::now();
        let r = self.check0(vars, pc, extra);
        self.time += t0.elapsed().as_secs_f64();
        match r {
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
            _ => {}
        }
        r
    }
    fn check0(&mut self, vars: &[Var], pc: &[F], extra: &[F]) -> Res {
        if self.stop.load(std::sync::atomic::Ordering::Relaxed) {
            return Res::Unknown;
        }
        let vb = |v: u16| vars[v as usize].b;
        // cone of influence
        let mut vs = BTreeSet::new();
        let mut bs = BTreeSet::new();
        for f in extra {
            if *f == F::Fl {
                return Res::Unsat;
            }
            f.vars(&mut vs, &mut bs);
        }
        let mut used = vec![false; pc.len()];
        let pv: Vec<(BTreeSet<u16>, BTreeSet<u32>)> = pc
            .iter()
            .map(|f| {
                let mut a = BTreeSet::new();
                let mut b = BTreeSet::new();
                f.vars(&mut a, &mut b);
                (a, b)
            })
            .collect();
        let all = extra.is_empty();
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i]
                    && (all
                        || pv[i].0.iter().any(|v| vs.contains(v))
                        || pv[i].1.iter().any(|v| bs.contains(v)))
                {
                    used[i] = true;
                    ch = true;
                    vs.extend(pv[i].0.iter());
                    bs.extend(pv[i].1.iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut fs: Vec<&F> = vec![];
        for f in extra
            .iter()
            .chain(pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|x| x.1))
        {
            match f.eval_iv(&vb) {
                Some(true) => {}
                Some(false) => return Res::Unsat,
                None => {
                    if !fs.contains(&f) {
                        fs.push(f)
                    }
                }
            }
        }
        let deg = fs.iter().map(|f| f.max_deg()).max().unwrap_or(0);
        let any_int = vs.iter().any(|v| vars[*v as usize].int);
        self.queries += 1;
        if deg <= 1 || !any_int {
            return self.query(vars, &vs, &bs, &fs, !any_int, deg, self.timeout_ms);
        }
        // non-linear with integers: real relaxation first
        match self.query(vars, &vs, &bs, &fs, true, deg, self.timeout_ms.min(500)) {
            Res::Unsat => return Res::Unsat,
            Res::Sat(m, bm) => {
                let n = vars.len();
                let mut w = vec![0.0; n];
                for (v, x) in &m {
                    w[*v as usize] = if vars[*v as usize].int { x.round() } else { *x };
                }
                let nb = bs.iter().max().map(|x| *x as usize + 1).unwrap_or(0);
                let mut bw = vec![false; nb];
                for (i, b) in &bm {
                    bw[*i as usize] = *b;
                }
                if fs.iter().all(|f| f.eval_w(&w, &bw) == Some(true)) {
                    return Res::Sat(m.iter().map(|(v, _)| (*v, w[*v as usize])).collect(), bm);
                }
            }
            Res::Unknown => {}
        }
        if let Some(r) = self.boxes(vars, &vs, &bs, &fs) {
            return r;
        }
        self.queries += 1;
        self.query(vars, &vs, &bs, &fs, false, deg, self.timeout_ms)
    }
    /// Bounded integers only: branch and prune.
    fn boxes(&mut self, vars: &[Var], vs: &BTreeSet<u16>, bs: &BTreeSet<u32>, fs: &[&F]) -> Option<Res> {
        let mut x = vec![];
        for v in vs {
            let b = &vars[*v as usize];
            if !b.int || b.b.mag() > 1e9 {
                return None;
            }
            x.push((b.b.lo.ceil() as i64, b.b.hi.floor() as i64));
            if x.last().unwrap().0 > x.last().unwrap().1 {
                return Some(Res::Unsat);
            }
        }
        let vv: Vec<u16> = vs.iter().copied().collect();
        let bb: Vec<u32> = bs.iter().copied().collect();
        let mut s = crate::bnp::Bnp::new(&vv, &bb, fs, 20000, self.stop.clone());
        let r = s.solve(&x)?;
        self.boxed += 1;
        Some(match r {
            None => Res::Unsat,
            Some((m, bm)) => Res::Sat(
                vv.iter().copied().zip(m.into_iter().map(|k| k as f64)).collect(),
                bb.iter().copied().zip(bm).collect(),
            ),
        })
    }
    fn query(
        &mut self,
        vars: &[Var],
        vs: &BTreeSet<u16>,
        bs: &BTreeSet<u32>,
        fs: &[&F],
        relax: bool,
        deg: u32,
        timeout: u64,
    ) -> Res {
        let all_int = !relax && vs.iter().all(|v| vars[*v as usize].int);
        let real = !all_int;
        let mut s = String::with_capacity(4096);
        s.push_str("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n");
        s.push_str(&format!("(set-option :timeout {})\n", timeout));
        s.push_str(match (deg > 1, all_int, relax) {
            (false, true, _) => "(set-logic QF_LIA)\n",
            (false, false, true) => "(set-logic QF_LRA)\n",
            (false, false, false) => "(set-logic QF_LIRA)\n",
            (true, true, _) => "(set-logic QF_NIA)\n",
            (true, false, true) => "(set-logic QF_NRA)\n",
            (true, false, false) => "",
        });
        let num = |x: f64, real: bool| -> String {
            // exact decimal of a dyadic
            let p = crate::poly::Poly::from_f64(x);
            if p.is_zero() {
                return if real { "0.0".into() } else { "0".into() };
            }
            let c = &p.t[0].1;
            let neg = c.sgn() < 0;
            let a = if neg { c.neg() } else { c.clone() };
            let body = if real {
                if p.e >= 0 {
                    format!("{}.0", a.shl(p.e as u32))
                } else {
                    format!("(/ {}.0 {}.0)", a, crate::z::Z::from(1).shl((-p.e) as u32))
                }
            } else {
                format!("{}", a.shl(p.e.max(0) as u32))
            };
            if neg {
                format!("(- {})", body)
            } else {
                body
            }
        };
        for v in vs {
            let x = &vars[*v as usize];
            let isint = x.int && !relax;
            s.push_str(&format!("(declare-const x{} {})\n", v, if isint { "Int" } else { "Real" }));
            let (mut lo, mut hi) = (x.b.lo, x.b.hi);
            if x.int {
                lo = lo.ceil();
                hi = hi.floor();
            }
            if lo.is_finite() {
                s.push_str(&format!("(assert (>= x{} {}))\n", v, num(lo, !isint)));
            }
            if hi.is_finite() {
                s.push_str(&format!("(assert (<= x{} {}))\n", v, num(hi, !isint)));
            }
        }
        for b in bs {
            s.push_str(&format!("(declare-const b{} Bool)\n", b));
        }
        let name = |v: u16| -> String {
            if real && vars[v as usize].int && !relax {
                format!("(to_real x{})", v)
            } else {
                format!("x{}", v)
            }
        };
        for f in fs {
            s.push_str("(assert ");
            s.push_str(&f.smt(&name, real));
            s.push_str(")\n");
        }
        s.push_str("(check-sat)\n(echo \"@@done\")\n");
        if let Some(d) = &self.dump {
            let _ = std::fs::write(d, &s);
        }
        let t0 = Instant::now();
        let out = match self.talk(&s, timeout) {
            Some(o) => o,
            None => return Res::Unknown,
        };
        if self.qlog {
            eprintln!("Q {:.4} deg {} relax {} int {} fs {} vs {} bs {} {}", t0.elapsed().as_secs_f64(), deg, relax, all_int, fs.len(), vs.len(), bs.len(), out.join(" "));
            if t0.elapsed().as_secs_f64() > 0.3 {
                let _ = std::fs::write(format!("/tmp/t/q{}.smt2", self.queries), &s);
            }
        }
        let mut ans = "";
        for l in &out {
            if l.starts_with("(error") {
                self.errors += 1;
                eprintln!("lirsym: solver said {}", l);
                return Res::Unknown;
            }
            if l == "sat" || l == "unsat" || l == "unknown" {
                ans = l;
            }
        }
        match ans {
            "unsat" => Res::Unsat,
            "sat" => {
                if vs.is_empty() && bs.is_empty() {
                    return Res::Sat(vec![], vec![]);
                }
                let mut q = String::from("(get-value (");
                for v in vs {
                    q.push_str(&format!("x{} ", v));
                }
                for b in bs {
                    q.push_str(&format!("b{} ", b));
                }
                q.push_str("))\n(echo \"@@done\")\n");
                let out = match self.talk(&q, timeout) {
                    Some(o) => o,
                    None => return Res::Unknown,
                };
                let m = parse_values(&out.join(" "));
                let mut r = vec![];
                for v in vs {
                    match m.get(&format!("x{}", v)) {
                        Some(Some(x)) => r.push((*v, *x)),
                        _ => {
                            eprintln!("lirsym: cannot read model {:?}", out);
                            return Res::Unknown;
                        }
                    }
                }
                let mut br = vec![];
                for b in bs {
                    if let Some(Some(x)) = m.get(&format!("b{}", b)) {
                        br.push((*b, *x != 0.0));
                    }
                }
                Res::Sat(r, br)
            }
            _ => Res::Unknown,
        }
    }
}

fn parse_values(s: &str) -> BTreeMap<String, Option<f64>> {
    let toks: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    fn expr(t: &[String], i: &mut usize) -> Option<f64> {
        if *i >= t.len() {
            return None;
        }
        if t[*i] == "(" {
            *i += 1;
            let op = t.get(*i)?.clone();
            *i += 1;
            let mut a = vec![];
            while *i < t.len() && t[*i] != ")" {
                a.push(expr(t, i)?);
            }
            *i += 1;
            match op.as_str() {
                "-" if a.len() == 1 => Some(-a[0]),
                "-" if a.len() == 2 => Some(a[0] - a[1]),
                "/" if a.len() == 2 => Some(a[0] / a[1]),
                "to_real" if a.len() == 1 => Some(a[0]),
                _ => None,
            }
        } else {
            let w = t[*i].trim_end_matches('?').to_string();
            *i += 1;
            match w.as_str() {
                "true" => Some(1.0),
                "false" => Some(0.0),
                w => w.parse::<f64>().ok(),
            }
        }
    }
    let mut m = BTreeMap::new();
    let mut i = 1; // outer paren
    while i < toks.len() {
        if toks[i] == "(" {
            i += 1;
            if i >= toks.len() {
                break;
            }
            let n = toks[i].clone();
            i += 1;
            let v = expr(&toks, &mut i);
            m.insert(n, v);
            // skip to the closing paren of the pair
            let mut d = 0i32;
            while i < toks.len() {
                if toks[i] == "(" {
                    d += 1;
                } else if toks[i] == ")" {
                    if d == 0 {
                        i += 1;
                        break;
                    }
                    d -= 1;
                }
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    m
}
impl Drop for Smt {
    fn drop(&mut self) {
        self.kill();
    }
}
