//! Deciding conjunctions of 1-bit terms with SMT solvers (linear integer arithmetic first, then bit-vectors),
//! with a cache keyed by the alpha-renamed query shared between all worker threads.
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::io::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    /// values of the variables (by term variable index)
    Sat(Vec<(u32, u128)>),
    Unknown(String),
}

#[derive(Clone)]
enum Ent {
    Busy,
    Unsat,
    Sat(Vec<u128>),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub solved: u64,
    pub cached: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub by: HashMap<&'static str, (u64, f64)>,
    pub max_s: f64,
}

pub struct Cfg {
    pub z3: String,
    pub cvc5: String,
    pub lia_ms: u64,
    pub bv_ms: u64,
    pub last_ms: u64,
    pub dump: Option<String>,
    pub cross: u32,
}

pub struct Shared {
    cache: Mutex<HashMap<u128, Ent>>,
    cv: Condvar,
    pub stats: Mutex<Stats>,
    pub cfg: Cfg,
    ndump: Mutex<u32>,
}

impl Shared {
    pub fn new(cfg: Cfg) -> Arc<Shared> {
        Arc::new(Shared {
            cache: Mutex::new(HashMap::new()),
            cv: Condvar::new(),
            stats: Mutex::new(Stats::default()),
            cfg,
            ndump: Mutex::new(0),
        })
    }
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: ChildStdout,
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(f: *mut PollFd, n: u64, ms: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
}

pub struct Solver {
    sh: Arc<Shared>,
    z3: Option<Proc>,
}

pub struct Canon {
    pub key: u128,
    pub vars: Vec<T>,
    pub order: Vec<T>,
}

fn mix(h: &mut (u64, u64), v: u64) {
    h.0 = (h.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h.0 ^= h.0 >> 29;
    h.1 = (h.1.rotate_left(23) ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    h.1 ^= h.1 >> 32;
}

/// post-order of the DAG below the conjuncts, canonical numbering
pub fn canon(tt: &Terms, conj: &[T]) -> Canon {
    let mut num: FxMap<T, u32> = FxMap::default();
    let mut order = vec![];
    let mut vars = vec![];
    let mut h = (0x1234_5678u64, 0x9abc_def0u64);
    let mut ch: Vec<T> = vec![];
    for &root in conj {
        let mut st = vec![(root, false)];
        while let Some((t, done)) = st.pop() {
            if num.contains_key(&t) {
                continue;
            }
            if !done {
                st.push((t, true));
                ch.clear();
                tt.children(t, &mut |c| ch.push(c));
                for &c in ch.iter().rev() {
                    if !num.contains_key(&c) {
                        st.push((c, false));
                    }
                }
                continue;
            }
            let n = &tt.n[t as usize];
            mix(&mut h, n.w as u64);
            match &n.op {
                Op::Const(v) => {
                    mix(&mut h, 1);
                    mix(&mut h, *v as u64);
                    mix(&mut h, (*v >> 64) as u64);
                }
                Op::Var(_) => {
                    mix(&mut h, 2);
                    mix(&mut h, vars.len() as u64);
                    vars.push(t);
                }
                Op::Lin(c, ts) => {
                    mix(&mut h, 3);
                    mix(&mut h, *c as u64);
                    mix(&mut h, (*c >> 64) as u64);
                    mix(&mut h, ts.len() as u64);
                    for (k, x) in ts.iter() {
                        mix(&mut h, *k as u64);
                        mix(&mut h, (*k >> 64) as u64);
                        mix(&mut h, num[x] as u64);
                    }
                }
                Op::B(o, a, b) => {
                    mix(&mut h, 100 + *o as u64);
                    mix(&mut h, num[a] as u64);
                    mix(&mut h, num[b] as u64);
                }
                Op::Concat(p) => {
                    mix(&mut h, 5);
                    mix(&mut h, p.len() as u64);
                    for x in p.iter() {
                        mix(&mut h, num[x] as u64);
                    }
                }
                Op::Extract(a, lo) => {
                    mix(&mut h, 6);
                    mix(&mut h, *lo as u64);
                    mix(&mut h, num[a] as u64);
                }
                Op::SExt(a) => {
                    mix(&mut h, 7);
                    mix(&mut h, num[a] as u64);
                }
                Op::Ite(a, b, c) => {
                    mix(&mut h, 8);
                    mix(&mut h, num[a] as u64);
                    mix(&mut h, num[b] as u64);
                    mix(&mut h, num[c] as u64);
                }
                Op::F(o, p) => {
                    mix(&mut h, 200 + *o as u64);
                    mix(&mut h, p.len() as u64);
                    for x in p.iter() {
                        mix(&mut h, num[x] as u64);
                    }
                }
            }
            num.insert(t, order.len() as u32);
            order.push(t);
        }
        mix(&mut h, 0xffff_0000);
        mix(&mut h, num[&root] as u64);
    }
    Canon { key: ((h.0 as u128) << 64) | h.1 as u128, vars, order }
}

impl Solver {
    pub fn new(sh: Arc<Shared>) -> Solver {
        Solver { sh, z3: None }
    }

    pub fn check(&mut self, tt: &Terms, conj: &[T]) -> Res {
        let mut cj: Vec<T> = vec![];
        for &c in conj {
            match tt.cv(c) {
                Some(1) => continue,
                Some(_) => return Res::Unsat,
                None => {
                    if !cj.contains(&c) {
                        cj.push(c)
                    }
                }
            }
        }
        if cj.is_empty() {
            return Res::Sat(vec![]);
        }
        let cn = canon(tt, &cj);
        {
            let mut st = self.sh.stats.lock().unwrap();
            st.queries += 1;
        }
        let ent = {
            let mut g = self.sh.cache.lock().unwrap();
            loop {
                match g.get(&cn.key) {
                    Some(Ent::Busy) => g = self.sh.cv.wait(g).unwrap(),
                    Some(e) => break Some(e.clone()),
                    None => {
                        g.insert(cn.key, Ent::Busy);
                        break None;
                    }
                }
            }
        };
        let ent = match ent {
            Some(e) => {
                self.sh.stats.lock().unwrap().cached += 1;
                e
            }
            None => {
                let t0 = Instant::now();
                let (e, by) = self.solve(tt, &cj, &cn);
                let dt = t0.elapsed().as_secs_f64();
                {
                    let mut st = self.sh.stats.lock().unwrap();
                    st.solved += 1;
                    st.secs += dt;
                    st.max_s = st.max_s.max(dt);
                    match e {
                        Ent::Unsat => st.unsat += 1,
                        Ent::Sat(_) => st.sat += 1,
                        _ => st.unknown += 1,
                    }
                    let x = st.by.entry(by).or_insert((0, 0.0));
                    x.0 += 1;
                    x.1 += dt;
                }
                let mut g = self.sh.cache.lock().unwrap();
                g.insert(cn.key, e.clone());
                self.sh.cv.notify_all();
                e
            }
        };
        match ent {
            Ent::Unsat => Res::Unsat,
            Ent::Sat(v) => {
                let mut out = vec![];
                for (i, &t) in cn.vars.iter().enumerate() {
                    if let Op::Var(x) = tt.n[t as usize].op {
                        out.push((x, v[i]));
                    }
                }
                Res::Sat(out)
            }
            Ent::Unknown(s) => Res::Unknown(s),
            Ent::Busy => unreachable!(),
        }
    }

    fn verify_model(&self, tt: &Terms, cj: &[T], cn: &Canon, vals: &[u128]) -> Option<bool> {
        let mut m: HashMap<u32, u128> = HashMap::new();
        for (i, &t) in cn.vars.iter().enumerate() {
            if let Op::Var(x) = tt.n[t as usize].op {
                m.insert(x, vals[i]);
            }
        }
        let mut memo = FxMap::default();
        for &c in cj {
            match tt.eval(c, &|i| m.get(&i).copied().unwrap_or(0), &mut memo) {
                Some(1) => {}
                Some(_) => return Some(false),
                None => return None,
            }
        }
        Some(true)
    }

    fn solve(&mut self, tt: &Terms, cj: &[T], cn: &Canon) -> (Ent, &'static str) {
        let mut why = String::new();
        let has_f = cn.order.iter().any(|&t| matches!(tt.n[t as usize].op, Op::F(..)));
        let nbits: u32 = cn.vars.iter().map(|&v| tt.w(v) as u32).sum();
        let mut try_one = |me: &mut Solver, text: &str, ints: bool, ms: u64, by: &'static str, cv: bool| -> Option<(Ent, &'static str)> {
            if let Some(d) = &me.sh.cfg.dump {
                let mut n = me.sh.ndump.lock().unwrap();
                *n += 1;
                let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, *n, by), format!("{}(check-sat)\n", text));
            }
            let r = if cv { me.run_cvc5(text, cn, ints, ms) } else { me.run_z3(text, cn, ints, ms) };
            match r {
                Ok(None) => Some((Ent::Unsat, by)),
                Ok(Some(v)) => match me.verify_model(tt, cj, cn, &v) {
                    Some(true) => Some((Ent::Sat(v), by)),
                    Some(false) => {
                        why.push_str(&format!("{}: model does not satisfy the terms; ", by));
                        None
                    }
                    None => Some((Ent::Sat(v), by)),
                },
                Err(e) => {
                    why.push_str(&format!("{}: {}; ", by, e));
                    None
                }
            }
        };
        let (lia_ms, bv_ms, last_ms) = (self.sh.cfg.lia_ms, self.sh.cfg.bv_ms, self.sh.cfg.last_ms);
        if !has_f {
            // tiny queries go straight to bit-vectors
            let mut text_bv = None;
            if nbits <= 20 && cn.order.len() < 400 {
                let t = emit_bv(tt, cj, cn, true);
                if let Some(r) = try_one(self, &t, false, 3000.min(bv_ms), "z3-bv", false) {
                    return r;
                }
                text_bv = Some(t);
            }
            if let Some((t, _)) = emit_lia(tt, cj, cn) {
                if let Some(r) = try_one(self, &t, true, lia_ms, "z3-lia", false) {
                    return r;
                }
            }
            let t = text_bv.unwrap_or_else(|| emit_bv(tt, cj, cn, true));
            if let Some(r) = try_one(self, &t, false, bv_ms, "z3-bv", false) {
                return r;
            }
            let t = emit_bv(tt, cj, cn, false);
            if let Some(r) = try_one(self, &t, false, last_ms, "cvc5-bv", true) {
                return r;
            }
        } else {
            let t = emit_bv(tt, cj, cn, true);
            if let Some(r) = try_one(self, &t, false, bv_ms + last_ms, "z3-fp", false) {
                return r;
            }
        }
        (Ent::Unknown(why), "none")
    }

    fn spawn(&mut self) {
        if self.z3.is_none() {
            let mut c = Command::new(&self.sh.cfg.z3)
                .arg("-in")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("z3");
            let inp = c.stdin.take().unwrap();
            let out = c.stdout.take().unwrap();
            self.z3 = Some(Proc { child: c, inp, out });
        }
    }

    fn run_z3(&mut self, text: &str, cn: &Canon, ints: bool, ms: u64) -> Result<Option<Vec<u128>>, String> {
        self.spawn();
        let mut s = String::with_capacity(text.len() + 400);
        let _ = writeln!(s, "(reset)\n(set-option :timeout {})", ms);
        s.push_str(text);
        s.push_str("(check-sat)\n");
        if !cn.vars.is_empty() {
            s.push_str("(get-value (");
            for i in 0..cn.vars.len() {
                let _ = write!(s, "{}{} ", if ints { "i" } else { "v" }, i);
            }
            s.push_str("))\n");
        }
        s.push_str("(echo \"done!\")\n");
        let dl = Instant::now() + Duration::from_millis(ms + ms / 2 + 3000);
        let p = self.z3.as_mut().unwrap();
        let r = if p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()).is_err() {
            Err("solver pipe".to_string())
        } else {
            read_until(p.out.as_raw_fd(), dl)
        };
        match r {
            Ok(o) => parse_answer(&o, cn.vars.len()),
            Err(e) => {
                let mut p = self.z3.take().unwrap();
                let _ = p.child.kill();
                let _ = p.child.wait();
                Err(e)
            }
        }
    }

    fn run_cvc5(&mut self, text: &str, cn: &Canon, ints: bool, ms: u64) -> Result<Option<Vec<u128>>, String> {
        let mut c = Command::new(&self.sh.cfg.cvc5)
            .args(["--lang=smt2", "--produce-models", &format!("--tlimit={}", ms)])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut s = String::from("(set-logic ALL)\n");
        s.push_str(text);
        s.push_str("(check-sat)\n");
        if !cn.vars.is_empty() {
            s.push_str("(get-value (");
            for i in 0..cn.vars.len() {
                let _ = write!(s, "{}{} ", if ints { "i" } else { "v" }, i);
            }
            s.push_str("))\n");
        }
        s.push_str("(echo \"done!\")\n");
        let mut inp = c.stdin.take().unwrap();
        let out = c.stdout.take().unwrap();
        let w = inp.write_all(s.as_bytes());
        drop(inp);
        let r = if w.is_err() {
            Err("pipe".into())
        } else {
            read_until(out.as_raw_fd(), Instant::now() + Duration::from_millis(ms + 5000))
        };
        let _ = c.kill();
        let _ = c.wait();
        parse_answer(&r?, cn.vars.len())
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        if let Some(mut p) = self.z3.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}

fn read_until(fd: i32, dl: Instant) -> Result<String, String> {
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    loop {
        let now = Instant::now();
        if now >= dl {
            return Err("hard timeout".into());
        }
        let ms = (dl - now).as_millis().min(100_000) as i32 + 1;
        let mut p = PollFd { fd, events: 1, revents: 0 };
        let r = unsafe { poll(&mut p, 1, ms) };
        if r < 0 {
            continue;
        }
        if r == 0 {
            return Err("hard timeout".into());
        }
        let n = unsafe { read(fd, tmp.as_mut_ptr(), tmp.len()) };
        if n <= 0 {
            return Err(format!("solver died: {}", String::from_utf8_lossy(&buf).chars().take(200).collect::<String>()));
        }
        buf.extend_from_slice(&tmp[..n as usize]);
        if buf.len() >= 5 && buf[buf.len().saturating_sub(12)..].windows(5).any(|w| w == b"done!") {
            return Ok(String::from_utf8_lossy(&buf).into_owned());
        }
    }
}

fn parse_answer(o: &str, n: usize) -> Result<Option<Vec<u128>>, String> {
    let first = o.split_whitespace().next().unwrap_or("");
    match first {
        "unsat" => {
            // z3 prints an error for get-value after unsat; nothing may precede the verdict
            Ok(None)
        }
        "sat" => {
            let mut vals = vec![0u128; n];
            let body = &o[3..];
            if body.contains("(error") {
                return Err(body.chars().take(200).collect());
            }
            // tokens
            let mut toks = vec![];
            let mut cur = String::new();
            for ch in body.chars() {
                match ch {
                    '(' | ')' => {
                        if !cur.is_empty() {
                            toks.push(std::mem::take(&mut cur));
                        }
                        toks.push(ch.to_string());
                    }
                    c if c.is_whitespace() => {
                        if !cur.is_empty() {
                            toks.push(std::mem::take(&mut cur));
                        }
                    }
                    c => cur.push(c),
                }
            }
            let mut i = 0;
            while i + 1 < toks.len() {
                let t = &toks[i];
                if (t.starts_with('v') || t.starts_with('i')) && t[1..].parse::<usize>().is_ok() {
                    let k = t[1..].parse::<usize>().unwrap();
                    let v = &toks[i + 1];
                    let val = if let Some(h) = v.strip_prefix("#x") {
                        u128::from_str_radix(h, 16).unwrap_or(0)
                    } else if let Some(b) = v.strip_prefix("#b") {
                        u128::from_str_radix(b, 2).unwrap_or(0)
                    } else if v == "(" {
                        // (- n) or (_ bvN w)
                        if toks.get(i + 2).map(|s| s.as_str()) == Some("_") {
                            toks[i + 3].trim_start_matches("bv").parse().unwrap_or(0)
                        } else {
                            return Err("negative model value".into());
                        }
                    } else if v == "true" {
                        1
                    } else if v == "false" {
                        0
                    } else {
                        v.parse::<u128>().map_err(|_| format!("bad value {}", v))?
                    };
                    if k < n {
                        vals[k] = val;
                    }
                    i += 2;
                } else {
                    i += 1;
                }
            }
            Ok(Some(vals))
        }
        "unknown" => Err("unknown".into()),
        _ => Err(o.chars().take(300).collect()),
    }
}

// ------------------------------------------------------------------------------------------------ bit-vectors
fn bvc(w: u16, v: u128) -> String {
    format!("(_ bv{} {})", v, w)
}

pub fn emit_bv(tt: &Terms, cj: &[T], cn: &Canon, z3: bool) -> String {
    let mut s = String::with_capacity(cn.order.len() * 60);
    let mut name: FxMap<T, String> = FxMap::default();
    let mut nv = 0;
    let mut asserts = String::new();
    for (i, &t) in cn.order.iter().enumerate() {
        let n = &tt.n[t as usize];
        let w = n.w;
        let g = |x: &T| -> &str { &name[x] };
        let body: String = match &n.op {
            Op::Const(v) => {
                name.insert(t, bvc(w, *v));
                continue;
            }
            Op::Var(_) => {
                let _ = writeln!(s, "(declare-const v{} (_ BitVec {}))", nv, w);
                name.insert(t, format!("v{}", nv));
                nv += 1;
                continue;
            }
            Op::Lin(c, ts) => {
                let mut b = String::from("(bvadd ");
                for (k, x) in ts.iter() {
                    if *k == 1 {
                        let _ = write!(b, "{} ", g(x));
                    } else if *k == mask(w) {
                        let _ = write!(b, "(bvneg {}) ", g(x));
                    } else {
                        let _ = write!(b, "(bvmul {} {}) ", bvc(w, *k), g(x));
                    }
                }
                let _ = write!(b, "{})", bvc(w, *c));
                b
            }
            Op::B(o, a, b) => {
                let (x, y) = (g(a), g(b));
                let op = match o {
                    Bop::Mul => "bvmul",
                    Bop::UDiv => "bvudiv",
                    Bop::URem => "bvurem",
                    Bop::SDiv => "bvsdiv",
                    Bop::SRem => "bvsrem",
                    Bop::And => "bvand",
                    Bop::Or => "bvor",
                    Bop::Xor => "bvxor",
                    Bop::Shl => "bvshl",
                    Bop::LShr => "bvlshr",
                    Bop::AShr => "bvashr",
                    _ => "",
                };
                match o {
                    Bop::UMin => format!("(ite (bvult {x} {y}) {x} {y})"),
                    Bop::UMax => format!("(ite (bvult {x} {y}) {y} {x})"),
                    Bop::SMin => format!("(ite (bvslt {x} {y}) {x} {y})"),
                    Bop::SMax => format!("(ite (bvslt {x} {y}) {y} {x})"),
                    Bop::Eq => format!("(ite (= {x} {y}) #b1 #b0)"),
                    Bop::Ult => format!("(ite (bvult {x} {y}) #b1 #b0)"),
                    Bop::Slt => format!("(ite (bvslt {x} {y}) #b1 #b0)"),
                    _ => format!("({op} {x} {y})"),
                }
            }
            Op::Concat(p) => {
                let mut it = p.iter();
                let mut r = g(it.next().unwrap()).to_string();
                for x in it {
                    r = format!("(concat {} {})", r, g(x));
                }
                r
            }
            Op::Extract(a, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, g(a)),
            Op::SExt(a) => format!("((_ sign_extend {}) {})", w - tt.w(*a), g(a)),
            Op::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", g(c), g(a), g(b)),
            Op::F(o, p) => {
                let srt = |w: u16| match w {
                    16 => "5 11",
                    32 => "8 24",
                    _ => "11 53",
                };
                let aw = tt.w(p[0]);
                let f = |x: &T| format!("((_ to_fp {}) {})", srt(tt.w(*x)), g(x));
                let tobits = |e: String| -> (String, bool) { (e, true) };
                let (e, fp) = match o {
                    FOp::Add => tobits(format!("(fp.add RNE {} {})", f(&p[0]), f(&p[1]))),
                    FOp::Sub => tobits(format!("(fp.sub RNE {} {})", f(&p[0]), f(&p[1]))),
                    FOp::Mul => tobits(format!("(fp.mul RNE {} {})", f(&p[0]), f(&p[1]))),
                    FOp::Div => tobits(format!("(fp.div RNE {} {})", f(&p[0]), f(&p[1]))),
                    FOp::Oeq => (format!("(ite (fp.eq {} {}) #b1 #b0)", f(&p[0]), f(&p[1])), false),
                    FOp::Olt => (format!("(ite (fp.lt {} {}) #b1 #b0)", f(&p[0]), f(&p[1])), false),
                    FOp::Ole => (format!("(ite (fp.leq {} {}) #b1 #b0)", f(&p[0]), f(&p[1])), false),
                    FOp::Uno => (
                        format!("(ite (or (fp.isNaN {}) (fp.isNaN {})) #b1 #b0)", f(&p[0]), f(&p[1])),
                        false,
                    ),
                    FOp::Conv => tobits(format!("((_ to_fp {}) RNE {})", srt(w), f(&p[0]))),
                    FOp::FromU => tobits(format!("((_ to_fp_unsigned {}) RNE {})", srt(w), g(&p[0]))),
                    FOp::FromS => tobits(format!("((_ to_fp {}) RNE {})", srt(w), g(&p[0]))),
                    FOp::RoundAway => tobits(format!("(fp.roundToIntegral RNA {})", f(&p[0]))),
                    FOp::RoundEven => tobits(format!("(fp.roundToIntegral RNE {})", f(&p[0]))),
                    FOp::Floor => tobits(format!("(fp.roundToIntegral RTN {})", f(&p[0]))),
                    FOp::Ceil => tobits(format!("(fp.roundToIntegral RTP {})", f(&p[0]))),
                    FOp::Trunc => tobits(format!("(fp.roundToIntegral RTZ {})", f(&p[0]))),
                    FOp::ToUSat | FOp::ToSSat => {
                        // saturating conversion (NaN -> 0)
                        let x = f(&p[0]);
                        let (lo, hi, conv) = if *o == FOp::ToUSat {
                            (bvc(w, 0), bvc(w, mask(w)), format!("((_ fp.to_ubv {}) RTZ {})", w, x))
                        } else {
                            (
                                bvc(w, 1u128 << (w - 1)),
                                bvc(w, mask(w) >> 1),
                                format!("((_ fp.to_sbv {}) RTZ {})", w, x),
                            )
                        };
                        // thresholds as floats
                        let (lof, hif) = if *o == FOp::ToUSat {
                            (-1.0f64, (w as f64).exp2())
                        } else {
                            (-((w - 1) as f64).exp2() - if aw == 64 { 1.0 } else { 0.0 }, ((w - 1) as f64).exp2())
                        };
                        let k = |v: f64| -> String {
                            let bits = crate::fp::eval(FOp::Conv, aw, &[(64, v.to_bits() as u128)]).unwrap();
                            format!("((_ to_fp {}) {})", srt(aw), bvc(aw, bits))
                        };
                        (
                            format!(
                                "(ite (fp.isNaN {x}) {} (ite (fp.leq {x} {}) {lo} (ite (fp.geq {x} {}) {hi} {conv})))",
                                bvc(w, 0),
                                k(lof),
                                k(hif)
                            ),
                            false,
                        )
                    }
                };
                if fp {
                    if z3 {
                        format!("(fp.to_ieee_bv {})", e)
                    } else {
                        let _ = writeln!(s, "(declare-const f{} (_ BitVec {}))", i, w);
                        let _ = writeln!(asserts, "(assert (= ((_ to_fp {}) f{}) {}))", srt(w), i, e);
                        name.insert(t, format!("f{}", i));
                        continue;
                    }
                } else {
                    e
                }
            }
        };
        let _ = writeln!(s, "(define-fun t{} () (_ BitVec {}) {})", i, w, body);
        name.insert(t, format!("t{}", i));
    }
    s.push_str(&asserts);
    for c in cj {
        let _ = writeln!(s, "(assert (= {} #b1))", name[c]);
    }
    s
}

// ------------------------------------------------------------------------------------------------ integers
fn ic(v: i128) -> String {
    if v < 0 {
        format!("(- {})", v.unsigned_abs())
    } else {
        format!("{}", v)
    }
}

/// Translation into linear integer arithmetic with explicit wrap-around; None if an operation has no translation.
pub fn emit_lia(tt: &Terms, cj: &[T], cn: &Canon) -> Option<(String, bool)> {
    let mut s = String::with_capacity(cn.order.len() * 80);
    // integer expression (in the node's own reading) or boolean expression for w == 1
    let mut nm: FxMap<T, String> = FxMap::default();
    let mut nv = 0;
    let mut nonlin = false;
    let mut fresh = 0u32;
    let mut needed: std::collections::HashSet<T> = cj.iter().copied().collect();
    for &t in cn.order.iter().rev() {
        if needed.contains(&t) {
            match sar(tt, t) {
                Some((x, _, _, _)) => {
                    needed.insert(x);
                }
                None => tt.children(t, &mut |c| {
                    needed.insert(c);
                }),
            }
        }
    }
    for (i, &t) in cn.order.iter().enumerate() {
        let n = &tt.n[t as usize];
        let w = n.w;
        if !needed.contains(&t) && !matches!(n.op, Op::Var(_)) {
            continue;
        }
        if w > 66 {
            return None;
        }
        let uns = tt.reads_unsigned(t);
        let m = 1i128 << w;
        // value of x in the unsigned / signed / own reading
        let own = |x: T| -> String {
            if tt.w(x) == 1 {
                match tt.cv(x) {
                    Some(v) => v.to_string(),
                    None => format!("(ite {} 1 0)", nm[&x]),
                }
            } else {
                nm[&x].clone()
            }
        };
        let u = |x: T| -> String {
            let nx = &tt.n[x as usize];
            if nx.w == 1 {
                return own(x);
            }
            if let Op::Const(v) = nx.op {
                return ic(v as i128);
            }
            if tt.reads_unsigned(x) || nx.slo >= 0 {
                own(x)
            } else {
                let o = own(x);
                format!("(ite (< {o} 0) (+ {o} {}) {o})", 1i128 << nx.w)
            }
        };
        let sg = |x: T| -> String {
            let nx = &tt.n[x as usize];
            if let Op::Const(v) = nx.op {
                return ic(to_s(v, nx.w));
            }
            if nx.w == 1 {
                return format!("(ite {} (- 1) 0)", nm[&x]);
            }
            if !tt.reads_unsigned(x) || nx.uhi < (1u128 << (nx.w - 1)) {
                own(x)
            } else {
                let o = own(x);
                format!("(ite (>= {o} {}) (- {o} {}) {o})", 1i128 << (nx.w - 1), 1i128 << nx.w)
            }
        };
        let bo = |x: T| -> String {
            match tt.cv(x) {
                Some(1) => "true".into(),
                Some(_) => "false".into(),
                None => nm[&x].clone(),
            }
        };
        if w == 1 {
            let e = match &n.op {
                Op::Const(_) => continue,
                Op::Var(_) => {
                    let _ = writeln!(s, "(declare-const i{} Int)\n(assert (<= 0 i{} 1))", nv, nv);
                    nv += 1;
                    format!("(= i{} 1)", nv - 1)
                }
                Op::B(o, a, b) => match o {
                    Bop::And => format!("(and {} {})", bo(*a), bo(*b)),
                    Bop::Or => format!("(or {} {})", bo(*a), bo(*b)),
                    Bop::Xor => {
                        if tt.cv(*b) == Some(1) {
                            format!("(not {})", bo(*a))
                        } else {
                            format!("(xor {} {})", bo(*a), bo(*b))
                        }
                    }
                    Bop::Eq => {
                        if tt.w(*a) == 1 {
                            format!("(= {} {})", bo(*a), bo(*b))
                        } else if tt.reads_unsigned(*a) {
                            format!("(= {} {})", own(*a), u(*b))
                        } else {
                            format!("(= {} {})", own(*a), sg(*b))
                        }
                    }
                    Bop::Ult => format!("(< {} {})", u(*a), u(*b)),
                    Bop::Slt => format!("(< {} {})", sg(*a), sg(*b)),
                    _ => return None,
                },
                Op::Ite(c, a, b) => format!("(ite {} {} {})", bo(*c), bo(*a), bo(*b)),
                Op::Extract(a, lo) => {
                    // single bit
                    let aw = tt.w(*a);
                    let na = &tt.n[*a as usize];
                    if *lo == aw - 1 {
                        if !tt.reads_unsigned(*a) {
                            format!("(< {} 0)", own(*a))
                        } else {
                            format!("(>= {} {})", own(*a), 1i128 << (aw - 1))
                        }
                    } else {
                        let _ = na;
                        let v = u(*a);
                        let f = fresh;
                        fresh += 1;
                        let _ = writeln!(
                            s,
                            "(declare-const q{f} Int)(declare-const b{f} Int)(declare-const r{f} Int)\n(assert (= {v} (+ (* {} q{f}) (* {} b{f}) r{f})))\n(assert (and (<= 0 b{f} 1) (<= 0 r{f} {}) (<= 0 q{f})))",
                            1i128 << (lo + 1),
                            1i128 << lo,
                            (1i128 << lo) - 1
                        );
                        format!("(= b{f} 1)")
                    }
                }
                _ => return None,
            };
            let _ = writeln!(s, "(define-fun t{} () Bool {})", i, e);
            nm.insert(t, format!("t{}", i));
            continue;
        }
        // wrap an arbitrary integer expression with known range into the node's reading
        macro_rules! wrap {
            ($e:expr, $lo:expr, $hi:expr) => {{
                let (lo, hi): (i128, i128) = ($lo, $hi);
                let (rlo, rhi) = if uns { (0, m - 1) } else { (-(m / 2), m / 2 - 1) };
                if lo >= rlo && hi <= rhi {
                    $e
                } else {
                    let f = fresh;
                    fresh += 1;
                    let e = $e;
                    let _ = writeln!(
                        s,
                        "(declare-const q{f} Int)(declare-const w{f} Int)\n(assert (= {e} (+ (* {m} q{f}) w{f})))\n(assert (<= {} w{f} {}))\n(assert (<= {} q{f} {}))",
                        ic(rlo), ic(rhi), ic(lo.div_euclid(m) - 1), ic(hi.div_euclid(m) + 1)
                    );
                    format!("w{f}")
                }
            }};
        }
        let e: String = match &n.op {
            Op::Const(v) => {
                nm.insert(t, ic(if uns { *v as i128 } else { to_s(*v, w) }));
                continue;
            }
            Op::Var(_) => {
                let _ = writeln!(s, "(declare-const i{} Int)\n(assert (<= 0 i{} {}))", nv, nv, m - 1);
                nv += 1;
                // variables read unsigned (full range ties prefer unsigned)
                if !uns {
                    return None;
                }
                nm.insert(t, format!("i{}", nv - 1));
                continue;
            }
            Op::Lin(c, ts) => {
                let cands = [to_s(*c, w), *c as i128];
                let mut best = None;
                for cc in cands {
                    if let Some((lo, hi)) = tt.lin_range(w, cc, ts) {
                        let (rlo, rhi) = if uns { (0, m - 1) } else { (-(m / 2), m / 2 - 1) };
                        let fits = lo >= rlo && hi <= rhi;
                        if best.is_none() || fits {
                            best = Some((cc, lo, hi));
                        }
                        if fits {
                            break;
                        }
                    }
                }
                let (cc, lo, hi) = best?;
                let mut b = String::from("(+ ");
                for (k, x) in ts.iter() {
                    let k = to_s(*k, w);
                    if k == 1 {
                        let _ = write!(b, "{} ", own(*x));
                    } else {
                        let _ = write!(b, "(* {} {}) ", ic(k), own(*x));
                    }
                }
                let _ = write!(b, "{})", ic(cc));
                wrap!(b, lo, hi)
            }
            Op::B(o, a, b) => {
                let (a, b) = (*a, *b);
                match o {
                    Bop::UMin | Bop::UMax => {
                        let (x, y) = (u(a), u(b));
                        let op = if *o == Bop::UMin { "<" } else { ">" };
                        let e = format!("(ite ({op} {x} {y}) {x} {y})");
                        wrap!(e, n.ulo as i128, n.uhi as i128)
                    }
                    Bop::SMin | Bop::SMax => {
                        let (x, y) = (sg(a), sg(b));
                        let op = if *o == Bop::SMin { "<" } else { ">" };
                        let e = format!("(ite ({op} {x} {y}) {x} {y})");
                        wrap!(e, n.slo, n.shi)
                    }
                    Bop::Mul => {
                        nonlin = true;
                        let (al, ah) = tt.int_range(a);
                        let (bl, bh) = tt.int_range(b);
                        let c = [
                            al.checked_mul(bl)?,
                            al.checked_mul(bh)?,
                            ah.checked_mul(bl)?,
                            ah.checked_mul(bh)?,
                        ];
                        let e = format!("(* {} {})", own(a), own(b));
                        wrap!(e, *c.iter().min().unwrap(), *c.iter().max().unwrap())
                    }
                    Bop::UDiv | Bop::URem => {
                        let d = tt.cv(b)? as i128;
                        if d == 0 {
                            return None;
                        }
                        let x = u(a);
                        let f = fresh;
                        fresh += 1;
                        let _ = writeln!(
                            s,
                            "(declare-const q{f} Int)(declare-const r{f} Int)\n(assert (= {x} (+ (* {d} q{f}) r{f})))\n(assert (and (<= 0 r{f} {}) (<= 0 q{f})))",
                            d - 1
                        );
                        let e = if *o == Bop::UDiv { format!("q{f}") } else { format!("r{f}") };
                        wrap!(e, n.ulo as i128, n.uhi as i128)
                    }
                    _ => return None,
                }
            }
            Op::Concat(p) => {
                let mut pos = w;
                let mut b = String::from("(+ 0");
                for &x in p.iter() {
                    pos -= tt.w(x);
                    if tt.cv(x) == Some(0) {
                        continue;
                    }
                    if pos == 0 {
                        let _ = write!(b, " {}", u(x));
                    } else {
                        let _ = write!(b, " (* {} {})", 1i128 << pos, u(x));
                    }
                }
                b.push(')');
                wrap!(b, n_ulo_concat(tt, p), n_uhi_concat(tt, p))
            }
            Op::Extract(a, lo) => {
                let aw = tt.w(*a);
                let _ = aw;
                let (al, ah) = tt.int_range(*a);
                let v = own(*a);
                if *lo == 0 {
                    wrap!(v, al, ah)
                } else {
                    let f = fresh;
                    fresh += 1;
                    let _ = writeln!(
                        s,
                        "(declare-const q{f} Int)(declare-const r{f} Int)\n(assert (= {v} (+ (* {} q{f}) r{f})))\n(assert (and (<= 0 r{f} {}) (<= {} q{f} {})))",
                        1i128 << lo,
                        (1i128 << lo) - 1,
                        ic(al >> lo),
                        ic(ah >> lo)
                    );
                    let e = format!("q{f}");
                    wrap!(e, al >> lo, ah >> lo)
                }
            }
            Op::SExt(_) if sar(tt, t).is_some() => {
                let (x, lo, al, ah) = sar(tt, t).unwrap();
                let v = sg(x);
                let f = fresh;
                fresh += 1;
                let _ = writeln!(
                    s,
                    "(declare-const q{f} Int)(declare-const r{f} Int)\n(assert (= {v} (+ (* {} q{f}) r{f})))\n(assert (and (<= 0 r{f} {}) (<= {} q{f} {})))",
                    1i128 << lo,
                    (1i128 << lo) - 1,
                    ic(al),
                    ic(ah)
                );
                wrap!(format!("q{f}"), al, ah)
            }
            Op::SExt(a) => {
                let e = sg(*a);
                let na = &tt.n[*a as usize];
                wrap!(e, na.slo, na.shi)
            }
            Op::Ite(c, a, b) => {
                let e = if uns {
                    format!("(ite {} {} {})", bo(*c), u(*a), u(*b))
                } else {
                    format!("(ite {} {} {})", bo(*c), sg(*a), sg(*b))
                };
                e
            }
            Op::F(..) => return None,
        };
        let _ = writeln!(s, "(define-fun t{} () Int {})", i, e);
        nm.insert(t, format!("t{}", i));
    }
    for c in cj {
        match tt.cv(*c) {
            Some(1) => {}
            Some(_) => s.push_str("(assert false)\n"),
            None => {
                let _ = writeln!(s, "(assert {})", nm[c]);
            }
        }
    }
    Some((s, nonlin))
}

/// arithmetic shift right: sign extension of the high part of a term; (term, shift, result range)
fn sar(tt: &Terms, t: T) -> Option<(T, u16, i128, i128)> {
    if let Op::SExt(a) = tt.n[t as usize].op {
        if let Op::Extract(x, lo) = tt.n[a as usize].op {
            let w = tt.w(a);
            let n = &tt.n[x as usize];
            let (l, h) = (n.slo >> lo, n.shi >> lo);
            if tt.w(x) > 1 && w < 64 && l >= -(1i128 << (w - 1)) && h < 1i128 << (w - 1) {
                return Some((x, lo, l, h));
            }
        }
    }
    None
}

fn n_ulo_concat(tt: &Terms, p: &[T]) -> i128 {
    let mut lo = 0i128;
    for &t in p {
        lo = (lo << tt.w(t)) | tt.n[t as usize].ulo as i128;
    }
    lo
}
fn n_uhi_concat(tt: &Terms, p: &[T]) -> i128 {
    let mut hi = 0i128;
    for &t in p {
        hi = (hi << tt.w(t)) | tt.n[t as usize].uhi as i128;
    }
    hi
}
