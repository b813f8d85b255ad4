//! SMT-LIB (QF_BV) emission and solver processes.
use crate::expr::*;
use crate::ir::{BinOp, Pred};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Emit {
    pub out: String,
    vars: HashSet<u32>,
    bools: HashMap<P, String>,
    monos: HashMap<M, String>,
    ints: HashMap<(P, u32), String>,
    nodes: HashMap<u32, String>,
    n: usize,
    pub inputs: Vec<u32>,
    /// definitions as constants with an equation instead of macros
    decl: bool,
}

fn bvk(w: u32, v: u128) -> String {
    format!("(_ bv{} {})", mask(w, v), w)
}
fn clog2(x: i128) -> u32 {
    // bits needed to represent x >= 0
    (128 - (x as u128).leading_zeros()).max(1)
}

impl Emit {
    fn put(&mut self, n: &str, sort: &str, body: &str) {
        if self.decl {
            let _ = writeln!(self.out, "(declare-const {} {})(assert (= {} {}))", n, sort, n, body);
        } else {
            let _ = writeln!(self.out, "(define-fun {} () {} {})", n, sort, body);
        }
    }
    fn def(&mut self, pre: &str, sort: &str, body: String) -> String {
        let n = format!("{}{}", pre, self.n);
        self.n += 1;
        self.put(&n, sort, &body);
        n
    }
    pub fn var(&mut self, c: &mut Ctx, v: u32) -> String {
        let name = format!("v{}", v);
        if self.vars.contains(&v) {
            return name;
        }
        self.vars.insert(v);
        match c.vars[v as usize].clone() {
            VarDef::Input(_) => {
                let _ = writeln!(self.out, "(declare-const {} Bool)", name);
                self.inputs.push(v);
            }
            VarDef::Named(p) => {
                let b = self.boolean(c, p);
                self.put(&name, "Bool", &b);
            }
            VarDef::EqZero(p) | VarDef::LtZero(p) => {
                let eq = matches!(c.vars[v as usize], VarDef::EqZero(_));
                let (c0, a, sum, w) = self.counted(c, p);
                // N = c0 - a + 2*sum
                let t = a - c0;
                let body = if eq {
                    if t < 0 || t % 2 != 0 || clog2(t / 2) > w {
                        "false".to_string()
                    } else {
                        format!("(= {} {})", sum, bvk(w, (t / 2) as u128))
                    }
                } else {
                    // 2*sum < t  <=> sum < ceil(t/2)
                    let k = if t > 0 { (t + 1) / 2 } else { 0 };
                    if k == 0 {
                        "false".into()
                    } else if clog2(k) > w {
                        "true".into()
                    } else {
                        format!("(bvult {} {})", sum, bvk(w, k as u128))
                    }
                };
                self.put(&name, "Bool", &body);
            }
            VarDef::Pred(p, w, a, b) => {
                let x = self.bv(c, w, &a);
                let y = self.bv(c, w, &b);
                let o = match p {
                    Pred::Eq => "=",
                    Pred::Ne => "distinct",
                    Pred::Ugt => "bvugt",
                    Pred::Uge => "bvuge",
                    Pred::Ult => "bvult",
                    Pred::Ule => "bvule",
                    Pred::Sgt => "bvsgt",
                    Pred::Sge => "bvsge",
                    Pred::Slt => "bvslt",
                    Pred::Sle => "bvsle",
                };
                let body = format!("({} {} {})", o, x, y);
                self.put(&name, "Bool", &body);
            }
        }
        name
    }
    fn mono(&mut self, c: &mut Ctx, m: M) -> String {
        if let Some(s) = self.monos.get(&m) {
            return s.clone();
        }
        let vs = c.monos[m as usize].clone();
        let ns: Vec<String> = vs.iter().map(|v| self.var(c, *v)).collect();
        let s = if ns.len() == 1 { ns[0].clone() } else { self.def("m", "Bool", format!("(xor {})", ns.join(" "))) };
        self.monos.insert(m, s.clone());
        s
    }
    /// numerator of p as c0 - a + 2*sum with sum >= 0 a bit-vector of width w which cannot overflow
    fn counted(&mut self, c: &mut Ctx, p: P) -> (i128, i128, String, u32) {
        let q = c.polys[p as usize].clone();
        let mut c0 = 0;
        let mut a = 0i128;
        let mut groups: std::collections::BTreeMap<i128, Vec<String>> = Default::default();
        for (m, k) in q.t.iter() {
            if *m == 0 {
                c0 = *k;
                continue;
            }
            a += k.abs();
            let s = self.mono(c, *m);
            // k*s = -|k| + 2|k|*y ; y true iff k*s positive
            let y = if *k < 0 { s } else { format!("(not {})", s) };
            groups.entry(k.abs()).or_default().push(y);
        }
        let w = clog2(a) + 1;
        let mut acc: Option<String> = None;
        for (k, ys) in groups {
            let (t, tw) = self.popcount(ys);
            let t = if tw < w { format!("((_ zero_extend {}) {})", w - tw, t) } else { format!("((_ extract {} 0) {})", w - 1, t) };
            let t = if k == 1 { t } else if k.count_ones() == 1 { format!("(bvshl {} {})", t, bvk(w, k.trailing_zeros() as u128)) } else { format!("(bvmul {} {})", t, bvk(w, k as u128)) };
            acc = Some(match acc {
                None => t,
                Some(x) => format!("(bvadd {} {})", x, t),
            });
        }
        let s = self.def("s", &format!("(_ BitVec {})", w), acc.unwrap_or_else(|| bvk(w, 0)));
        (c0, a, s, w)
    }
    fn popcount(&mut self, ys: Vec<String>) -> (String, u32) {
        let mut l: std::collections::VecDeque<(String, u32)> = ys.into_iter().map(|y| (format!("(ite {} #b1 #b0)", y), 1)).collect();
        while l.len() > 1 {
            let (a, wa) = l.pop_front().unwrap();
            let (b, wb) = l.pop_front().unwrap();
            let w = wa.max(wb) + 1;
            let r = self.def(
                "c",
                &format!("(_ BitVec {})", w),
                format!("(bvadd ((_ zero_extend {}) {}) ((_ zero_extend {}) {}))", w - wa, a, w - wb, b),
            );
            l.push_back((r, w));
        }
        l.pop_front().unwrap()
    }
    fn origin(&mut self, c: &mut Ctx, o: Origin) -> String {
        match o {
            Origin::And(a, b) => {
                let (a, b) = (self.boolean(c, a), self.boolean(c, b));
                format!("(and {} {})", a, b)
            }
            Origin::Xor(a, b) => {
                let (a, b) = (self.boolean(c, a), self.boolean(c, b));
                format!("(xor {} {})", a, b)
            }
            Origin::Ite(g, a, b) => {
                let (g, a, b) = (self.boolean(c, g), self.boolean(c, a), self.boolean(c, b));
                format!("(ite {} {} {})", g, a, b)
            }
        }
    }
    /// A boolean polynomial. It may mention both an atom and the atom's
    /// definition, and so be 0/1 only for assignments which agree with the
    /// definitions; the others are left arbitrary.
    pub fn boolean(&mut self, c: &mut Ctx, p: P) -> String {
        self.boolean_(c, p, true)
    }
    fn boolean_(&mut self, c: &mut Ctx, p: P, top: bool) -> String {
        if p == ZERO {
            return "false".into();
        }
        if p == ONE {
            return "true".into();
        }
        if let Some(s) = self.bools.get(&p) {
            return s.clone();
        }
        let q = c.polys[p as usize].clone();
        let one = 1i128 << q.den;
        let r;
        if q.t.iter().filter(|t| t.0 != 0).count() <= 1 {
            let c0 = q.t.iter().find(|t| t.0 == 0).map(|t| t.1).unwrap_or(0);
            match q.t.iter().find(|t| t.0 != 0) {
                None => return "false".into(),
                Some((m, k)) => {
                    r = if c0 + k == one {
                        let s = self.mono(c, *m);
                        format!("(not {})", s)
                    } else if c0 - k == one {
                        self.mono(c, *m)
                    } else {
                        "false".into()
                    };
                }
            }
        } else {
            let np = c.bnot(p);
            let o = if top { c.origin.get(&p).copied() } else { None };
            let no = if top { c.origin.get(&np).copied() } else { None };
            if let Some(s) = self.bools.get(&np) {
                r = format!("(not {})", s);
            } else if let Some(o) = o {
                let body = self.origin(c, o);
                r = self.def("b", "Bool", body);
            } else if let Some(o) = no {
                let body = self.origin(c, o);
                r = self.def("b", "Bool", format!("(not {})", body));
            } else {
                // branch on the most frequent variable
                let mut cnt: HashMap<u32, usize> = HashMap::new();
                for (m, _) in q.t.iter() {
                    for v in c.monos[*m as usize].iter() {
                        *cnt.entry(*v).or_insert(0) += 1;
                    }
                }
                let (v, _) = cnt.into_iter().max_by_key(|(v, k)| (*k, *v)).unwrap();
                let f0 = c.restrict(p, &|x| if x == v { Some(false) } else { None });
                let f1 = c.restrict(p, &|x| if x == v { Some(true) } else { None });
                let vn = self.var(c, v);
                let n0 = c.bnot(f0);
                let body = if f1 == n0 {
                    let b = self.boolean_(c, f0, false);
                    format!("(xor {} {})", vn, b)
                } else if f0 == ZERO {
                    let b = self.boolean_(c, f1, false);
                    format!("(and {} {})", vn, b)
                } else if f1 == ZERO {
                    let b = self.boolean_(c, f0, false);
                    format!("(and (not {}) {})", vn, b)
                } else if f0 == ONE {
                    let b = self.boolean_(c, f1, false);
                    format!("(or (not {}) {})", vn, b)
                } else if f1 == ONE {
                    let b = self.boolean_(c, f0, false);
                    format!("(or {} {})", vn, b)
                } else {
                    let a = self.boolean_(c, f1, false);
                    let b = self.boolean_(c, f0, false);
                    format!("(ite {} {} {})", vn, a, b)
                };
                r = self.def("b", "Bool", body);
            }
        }
        self.bools.insert(p, r.clone());
        r
    }
    /// p modulo 2^w
    fn int(&mut self, c: &mut Ctx, w: u32, p: P) -> String {
        if let Some(s) = self.ints.get(&(p, w)) {
            return s.clone();
        }
        let den = c.polys[p as usize].den;
        let r = if let Some((k, d)) = c.pconst(p) {
            bvk(w, (k >> d) as u128)
        } else {
            let (c0, a, s, sw) = self.counted(c, p);
            let ww = w + den;
            let s = if sw < ww { format!("((_ zero_extend {}) {})", ww - sw, s) } else { format!("((_ extract {} 0) {})", ww - 1, s) };
            let t = format!("(bvadd {} (bvshl {} {}))", bvk(ww, (c0 - a) as u128), s, bvk(ww, 1));
            let t = if den > 0 { format!("((_ extract {} {}) {})", ww - 1, den, t) } else { t };
            self.def("i", &format!("(_ BitVec {})", w), t)
        };
        self.ints.insert((p, w), r.clone());
        r
    }
    fn resize(w: u32, want: u32, s: String) -> String {
        if w == want {
            s
        } else if w > want {
            format!("((_ extract {} 0) {})", want - 1, s)
        } else {
            format!("((_ zero_extend {}) {})", want - w, s)
        }
    }
    pub fn bv(&mut self, c: &mut Ctx, w: u32, v: &Val) -> String {
        match v {
            Val::Undef => bvk(w, 0),
            Val::C(k) => bvk(w, *k),
            Val::Agg(_) => unsup("bv of aggregate"),
            Val::S(i) => {
                if let Some(s) = self.nodes.get(i) {
                    return s.clone();
                }
                let sort = format!("(_ BitVec {})", w);
                let r = match c.nodes[*i as usize].clone() {
                    Node::I(1, p) if w == 1 => {
                        let (lo, hi) = c.range(p);
                        let den = c.polys[p as usize].den;
                        if lo >= 0 && hi <= 1i128 << den {
                            let b = self.boolean(c, p);
                            format!("(ite {} #b1 #b0)", b)
                        } else {
                            self.int(c, 1, p)
                        }
                    }
                    Node::I(_, p) => self.int(c, w, p),
                    Node::F(..) => unsup("bits of a symbolic float in a solver query"),
                    Node::Concat(ps) => {
                        let parts: Vec<String> = ps.iter().rev().map(|(pw, x)| self.bv(c, *pw, x)).collect();
                        self.def("n", &sort, format!("(concat {})", parts.join(" ")))
                    }
                    Node::Op(k, ow, a) => {
                        let body = match k {
                            OpK::Bin(op) => {
                                let x = self.bv(c, ow, &a[0]);
                                let y = self.bv(c, ow, &a[1]);
                                let o = match op {
                                    BinOp::Add => "bvadd",
                                    BinOp::Sub => "bvsub",
                                    BinOp::Mul => "bvmul",
                                    BinOp::UDiv => "bvudiv",
                                    BinOp::URem => "bvurem",
                                    BinOp::SDiv => "bvsdiv",
                                    BinOp::SRem => "bvsrem",
                                    BinOp::Shl => "bvshl",
                                    BinOp::LShr => "bvlshr",
                                    BinOp::AShr => "bvashr",
                                    BinOp::And => "bvand",
                                    BinOp::Or => "bvor",
                                    BinOp::Xor => "bvxor",
                                };
                                format!("({} {} {})", o, x, y)
                            }
                            OpK::Ite(g) => {
                                let b = self.boolean(c, g);
                                let x = self.bv(c, ow, &a[0]);
                                let y = self.bv(c, ow, &a[1]);
                                format!("(ite {} {} {})", b, x, y)
                            }
                            OpK::Extract(sw, lo) => {
                                let x = self.bv(c, sw, &a[0]);
                                format!("((_ extract {} {}) {})", lo + ow - 1, lo, x)
                            }
                            OpK::ZExt(sw) => {
                                let x = self.bv(c, sw, &a[0]);
                                format!("((_ zero_extend {}) {})", ow - sw, x)
                            }
                            OpK::SExt(sw) => {
                                let x = self.bv(c, sw, &a[0]);
                                format!("((_ sign_extend {}) {})", ow - sw, x)
                            }
                        };
                        let r = self.def("n", &format!("(_ BitVec {})", ow), body);
                        Emit::resize(ow, w, r)
                    }
                };
                self.nodes.insert(*i, r.clone());
                r
            }
        }
    }
}

/// incremental solver used to discard infeasible paths. Assignments found
/// earlier are tried first: a path one of them takes is feasible.
pub struct Solver {
    child: Child,
    inp: ChildStdin,
    outp: BufReader<ChildStdout>,
    em: Emit,
    cache: HashMap<P, Sat>,
    pool: Vec<(HashMap<u32, bool>, HashMap<u32, bool>)>,
    pub by_pool: u64,
    pub queries: u64,
    pub time: f64,
    pub unknown: u64,
}
impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        let mut child = Command::new("z3-new").arg("-in").arg("-smt2").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("z3-new");
        let inp = child.stdin.take().unwrap();
        let outp = BufReader::new(child.stdout.take().unwrap());
        let em = Emit { decl: true, ..Emit::default() };
        let mut s = Solver { child, inp, outp, em, cache: HashMap::new(), pool: vec![], by_pool: 0, queries: 0, time: 0.0, unknown: 0 };
        s.inp.write_all(format!("(set-option :timeout {})\n(set-option :produce-models true)\n(set-logic QF_BV)\n", timeout_ms).as_bytes()).unwrap();
        s
    }
    pub fn check(&mut self, c: &mut Ctx, p: P) -> Sat {
        if p == ZERO {
            return Sat::Unsat;
        }
        if p == ONE {
            return Sat::Sat;
        }
        if let Some(r) = self.cache.get(&p) {
            return *r;
        }
        let t = Instant::now();
        for k in (0..self.pool.len()).rev() {
            let (m, memo) = &mut self.pool[k];
            let mut e = Eval { c, m, memo: std::mem::take(memo) };
            let v = e.num(p) != 0;
            *memo = e.memo;
            if v {
                if k + 1 < self.pool.len() {
                    let x = self.pool.remove(k);
                    self.pool.push(x);
                }
                self.by_pool += 1;
                self.cache.insert(p, Sat::Sat);
                self.time += t.elapsed().as_secs_f64();
                return Sat::Sat;
            }
        }
        let b = self.em.boolean(c, p);
        let b = self.em.def("q", "Bool", b);
        let _ = write!(self.em.out, "(check-sat-assuming ({}))\n", b);
        let o = std::mem::take(&mut self.em.out);
        self.inp.write_all(o.as_bytes()).unwrap();
        self.inp.flush().unwrap();
        let mut line = String::new();
        self.outp.read_line(&mut line).unwrap();
        self.queries += 1;
        let r = match line.trim() {
            "sat" => Sat::Sat,
            "unsat" => Sat::Unsat,
            "unknown" => Sat::Unknown,
            x => unsup(format!("solver said: {}", x)),
        };
        if r == Sat::Unknown {
            self.unknown += 1;
        }
        if r == Sat::Sat && !self.em.inputs.is_empty() {
            let mut m = HashMap::new();
            for ch in self.em.inputs.clone().chunks(64) {
                let names: Vec<String> = ch.iter().map(|v| format!("v{}", v)).collect();
                self.inp.write_all(format!("(get-value ({}))\n", names.join(" ")).as_bytes()).unwrap();
                self.inp.flush().unwrap();
                let mut depth = 0i64;
                let mut text = String::new();
                loop {
                    let mut l = String::new();
                    if self.outp.read_line(&mut l).unwrap() == 0 {
                        break;
                    }
                    for x in l.chars() {
                        depth += (x == '(') as i64 - (x == ')') as i64;
                    }
                    text += &l;
                    if depth <= 0 {
                        break;
                    }
                }
                let w: Vec<&str> = text.split(|x: char| x == '(' || x == ')' || x.is_whitespace()).filter(|x| !x.is_empty()).collect();
                for q in w.chunks(2) {
                    if q.len() == 2 && q[0].starts_with('v') {
                        if let Ok(v) = q[0][1..].parse::<u32>() {
                            m.insert(v, q[1] == "true");
                        }
                    }
                }
            }
            if self.pool.len() >= 24 {
                self.pool.remove(0);
            }
            self.pool.push((m, HashMap::new()));
        }
        self.time += t.elapsed().as_secs_f64();
        self.cache.insert(p, r);
        r
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Query {
    pub text: String,
    pub inputs: Vec<u32>,
}
/// satisfiability of the disjunction of `ps`
pub fn build_query(c: &mut Ctx, ps: &[P]) -> Query {
    let mut e = Emit::default();
    e.out.push_str("(set-option :produce-models true)\n(set-logic QF_BV)\n");
    let bs: Vec<String> = ps.iter().map(|p| e.boolean(c, *p)).collect();
    // every input appears in the query so that a model assigns all of them
    let names: Vec<String> = e.inputs.iter().map(|v| format!("v{}", v)).collect();
    let _ = writeln!(e.out, "(assert (or false {}))\n(check-sat)", bs.join(" "));
    if !names.is_empty() {
        let _ = writeln!(e.out, "(get-value ({}))", names.join(" "));
    }
    Query { text: e.out, inputs: e.inputs }
}

pub enum Answer {
    Unsat,
    Sat(HashMap<u32, bool>),
    Unknown(String),
}

fn parse_answer(out: &str) -> Answer {
    let mut it = out.lines().filter(|l| !l.trim().is_empty());
    match it.next().map(|s| s.trim()) {
        Some("unsat") => Answer::Unsat,
        Some("sat") => {
            let rest: String = it.collect::<Vec<_>>().join(" ");
            let mut m = HashMap::new();
            let toks: Vec<&str> = rest.split(|ch: char| ch == '(' || ch == ')' || ch.is_whitespace()).filter(|s| !s.is_empty()).collect();
            let mut i = 0;
            while i + 1 < toks.len() {
                if let Some(v) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
                    m.insert(v, toks[i + 1] == "true");
                }
                i += 2;
            }
            Answer::Sat(m)
        }
        o => Answer::Unknown(format!("{:?}", o)),
    }
}

/// run the portfolio on one query; the first definite answer wins
pub fn solve(q: &Query, dir: &str, name: &str, timeout: f64, portfolio: &[&str]) -> (Answer, f64, String) {
    let t0 = Instant::now();
    let path = format!("{}/{}.smt2", dir, name);
    std::fs::write(&path, &q.text).expect("query file");
    let mut ch: Vec<(String, Child, String)> = vec![];
    for s in portfolio {
        let mut cmd = match *s {
            "z3" => {
                let mut c = Command::new("z3-new");
                c.arg("-smt2").arg(&path);
                c
            }
            "z3sat" => {
                let mut c = Command::new("z3-new");
                c.arg("-smt2").arg("tactic.default_tactic=(then simplify propagate-values solve-eqs bit-blast aig sat)").arg(&path);
                c
            }
            _ => {
                let mut c = Command::new("cvc5");
                c.arg("--produce-models").arg("--bitblast=eager").arg(&path);
                c
            }
        };
        let of = format!("{}/{}.{}.out", dir, name, s);
        let f = std::fs::File::create(&of).unwrap();
        cmd.stdout(f).stderr(Stdio::null()).stdin(Stdio::null());
        if let Ok(c) = cmd.spawn() {
            ch.push((s.to_string(), c, of));
        }
    }
    let mut ans = Answer::Unknown("timeout".into());
    let mut who = String::new();
    'o: loop {
        let mut alive = false;
        for (n, c, of) in ch.iter_mut() {
            match c.try_wait() {
                Ok(Some(_)) => {
                    if let Ok(s) = std::fs::read_to_string(&*of) {
                        let a = parse_answer(&s);
                        if !matches!(a, Answer::Unknown(_)) {
                            ans = a;
                            who = n.clone();
                            break 'o;
                        }
                    }
                }
                Ok(None) => alive = true,
                _ => {}
            }
        }
        if !alive || t0.elapsed().as_secs_f64() > timeout {
            break;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs_f64() < 0.2 { 2 } else { 20 }));
    }
    for (_, c, of) in ch.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
        let _ = std::fs::remove_file(&*of);
    }
    (ans, t0.elapsed().as_secs_f64(), who)
}

/// evaluation of polynomials and values under an assignment of the inputs
pub struct Eval<'a> {
    pub c: &'a Ctx,
    pub m: &'a HashMap<u32, bool>,
    pub memo: HashMap<u32, bool>,
}
impl<'a> Eval<'a> {
    pub fn var(&mut self, v: u32) -> bool {
        if let Some(b) = self.memo.get(&v) {
            return *b;
        }
        let r = match self.c.vars[v as usize].clone() {
            VarDef::Input(_) => self.m.get(&v).copied().unwrap_or(false),
            VarDef::Named(p) => self.num(p) != 0,
            VarDef::EqZero(p) => self.num(p) == 0,
            VarDef::LtZero(p) => self.num(p) < 0,
            VarDef::Pred(p, w, a, b) => {
                let x = self.val(w, &a);
                let y = self.val(w, &b);
                ceval_pred(p, w, x, y)
            }
        };
        self.memo.insert(v, r);
        r
    }
    /// numerator
    pub fn num(&mut self, p: P) -> i128 {
        let q = self.c.polys[p as usize].clone();
        let mut s = 0;
        for (m, k) in q.t.iter() {
            let mut neg = false;
            for v in self.c.monos[*m as usize].clone().iter() {
                neg ^= self.var(*v);
            }
            s += if neg { -*k } else { *k };
        }
        s
    }
    pub fn val(&mut self, w: u32, v: &Val) -> u128 {
        match v {
            Val::Undef => 0,
            Val::C(k) => mask(w, *k),
            Val::Agg(_) => 0,
            Val::S(i) => match self.c.nodes[*i as usize].clone() {
                Node::I(_, p) | Node::F(_, p) => {
                    let d = self.c.polys[p as usize].den;
                    mask(w, (self.num(p) >> d) as u128)
                }
                Node::Concat(ps) => {
                    let mut off = 0;
                    let mut r = 0;
                    for (pw, x) in ps {
                        r |= self.val(pw, &x) << off;
                        off += pw;
                    }
                    r
                }
                Node::Op(k, ow, a) => match k {
                    OpK::Bin(b) => {
                        let x = self.val(ow, &a[0]);
                        let y = self.val(ow, &a[1]);
                        ceval_bin(b, ow, x, y)
                    }
                    OpK::Ite(g) => {
                        if self.num(g) != 0 {
                            self.val(ow, &a[0])
                        } else {
                            self.val(ow, &a[1])
                        }
                    }
                    OpK::Extract(sw, lo) => mask(ow, self.val(sw, &a[0]) >> lo),
                    OpK::ZExt(sw) => self.val(sw, &a[0]),
                    OpK::SExt(sw) => mask(ow, sext(sw, self.val(sw, &a[0])) as u128),
                },
            },
        }
    }
}
