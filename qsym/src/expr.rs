//! Symbolic values.
//!
//! Every boolean unknown v (an input bit, or a defined atom such as "this
//! polynomial is zero") is a ±1 variable chi_v, chi_v = -1 iff v is true.
//! Integers (mod 2^w) and *exact* floats are multilinear polynomials over these
//! with dyadic coefficients, hash-consed in normal form, so algebraically equal
//! expressions are the same node.  Anything which does not fit is a generic
//! bit-vector operation.  All unknowns end up in an SMT query (smt.rs).
use crate::ir::{BinOp, FOp, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type P = u32;
pub type M = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Undef,
    C(u128),
    S(u32),
    Agg(Rc<Vec<Val>>),
}

pub fn mask(w: u32, v: u128) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(w: u32, v: u128) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let v = mask(w, v);
        if w > 0 && (v >> (w - 1)) & 1 == 1 {
            (v as i128) - (1i128 << w)
        } else {
            v as i128
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub den: u32,
    pub t: Vec<(M, i128)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum VarDef {
    Input(u32),
    Named(P),
    EqZero(P),
    LtZero(P),
    Pred(Pred, u32, Val, Val),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum OpK {
    Bin(BinOp),
    Ite(P),
    Extract(u32, u32), // source width, lo
    ZExt(u32),
    SExt(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    I(u32, P),
    F(u32, P),
    Concat(Vec<(u32, Val)>), // little endian parts
    Op(OpK, u32, Vec<Val>),
}

pub const ZERO: P = 0;
pub const ONE: P = 1;
const TABLE: usize = 12;
const PRED_TABLE: usize = 8;
const MAXTERMS: usize = 60_000;

pub struct Unsupported(pub String);
pub fn unsup<T>(s: impl Into<String>) -> T {
    std::panic::panic_any(Unsupported(s.into()))
}

#[derive(Clone, Copy)]
pub enum Origin {
    And(P, P),
    Xor(P, P),
    Ite(P, P, P),
}
pub struct Ctx {
    pub polys: Vec<Rc<Poly>>,
    pmap: HashMap<Rc<Poly>, P>,
    pub monos: Vec<Rc<[u32]>>,
    mmap: HashMap<Rc<[u32]>, M>,
    mxor: HashMap<(M, M), M>,
    pub vars: Vec<VarDef>,
    vmap: HashMap<VarDef, u32>,
    pub nodes: Vec<Node>,
    nmap: HashMap<Node, u32>,
    support: Vec<Option<Rc<[u32]>>>,
    range: Vec<Option<(i128, i128)>>,
    hint: HashMap<P, (i128, i128)>,
    /// polynomials known to take two values only (scaled)
    two: HashMap<P, (i128, i128)>,
    pub two_name: usize,
    pub two_sup: usize,
    cmpc: HashMap<(Pred, u32, Val, Val), P>,
    /// how a boolean was first built, for compact solver queries
    pub origin: HashMap<P, Origin>,
    mulc: HashMap<(P, P), Option<P>>,
    pub input_names: Vec<String>,
    canon: HashMap<u32, Val>,
    eqc: HashMap<P, P>,
    ltc: HashMap<P, P>,
    pub stat_terms: u64,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

/// exact dyadic decomposition of a finite float: value = num * 2^-den (den may be 0), None if too big/small
fn fdecode(w: u32, bits: u128) -> Option<(i128, u32)> {
    let x = if w == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) };
    if !x.is_finite() {
        return None;
    }
    if x == 0.0 {
        return Some((0, 0));
    }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) as i128;
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    if b >> 63 == 1 {
        m = -m;
    }
    if e >= 0 {
        if e > 40 {
            return None;
        }
        Some((m << e, 0))
    } else {
        if e < -60 {
            return None;
        }
        Some((m, (-e) as u32))
    }
}
fn fencode(w: u32, num: i128, den: u32) -> u128 {
    let x = num as f64 / (2f64).powi(den as i32);
    if w == 32 {
        (x as f32).to_bits() as u128
    } else {
        x.to_bits() as u128
    }
}

pub fn ceval_bin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let (a, b) = (mask(w, a), mask(w, b));
    mask(
        w,
        match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => {
                if b == 0 {
                    0
                } else {
                    a / b
                }
            }
            BinOp::URem => {
                if b == 0 {
                    0
                } else {
                    a % b
                }
            }
            BinOp::SDiv => {
                if b == 0 {
                    0
                } else {
                    sext(w, a).wrapping_div(sext(w, b)) as u128
                }
            }
            BinOp::SRem => {
                if b == 0 {
                    0
                } else {
                    sext(w, a).wrapping_rem(sext(w, b)) as u128
                }
            }
            BinOp::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => {
                if b >= w as u128 {
                    0
                } else {
                    (sext(w, a) >> b) as u128
                }
            }
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
        },
    )
}
pub fn ceval_pred(p: Pred, w: u32, a: u128, b: u128) -> bool {
    let (a, b) = (mask(w, a), mask(w, b));
    let (sa, sb) = (sext(w, a), sext(w, b));
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sa > sb,
        Pred::Sge => sa >= sb,
        Pred::Slt => sa < sb,
        Pred::Sle => sa <= sb,
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            polys: vec![],
            pmap: HashMap::new(),
            monos: vec![],
            mmap: HashMap::new(),
            mxor: HashMap::new(),
            vars: vec![],
            vmap: HashMap::new(),
            nodes: vec![],
            nmap: HashMap::new(),
            support: vec![],
            range: vec![],
            hint: HashMap::new(),
            two: HashMap::new(),
            cmpc: HashMap::new(),
            origin: HashMap::new(),
            two_name: 4,
            two_sup: 6,
            mulc: HashMap::new(),
            input_names: vec![],
            canon: HashMap::new(),
            eqc: HashMap::new(),
            ltc: HashMap::new(),
            stat_terms: 0,
        };
        c.mono(vec![]);
        c.intern(0, vec![]);
        c.intern(0, vec![(0, 1)]);
        c
    }
    fn mono(&mut self, v: Vec<u32>) -> M {
        let r: Rc<[u32]> = v.into();
        if let Some(m) = self.mmap.get(&r) {
            return *m;
        }
        let m = self.monos.len() as M;
        self.monos.push(r.clone());
        self.mmap.insert(r, m);
        m
    }
    fn mxor(&mut self, a: M, b: M) -> M {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        if a == b {
            return 0;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(m) = self.mxor.get(&k) {
            return *m;
        }
        let (x, y) = (self.monos[a as usize].clone(), self.monos[b as usize].clone());
        let mut o = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            if x[i] == y[j] {
                i += 1;
                j += 1;
            } else if x[i] < y[j] {
                o.push(x[i]);
                i += 1;
            } else {
                o.push(y[j]);
                j += 1;
            }
        }
        o.extend_from_slice(&x[i..]);
        o.extend_from_slice(&y[j..]);
        let m = self.mono(o);
        self.mxor.insert(k, m);
        m
    }
    /// terms must be sorted by monomial and without zeros
    fn intern(&mut self, mut den: u32, mut t: Vec<(M, i128)>) -> P {
        while den > 0 && t.iter().all(|(_, c)| c & 1 == 0) {
            for x in t.iter_mut() {
                x.1 >>= 1;
            }
            den -= 1;
        }
        if t.is_empty() {
            den = 0;
        }
        if den > 60 {
            unsup::<()>("polynomial denominators too large");
        }
        let p = Rc::new(Poly { den, t });
        if let Some(x) = self.pmap.get(&p) {
            return *x;
        }
        let id = self.polys.len() as P;
        self.stat_terms += p.t.len() as u64;
        self.polys.push(p.clone());
        self.pmap.insert(p, id);
        self.support.push(None);
        self.range.push(None);
        id
    }
    pub fn konst(&mut self, c: i128) -> P {
        if c == 0 {
            ZERO
        } else if c == 1 {
            ONE
        } else {
            self.intern(0, vec![(0, c)])
        }
    }
    pub fn kdy(&mut self, c: i128, den: u32) -> P {
        if c == 0 {
            return ZERO;
        }
        self.intern(den, vec![(0, c)])
    }
    pub fn pconst(&self, p: P) -> Option<(i128, u32)> {
        let q = &self.polys[p as usize];
        if q.t.is_empty() {
            Some((0, 0))
        } else if q.t.len() == 1 && q.t[0].0 == 0 {
            Some((q.t[0].1, q.den))
        } else {
            None
        }
    }
    pub fn chi(&mut self, v: u32) -> P {
        let m = self.mono(vec![v]);
        self.intern(0, vec![(m, 1)])
    }
    pub fn newvar(&mut self, d: VarDef) -> u32 {
        if let Some(v) = self.vmap.get(&d) {
            return *v;
        }
        let v = self.vars.len() as u32;
        self.vars.push(d.clone());
        self.vmap.insert(d, v);
        v
    }
    pub fn input(&mut self, name: &str) -> u32 {
        let k = self.input_names.len() as u32;
        self.input_names.push(name.to_string());
        self.newvar(VarDef::Input(k))
    }
    /// boolean poly which is 1 iff v is true
    pub fn bvar(&mut self, v: u32) -> P {
        let m = self.mono(vec![v]);
        self.intern(1, vec![(0, 1), (m, -1)])
    }
    pub fn nterms(&self, p: P) -> usize {
        self.polys[p as usize].t.len()
    }
    /// a*2^-sa... returns p + k*q with integer k
    pub fn padd(&mut self, p: P, q: P, k: i128) -> P {
        if q == ZERO || k == 0 {
            return p;
        }
        let (a, b) = (self.polys[p as usize].clone(), self.polys[q as usize].clone());
        let den = a.den.max(b.den);
        let (sa, sb) = (den - a.den, den - b.den);
        let mut o = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        let sh = |c: i128, s: u32| -> i128 { c.checked_mul(1i128 << s).unwrap_or_else(|| unsup("coefficient overflow")) };
        let mk = |c: i128| -> i128 { sh(c, sb).checked_mul(k).unwrap_or_else(|| unsup("coefficient overflow")) };
        while i < a.t.len() || j < b.t.len() {
            if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                o.push((a.t[i].0, sh(a.t[i].1, sa)));
                i += 1;
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                o.push((b.t[j].0, mk(b.t[j].1)));
                j += 1;
            } else {
                let c = sh(a.t[i].1, sa) + mk(b.t[j].1);
                if c != 0 {
                    o.push((a.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        if o.len() > MAXTERMS {
            unsup::<()>("polynomial too large");
        }
        let r = self.intern(den, o);
        if self.polys[r as usize].t.len() > 2 && !self.two.contains_key(&r) {
            let (x, y) = (self.pconst(p), self.pconst(q));
            if x.is_some() || y.is_some() {
                if let (Some((a0, a1, ad)), Some((b0, b1, bd))) = (self.two_valued(p), self.two_valued(q)) {
                    let d = ad.max(bd);
                    let u = (a0 << (d - ad)) + k * (b0 << (d - bd));
                    let v = (a1 << (d - ad)) + k * (b1 << (d - bd));
                    self.set_two(r, u.min(v), u.max(v), d);
                }
            }
        }
        r
    }
    /// r takes the values lo and hi (scaled by 2^den) only
    fn set_two(&mut self, r: P, lo: i128, hi: i128, den: u32) {
        let dr = self.polys[r as usize].den;
        let (l, h) = if dr >= den { (lo << (dr - den), hi << (dr - den)) } else { (lo >> (den - dr), hi >> (den - dr)) };
        self.two.insert(r, (l, h));
    }
    pub fn pneg(&mut self, p: P) -> P {
        self.padd(ZERO, p, -1)
    }
    /// p * c / 2^s
    pub fn pscale(&mut self, p: P, c: i128, s: u32) -> P {
        if c == 0 {
            return ZERO;
        }
        let a = self.polys[p as usize].clone();
        let t = a.t.iter().map(|(m, x)| (*m, x.checked_mul(c).unwrap_or_else(|| unsup("coefficient overflow")))).collect();
        let r = self.intern(a.den + s, t);
        if self.polys[r as usize].t.len() > 2 && !self.two.contains_key(&r) {
            if let Some((lo, hi, d)) = self.two_valued(p) {
                let (x, y) = (lo * c, hi * c);
                self.set_two(r, x.min(y), x.max(y), d + s);
            }
        }
        r
    }
    pub fn pmul(&mut self, p: P, q: P) -> Option<P> {
        if p == ZERO || q == ZERO {
            return Some(ZERO);
        }
        if p == ONE {
            return Some(q);
        }
        if q == ONE {
            return Some(p);
        }
        if let Some((c, d)) = self.pconst(p) {
            return Some(self.pscale(q, c, d));
        }
        if let Some((c, d)) = self.pconst(q) {
            return Some(self.pscale(p, c, d));
        }
        let k = if p < q { (p, q) } else { (q, p) };
        if let Some(r) = self.mulc.get(&k) {
            return *r;
        }
        let (a, b) = (self.polys[p as usize].clone(), self.polys[q as usize].clone());
        if a.t.len() * b.t.len() > 2_000_000 {
            self.mulc.insert(k, None);
            return None;
        }
        let mut acc: HashMap<M, i128> = HashMap::with_capacity(a.t.len() * b.t.len());
        for (m, c) in a.t.iter() {
            for (n, d) in b.t.iter() {
                let x = self.mxor(*m, *n);
                *acc.entry(x).or_insert(0) += c.checked_mul(*d).unwrap_or_else(|| unsup("coefficient overflow"));
            }
        }
        let mut t: Vec<(M, i128)> = acc.into_iter().filter(|(_, c)| *c != 0).collect();
        t.sort_unstable();
        let r = if t.len() > MAXTERMS { None } else { Some(self.intern(a.den + b.den, t)) };
        self.mulc.insert(k, r);
        r
    }
    pub fn support(&mut self, p: P) -> Rc<[u32]> {
        if let Some(s) = &self.support[p as usize] {
            return s.clone();
        }
        let mut v: Vec<u32> = vec![];
        let q = self.polys[p as usize].clone();
        for (m, _) in q.t.iter() {
            v.extend_from_slice(&self.monos[*m as usize]);
            if v.len() > 4096 {
                v.sort_unstable();
                v.dedup();
            }
        }
        v.sort_unstable();
        v.dedup();
        let r: Rc<[u32]> = v.into();
        self.support[p as usize] = Some(r.clone());
        r
    }
    /// values (scaled by 2^den) on all assignments of `vars`; bit i of the index = vars[i] true
    pub fn table(&mut self, p: P, vars: &[u32]) -> Vec<i128> {
        let q = self.polys[p as usize].clone();
        let n = vars.len();
        let mut v = vec![0i128; 1 << n];
        for (m, c) in q.t.iter() {
            let mut ix = 0usize;
            for x in self.monos[*m as usize].iter() {
                ix |= 1 << vars.iter().position(|y| y == x).expect("table var");
            }
            v[ix] += c;
        }
        wht(&mut v);
        v
    }
    pub fn from_table(&mut self, vars: &[u32], mut v: Vec<i128>, den: u32) -> P {
        let n = vars.len();
        wht(&mut v);
        let mut t = vec![];
        for (ix, c) in v.into_iter().enumerate() {
            if c != 0 {
                let mut m: Vec<u32> = (0..n).filter(|i| ix >> i & 1 == 1).map(|i| vars[i]).collect();
                m.sort_unstable();
                t.push((self.mono(m), c));
            }
        }
        t.sort_unstable();
        // divide by 2^n: allow den to exceed 60 transiently by reducing first
        let mut d = den + n as u32;
        while d > 0 && t.iter().all(|x: &(M, i128)| x.1 & 1 == 0) {
            for x in t.iter_mut() {
                x.1 >>= 1;
            }
            d -= 1;
        }
        self.intern(d, t)
    }
    /// bounds of p, scaled by 2^den
    pub fn range(&mut self, p: P) -> (i128, i128) {
        if let Some(r) = self.range[p as usize] {
            return r;
        }
        let q = self.polys[p as usize].clone();
        let mut c0 = 0;
        let mut s = 0i128;
        for (m, c) in q.t.iter() {
            if *m == 0 {
                c0 = *c
            } else {
                s += c.abs()
            }
        }
        let mut r = (c0 - s, c0 + s);
        if q.t.len() > 2 {
            let sup = self.support(p);
            if sup.len() <= 8 {
                let t = self.table(p, &sup);
                r = (*t.iter().min().unwrap(), *t.iter().max().unwrap());
            }
        }
        if let Some(h) = self.hint.get(&p) {
            r = (r.0.max(h.0), r.1.min(h.1));
        }
        self.range[p as usize] = Some(r);
        r
    }
    /// record that p lies in [lo,hi] (scaled by 2^den of p)
    fn add_hint(&mut self, p: P, lo: i128, hi: i128) {
        let r = self.range(p);
        if lo > r.0 || hi < r.1 {
            let n = (lo.max(r.0), hi.min(r.1));
            self.hint.insert(p, n);
            self.range[p as usize] = Some(n);
        }
    }
    /// all values of p (scaled) are congruent to the first modulo the second
    fn lattice(&self, p: P) -> (i128, i128) {
        let q = &self.polys[p as usize];
        let mut g = 0;
        let mut k = 0;
        for (m, c) in q.t.iter() {
            k += c;
            if *m != 0 {
                g = gcd(g, 2 * c);
            }
        }
        (k, g)
    }

    // ------------------------------------------------------------ booleans
    pub fn bnot(&mut self, p: P) -> P {
        self.padd(ONE, p, -1)
    }
    /// were all of `a` (or their negations) known before r (or its negation)
    fn older(&mut self, r: P, a: &[P]) -> bool {
        let n = self.bnot(r);
        let r = r.min(n);
        a.iter().all(|x| *x < r || self.bnot(*x) < r)
    }
    pub fn name(&mut self, p: P) -> P {
        if self.nterms(p) <= 2 {
            return p;
        }
        if let Some(v) = self.vmap.get(&VarDef::Named(p)) {
            let v = *v;
            return self.bvar(v);
        }
        let np = self.bnot(p);
        if let Some(v) = self.vmap.get(&VarDef::Named(np)) {
            let v = *v;
            let b = self.bvar(v);
            return self.bnot(b);
        }
        let v = self.newvar(VarDef::Named(p));
        self.bvar(v)
    }
    pub fn band(&mut self, p: P, q: P) -> P {
        let r = self.band_(p, q);
        if self.polys[r as usize].t.len() > 4 && !self.origin.contains_key(&r) && self.older(r, &[p, q]) {
            self.origin.insert(r, Origin::And(p, q));
        }
        r
    }
    fn band_(&mut self, p: P, q: P) -> P {
        if p == ZERO || q == ZERO {
            return ZERO;
        }
        if p == ONE || p == q {
            return q;
        }
        if q == ONE {
            return p;
        }
        let (mut p, mut q) = (p, q);
        if self.nterms(p) * self.nterms(q) > 4096 {
            if self.nterms(p) > self.nterms(q) {
                p = self.name(p);
            } else {
                q = self.name(q);
            }
            if self.nterms(p) * self.nterms(q) > 4096 {
                p = self.name(p);
                q = self.name(q);
            }
        }
        let r = self.pmul(p, q).unwrap();
        if self.nterms(r) > 64 {
            let sp = self.support(r).len();
            if sp > PRED_TABLE {
                let (a, b) = (self.name(p), self.name(q));
                return self.pmul(a, b).unwrap();
            }
        }
        r
    }
    pub fn bor(&mut self, p: P, q: P) -> P {
        let (a, b) = (self.bnot(p), self.bnot(q));
        let r = self.band(a, b);
        self.bnot(r)
    }
    pub fn bxor(&mut self, p: P, q: P) -> P {
        let r = self.bxor_(p, q);
        if self.polys[r as usize].t.len() > 4 && !self.origin.contains_key(&r) && self.older(r, &[p, q]) {
            self.origin.insert(r, Origin::Xor(p, q));
        }
        r
    }
    fn bxor_(&mut self, p: P, q: P) -> P {
        // p + q - 2pq
        if p == ZERO {
            return q;
        }
        if q == ZERO {
            return p;
        }
        if p == ONE {
            return self.bnot(q);
        }
        if q == ONE {
            return self.bnot(p);
        }
        let (mut p, mut q) = (p, q);
        if self.nterms(p) * self.nterms(q) > 4096 {
            p = self.name(p);
            q = self.name(q);
        }
        let mut pq = self.pmul(p, q).unwrap();
        if self.nterms(pq) > 64 && self.support(pq).len() > PRED_TABLE {
            p = self.name(p);
            q = self.name(q);
            pq = self.pmul(p, q).unwrap();
        }
        let s = self.padd(p, q, 1);
        self.padd(s, pq, -2)
    }
    pub fn bite(&mut self, c: P, a: P, b: P) -> P {
        let r = self.bite_(c, a, b);
        if self.polys[r as usize].t.len() > 4 && !self.origin.contains_key(&r) && self.older(r, &[c, a, b]) {
            self.origin.insert(r, Origin::Ite(c, a, b));
        }
        r
    }
    fn bite_(&mut self, c: P, a: P, b: P) -> P {
        if c == ONE || a == b {
            return a;
        }
        if c == ZERO {
            return b;
        }
        if a == ZERO {
            let nc = self.bnot(c);
            return self.band(nc, b);
        }
        if b == ZERO {
            return self.band(c, a);
        }
        if a == ONE {
            return self.bor(c, b);
        }
        if b == ONE {
            let nc = self.bnot(c);
            return self.bor(nc, a);
        }
        let x = self.band(c, a);
        let nc = self.bnot(c);
        let y = self.band(nc, b);
        let r = self.padd(x, y, 1);
        if self.nterms(r) > 64 && self.support(r).len() > PRED_TABLE {
            return self.name(r);
        }
        r
    }
    pub fn eq0(&mut self, d: P) -> P {
        if let Some((c, _)) = self.pconst(d) {
            return if c == 0 { ONE } else { ZERO };
        }
        if let Some(r) = self.eqc.get(&d) {
            return *r;
        }
        let r = self.eq0_(d);
        self.eqc.insert(d, r);
        r
    }
    fn eq0_(&mut self, d: P) -> P {
        let (lo, hi) = self.range(d);
        if lo > 0 || hi < 0 {
            return ZERO;
        }
        let (k, g) = self.lattice(d);
        if g != 0 && k % g != 0 {
            return ZERO;
        }
        let den = self.polys[d as usize].den;
        // exactly two possible values, one of which is 0
        if (lo == 0 && hi == g) || (hi == 0 && lo == -g) {
            let h = if lo == 0 { hi } else { lo };
            // 1 - d/(h/2^den); h must divide exactly
            let q = self.polys[d as usize].clone();
            // d = sum c_m s_m / 2^den ; d/(h/2^den) = sum c_m s_m / h ; each 2c_m divisible by g=|h|
            let mut t = vec![];
            let mut ok = true;
            for (m, c) in q.t.iter() {
                if (2 * c) % h != 0 {
                    ok = false;
                    break;
                }
                t.push((*m, -(2 * c) / h));
            }
            if ok {
                let r = self.intern(1, t);
                return self.padd(ONE, r, 1);
            }
        }
        let _ = den;
        let sup = self.support(d);
        if sup.len() <= PRED_TABLE {
            let t = self.table(d, &sup);
            let v = t.into_iter().map(|x| (x == 0) as i128).collect();
            return self.from_table(&sup, v, 0);
        }
        // normalise
        let q = self.polys[d as usize].clone();
        let mut g = 0;
        for (_, c) in q.t.iter() {
            g = gcd(g, *c);
        }
        let lead = q.t.iter().find(|(m, _)| *m != 0).unwrap().1;
        let s = if lead < 0 { -g } else { g };
        let t = q.t.iter().map(|(m, c)| (*m, c / s)).collect();
        let p = self.intern(0, t);
        let v = self.newvar(VarDef::EqZero(p));
        self.bvar(v)
    }
    pub fn lt0(&mut self, d: P) -> P {
        if let Some(r) = self.ltc.get(&d) {
            return *r;
        }
        let (lo, hi) = self.range(d);
        let r = if hi < 0 {
            ONE
        } else if lo >= 0 {
            ZERO
        } else {
            let sup = self.support(d);
            if sup.len() <= PRED_TABLE {
                let t = self.table(d, &sup);
                let v = t.into_iter().map(|x| (x < 0) as i128).collect();
                self.from_table(&sup, v, 0)
            } else {
                let q = self.polys[d as usize].clone();
                let mut g = 0;
                for (_, c) in q.t.iter() {
                    g = gcd(g, *c);
                }
                let t = q.t.iter().map(|(m, c)| (*m, c / g)).collect();
                let p = self.intern(0, t);
                let v = self.newvar(VarDef::LtZero(p));
                self.bvar(v)
            }
        };
        self.ltc.insert(d, r);
        r
    }

    // ------------------------------------------------------------ nodes
    pub fn node(&mut self, n: Node) -> Val {
        if let Some(i) = self.nmap.get(&n) {
            return Val::S(*i);
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.nmap.insert(n, i);
        Val::S(i)
    }
    pub fn from_bool(&mut self, p: P) -> Val {
        if p == ZERO {
            Val::C(0)
        } else if p == ONE {
            Val::C(1)
        } else {
            self.node(Node::I(1, p))
        }
    }
    pub fn as_bool(&mut self, v: &Val) -> P {
        match v {
            Val::Undef => ZERO,
            Val::C(c) => {
                if c & 1 == 1 {
                    ONE
                } else {
                    ZERO
                }
            }
            Val::S(i) => match self.nodes[*i as usize] {
                Node::I(1, p) => p,
                _ => {
                    let v = self.newvar(VarDef::Pred(Pred::Ne, 1, v.clone(), Val::C(0)));
                    self.bvar(v)
                }
            },
            Val::Agg(_) => unsup("as_bool of aggregate"),
        }
    }
    pub fn from_int(&mut self, w: u32, p: P) -> Val {
        if let Some((c, d)) = self.pconst(p) {
            if d != 0 {
                return unsup("fractional integer constant");
            }
            return Val::C(mask(w, c as u128));
        }
        if w == 1 {
            let (lo, hi) = self.range(p);
            let den = self.polys[p as usize].den;
            if !(lo >= 0 && hi <= (1i128 << den)) {
                // parity
                let sup = self.support(p);
                if sup.len() <= TABLE {
                    let t = self.table(p, &sup);
                    let v = t.into_iter().map(|x| (x >> den) & 1).collect();
                    let q = self.from_table(&sup, v, 0);
                    return self.from_bool(q);
                }
                let n = self.node(Node::I(8, p)); // wide enough: bit 0 only depends on the value mod 2
                let e = self.node(Node::Op(OpK::Extract(8, 0), 1, vec![n]));
                return e;
            }
        }
        self.node(Node::I(w, p))
    }
    fn fcheck(&mut self, w: u32, p: P) -> bool {
        let (lo, hi) = self.range(p);
        let lim = 1i128 << if w == 32 { 24 } else { 53 };
        lo >= -lim && hi <= lim
    }
    pub fn from_flt(&mut self, w: u32, p: P) -> Val {
        if let Some((c, d)) = self.pconst(p) {
            return Val::C(fencode(w, c, d));
        }
        if !self.fcheck(w, p) {
            return unsup("float expression may round: exact arithmetic does not apply");
        }
        self.node(Node::F(w, p))
    }
    pub fn as_flt(&mut self, w: u32, v: &Val) -> Option<P> {
        match v {
            Val::Undef => Some(ZERO),
            Val::C(c) => {
                let (n, d) = fdecode(w, *c)?;
                Some(self.kdy(n, d))
            }
            Val::S(i) => match self.nodes[*i as usize] {
                Node::F(fw, p) if fw == w => Some(p),
                _ => {
                    // reinterpret bits pointwise
                    let v = v.clone();
                    let r = self.table_op(&[(w, v)], |a| a[0], w, true)?;
                    if let Val::S(j) = r {
                        if let Node::F(_, p) = self.nodes[j as usize] {
                            return Some(p);
                        }
                        None
                    } else {
                        self.as_flt(w, &r)
                    }
                }
            },
            Val::Agg(_) => None,
        }
    }
    pub fn as_int(&mut self, w: u32, v: &Val) -> Option<P> {
        match v {
            Val::Undef => Some(ZERO),
            Val::C(c) => {
                if w == 1 {
                    return Some(if c & 1 == 1 { ONE } else { ZERO });
                }
                let x = sext(w, *c);
                if x.abs() > 1i128 << 100 {
                    return None;
                }
                Some(self.konst(x))
            }
            Val::S(i) => match self.nodes[*i as usize].clone() {
                Node::I(_, p) => Some(p),
                Node::Concat(parts) => {
                    let mut acc = ZERO;
                    let mut off = 0;
                    for (pw, pv) in parts {
                        let p = self.as_int(pw, &pv)?;
                        let p = self.ureduce(pw, p)?;
                        acc = self.padd(acc, p, 1i128 << off);
                        off += pw;
                        if off > 100 {
                            return None;
                        }
                    }
                    Some(acc)
                }
                _ => None,
            },
            Val::Agg(_) => None,
        }
    }
    /// representative of p mod 2^w within [0,2^w)
    fn ureduce(&mut self, w: u32, p: P) -> Option<P> {
        let den = self.polys[p as usize].den;
        let (lo, hi) = self.range(p);
        if w > 64 {
            return if lo >= 0 { Some(p) } else { None };
        }
        let top = 1i128 << (w + den);
        if lo >= 0 && hi < top {
            return Some(p);
        }
        if lo >= -top && hi < top {
            let neg = self.lt0(p);
            let neg = if self.nterms(neg) > 8 { self.name(neg) } else { neg };
            let r = self.padd(p, neg, 1i128 << w);
            self.add_hint_i(r, 0, (1i128 << w) - 1);
            return Some(r);
        }
        let sup = self.support(p);
        if sup.len() <= TABLE {
            let t = self.table(p, &sup);
            let v = t.into_iter().map(|x| (x >> den).rem_euclid(1i128 << w)).collect();
            return Some(self.from_table(&sup, v, 0));
        }
        None
    }
    fn add_hint_i(&mut self, p: P, lo: i128, hi: i128) {
        let den = self.polys[p as usize].den;
        self.add_hint(p, lo << den, hi << den);
    }
    /// representative within the signed range
    fn sreduce(&mut self, w: u32, p: P) -> Option<P> {
        if w == 1 {
            return Some(self.pneg(p));
        }
        let den = self.polys[p as usize].den;
        let (lo, hi) = self.range(p);
        if w > 64 {
            return Some(p);
        }
        let top = 1i128 << (w - 1 + den);
        if lo >= -top && hi < top {
            return Some(p);
        }
        if lo >= 0 && hi < 2 * top {
            let k = self.konst(1i128 << (w - 1));
            let d = self.padd(p, k, -1);
            let small = self.lt0(d);
            let big = self.bnot(small);
            let big = if self.nterms(big) > 8 { self.name(big) } else { big };
            let r = self.padd(p, big, -(1i128 << w));
            self.add_hint_i(r, -(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            return Some(r);
        }
        let sup = self.support(p);
        if sup.len() <= TABLE {
            let t = self.table(p, &sup);
            let v = t.into_iter().map(|x| sext(w, (x >> den) as u128)).collect();
            return Some(self.from_table(&sup, v, 0));
        }
        None
    }

    /// one node per function, for bytes which depend on few inputs
    pub fn canon8(&mut self, v: &Val) -> Val {
        if let Val::S(i) = v {
            if let Some(x) = self.canon.get(i) {
                return x.clone();
            }
            let mut vars = vec![];
            self.val_support(v, &mut vars);
            vars.sort_unstable();
            vars.dedup();
            if vars.len() > 6 {
                return v.clone();
            }
            let t = self.eval_table(8, v, &vars).into_iter().map(|x| sext(8, x)).collect();
            let p = self.from_table(&vars, t, 0);
            let r = match self.pconst(p) {
                Some((c, 0)) => Val::C(mask(8, c as u128)),
                _ => self.from_int(8, p),
            };
            self.canon.insert(*i, r.clone());
            return r;
        }
        v.clone()
    }
    pub fn val_support(&mut self, v: &Val, out: &mut Vec<u32>) {
        match v {
            Val::S(i) => match self.nodes[*i as usize].clone() {
                Node::I(_, p) | Node::F(_, p) => {
                    let s = self.support(p);
                    out.extend_from_slice(&s);
                }
                Node::Concat(ps) => {
                    for (_, x) in ps.iter() {
                        self.val_support(x, out)
                    }
                }
                Node::Op(k, _, a) => {
                    if let OpK::Ite(c) = k {
                        let s = self.support(c);
                        out.extend_from_slice(&s);
                    }
                    for x in a.iter() {
                        self.val_support(x, out);
                        if out.len() > 4096 {
                            out.sort_unstable();
                            out.dedup();
                            if out.len() > 64 {
                                return;
                            }
                        }
                    }
                }
            },
            Val::Agg(a) => {
                for x in a.iter() {
                    self.val_support(x, out)
                }
            }
            _ => {}
        }
    }
    pub fn eval_table(&mut self, w: u32, v: &Val, vars: &[u32]) -> Vec<u128> {
        let n = 1usize << vars.len();
        match v {
            Val::Undef => vec![0; n],
            Val::C(c) => vec![mask(w, *c); n],
            Val::Agg(_) => unsup("eval of aggregate"),
            Val::S(i) => match self.nodes[*i as usize].clone() {
                Node::I(nw, p) => {
                    let den = self.polys[p as usize].den;
                    self.table(p, vars).into_iter().map(|x| mask(nw, (x >> den) as u128)).collect()
                }
                Node::F(fw, p) => {
                    let den = self.polys[p as usize].den;
                    self.table(p, vars).into_iter().map(|x| fencode(fw, x, den)).collect()
                }
                Node::Concat(ps) => {
                    let mut o = vec![0u128; n];
                    let mut off = 0;
                    for (pw, pv) in ps.iter() {
                        let t = self.eval_table(*pw, pv, vars);
                        for k in 0..n {
                            o[k] |= mask(*pw, t[k]) << off;
                        }
                        off += pw;
                    }
                    o
                }
                Node::Op(op, ow, args) => match op {
                    OpK::Bin(b) => {
                        let x = self.eval_table(ow, &args[0], vars);
                        let y = self.eval_table(ow, &args[1], vars);
                        (0..n).map(|k| ceval_bin(b, ow, x[k], y[k])).collect()
                    }
                    OpK::Ite(c) => {
                        let t = self.table(c, vars);
                        let x = self.eval_table(ow, &args[0], vars);
                        let y = self.eval_table(ow, &args[1], vars);
                        (0..n).map(|k| if t[k] != 0 { x[k] } else { y[k] }).collect()
                    }
                    OpK::Extract(sw, lo) => self.eval_table(sw, &args[0], vars).into_iter().map(|x| mask(ow, x >> lo)).collect(),
                    OpK::ZExt(sw) => self.eval_table(sw, &args[0], vars),
                    OpK::SExt(sw) => self.eval_table(sw, &args[0], vars).into_iter().map(|x| mask(ow, sext(sw, x) as u128)).collect(),
                },
            },
        }
    }
    pub fn table_op(&mut self, args: &[(u32, Val)], f: impl Fn(&[u128]) -> u128, w: u32, flt: bool) -> Option<Val> {
        let mut sup = vec![];
        for (_, v) in args {
            self.val_support(v, &mut sup);
        }
        sup.sort_unstable();
        sup.dedup();
        if sup.len() > TABLE {
            return None;
        }
        let ts: Vec<Vec<u128>> = args.iter().map(|(w, v)| self.eval_table(*w, v, &sup)).collect();
        let n = 1usize << sup.len();
        let mut out = Vec::with_capacity(n);
        let mut buf = vec![0u128; args.len()];
        for k in 0..n {
            for (j, t) in ts.iter().enumerate() {
                buf[j] = t[k];
            }
            out.push(f(&buf));
        }
        if out.iter().all(|x| *x == out[0]) {
            return Some(Val::C(mask(w, out[0])));
        }
        if flt {
            let mut d: Vec<(i128, u32)> = vec![];
            for x in &out {
                d.push(fdecode(w, *x)?);
            }
            let den = d.iter().map(|x| x.1).max().unwrap();
            let v = d.into_iter().map(|(n, e)| n << (den - e)).collect();
            let p = self.from_table(&sup, v, den);
            Some(self.from_flt(w, p))
        } else {
            if w > 64 {
                if out.iter().any(|x| sext(w, *x).abs() > 1i128 << 90) {
                    return None;
                }
            }
            let v = out.into_iter().map(|x| if w == 1 { (x & 1) as i128 } else { sext(w, x) }).collect();
            let p = self.from_table(&sup, v, 0);
            Some(self.from_int(w, p))
        }
    }

    // ------------------------------------------------------------ integer operations
    pub fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        let a = if *a == Val::Undef { &Val::C(0) } else { a };
        let b = if *b == Val::Undef { &Val::C(0) } else { b };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(ceval_bin(op, w, *x, *y));
        }
        if matches!(b, Val::C(_)) && self.is_ite(a) {
            let b = b.clone();
            return self.map_ite(w, a, &mut HashMap::new(), &mut |c, x| c.bin(op, w, x, &b));
        }
        if matches!(a, Val::C(_)) && self.is_ite(b) {
            let a = a.clone();
            return self.map_ite(w, b, &mut HashMap::new(), &mut |c, x| c.bin(op, w, &a, x));
        }
        // identities
        match op {
            BinOp::Add | BinOp::Or | BinOp::Xor => {
                if *a == Val::C(0) {
                    return b.clone();
                }
                if *b == Val::C(0) {
                    return a.clone();
                }
            }
            BinOp::Sub | BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                if *b == Val::C(0) {
                    return a.clone();
                }
            }
            BinOp::Mul | BinOp::And => {
                if *a == Val::C(0) || *b == Val::C(0) {
                    return Val::C(0);
                }
            }
            _ => {}
        }
        if w == 1 {
            let (p, q) = (self.as_bool(a), self.as_bool(b));
            let r = match op {
                BinOp::Add | BinOp::Sub | BinOp::Xor => self.bxor(p, q),
                BinOp::Mul | BinOp::And => self.band(p, q),
                BinOp::Or => self.bor(p, q),
                BinOp::UDiv | BinOp::SDiv => p,
                BinOp::URem | BinOp::SRem => ZERO,
                BinOp::Shl | BinOp::LShr => {
                    let nq = self.bnot(q);
                    self.band(p, nq)
                }
                BinOp::AShr => p,
            };
            return self.from_bool(r);
        }
        match op {
            BinOp::And | BinOp::Or | BinOp::Xor => {
                if a == b {
                    return if op == BinOp::Xor { Val::C(0) } else { a.clone() };
                }
                let all = mask(w, u128::MAX);
                for (x, y) in [(a, b), (b, a)] {
                    if let Val::C(c) = y {
                        if *c == all {
                            match op {
                                BinOp::And => return x.clone(),
                                BinOp::Or => return Val::C(all),
                                _ => {
                                    // not x = -1 - x
                                    if let Some(p) = self.as_int(w, x) {
                                        let m1 = self.konst(-1);
                                        let r = self.padd(m1, p, -1);
                                        return self.from_int(w, r);
                                    }
                                }
                            }
                        }
                        if op == BinOp::And && (*c + 1).is_power_of_two() {
                            // low mask: zext(trunc)
                            let k = (*c + 1).trailing_zeros();
                            if let Some(p) = self.as_int(w, x) {
                                let den = self.polys[p as usize].den;
                                let (lo, hi) = self.range(p);
                                if lo >= 0 && hi <= ((*c as i128) << den) {
                                    return x.clone();
                                }
                            }
                            if k < w {
                                let t = self.extract(w, x, 0, k);
                                return self.zext(k, w, &t);
                            }
                        }
                        // masks on concatenations
                        if let Val::S(i) = x {
                            if let Node::Concat(ps) = self.nodes[*i as usize].clone() {
                                let mut out = vec![];
                                let mut off = 0;
                                for (pw, pv) in ps {
                                    let m = Val::C(mask(pw, c >> off));
                                    let r = self.bin(op, pw, &pv, &m);
                                    out.push((pw, r));
                                    off += pw;
                                }
                                return self.concat(out);
                            }
                        }
                    }
                }
                // concat (op) concat with the same split
                if let (Val::S(i), Val::S(j)) = (a, b) {
                    if let (Node::Concat(x), Node::Concat(y)) = (self.nodes[*i as usize].clone(), self.nodes[*j as usize].clone()) {
                        let off = |v: &Vec<(u32, Val)>| -> Vec<u32> {
                            v.iter()
                                .scan(0, |s, p| {
                                    *s += p.0;
                                    Some(*s)
                                })
                                .collect()
                        };
                        let (ox, oy) = (off(&x), off(&y));
                        let mut cuts: Vec<u32> = ox.into_iter().chain(oy).collect();
                        cuts.sort_unstable();
                        cuts.dedup();
                        let mut out = vec![];
                        let mut lo = 0;
                        for c in cuts {
                            let p = self.extract(w, a, lo, c - lo);
                            let q = self.extract(w, b, lo, c - lo);
                            let r = self.bin(op, c - lo, &p, &q);
                            out.push((c - lo, r));
                            lo = c;
                        }
                        return self.concat(out);
                    }
                }
                if let (Some(p), Some(q)) = (self.as_int(w, a), self.as_int(w, b)) {
                    if let (Some(p), Some(q)) = (self.ureduce_cheap(w, p), self.ureduce_cheap(w, q)) {
                        let (dp, dq) = (self.polys[p as usize].den, self.polys[q as usize].den);
                        let (rp, rq) = (self.range(p), self.range(q));
                        if rp.1 <= 1i128 << dp && rq.1 <= 1i128 << dq {
                            let r = match op {
                                BinOp::And => self.band(p, q),
                                BinOp::Or => self.bor(p, q),
                                _ => self.bxor(p, q),
                            };
                            return self.from_int(w, r);
                        }
                        // disjoint bits
                        for (x, y) in [(p, q), (q, p)] {
                            let (k, g) = self.lattice(x);
                            let dx = self.polys[x as usize].den;
                            let dy = self.polys[y as usize].den;
                            let g = gcd(k, g);
                            let tz = (g.trailing_zeros() as i64) - dx as i64;
                            if g != 0 && tz > 0 && self.range(y).1 < 1i128 << (tz as u32 + dy) {
                                if op == BinOp::And {
                                    return Val::C(0);
                                }
                                let (lx, ly) = (self.range(x), self.range(y));
                                let r = self.padd(p, q, 1);
                                self.add_hint_i(r, 0, (lx.1 >> dx) + (ly.1 >> dy));
                                return self.from_int(w, r);
                            }
                        }
                    }
                }
            }
            BinOp::Add | BinOp::Sub => {
                if let (Some(p), Some(q)) = (self.as_int(w, a), self.as_int(w, b)) {
                    let (rp, rq) = (self.irange(p), self.irange(q));
                    let s = if op == BinOp::Add { 1 } else { -1 };
                    let r = self.padd(p, q, s);
                    if s == 1 {
                        self.add_hint_i(r, rp.0 + rq.0, rp.1 + rq.1);
                    } else {
                        self.add_hint_i(r, rp.0 - rq.1, rp.1 - rq.0);
                    }
                    return self.from_int(w, r);
                }
            }
            BinOp::Mul => {
                if let (Some(p), Some(q)) = (self.as_int(w, a), self.as_int(w, b)) {
                    if self.irange(p).1.abs() < 1 << 62 && self.irange(q).1.abs() < 1 << 62 {
                        if let Some(r) = self.pmul(p, q) {
                            return self.from_int(w, r);
                        }
                    }
                }
            }
            BinOp::Shl => {
                if let (Val::C(k), Some(p)) = (b, self.as_int(w, a)) {
                    if *k < w as u128 && w <= 64 {
                        let r = self.pscale(p, 1i128 << *k, 0);
                        return self.from_int(w, r);
                    }
                }
            }
            BinOp::LShr | BinOp::AShr => {
                if let Val::C(k) = b {
                    let k = *k as u32;
                    if k >= w {
                        return Val::C(0);
                    }
                    if let Some(p) = self.as_int(w, a) {
                        let r = if op == BinOp::LShr { self.ureduce_cheap(w, p) } else { self.sreduce(w, p) };
                        if let Some(p) = r {
                            let (kk, g) = self.lattice(p);
                            let g = gcd(kk, g);
                            let den = self.polys[p as usize].den;
                            if g.trailing_zeros() >= k + den {
                                let q = self.pscale(p, 1, k);
                                return self.from_int(w, q);
                            }
                            let (lo, hi) = self.range(p);
                            if lo >= 0 && hi < 1i128 << (k + den) {
                                return Val::C(0);
                            }
                        }
                    }
                    if op == BinOp::LShr {
                        if let Val::S(i) = a {
                            if let Node::Concat(_) = self.nodes[*i as usize] {
                                let e = self.extract(w, a, k, w - k);
                                return self.concat(vec![(w - k, e), (k, Val::C(0))]);
                            }
                        }
                    }
                }
            }
            BinOp::UDiv | BinOp::URem => {
                if let Val::C(c) = b {
                    if c.is_power_of_two() {
                        let k = c.trailing_zeros();
                        return if op == BinOp::UDiv {
                            self.bin(BinOp::LShr, w, a, &Val::C(k as u128))
                        } else {
                            self.bin(BinOp::And, w, a, &Val::C(c - 1))
                        };
                    }
                    if let Some(p) = self.as_int(w, a) {
                        if let Some(p) = self.ureduce_cheap(w, p) {
                            if self.irange(p).1 < *c as i128 {
                                return if op == BinOp::UDiv { Val::C(0) } else { a.clone() };
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(v) = self.table_op(&[(w, a.clone()), (w, b.clone())], |x| ceval_bin(op, w, x[0], x[1]), w, false) {
            return v;
        }
        self.node(Node::Op(OpK::Bin(op), w, vec![a.clone(), b.clone()]))
    }
    fn irange(&mut self, p: P) -> (i128, i128) {
        let den = self.polys[p as usize].den;
        let (lo, hi) = self.range(p);
        (lo >> den, (hi + (1i128 << den) - 1) >> den)
    }
    fn ureduce_cheap(&mut self, w: u32, p: P) -> Option<P> {
        let (lo, hi) = self.irange(p);
        if lo >= 0 && (w > 64 || hi < 1i128 << w) {
            Some(p)
        } else {
            self.ureduce(w, p)
        }
    }
    fn is_ite(&self, a: &Val) -> bool {
        matches!(a, Val::S(i) if matches!(self.nodes[*i as usize], Node::Op(OpK::Ite(_), ..)))
    }
    /// apply f to the leaves of a chain of choices
    fn map_ite(&mut self, w: u32, a: &Val, memo: &mut HashMap<u32, Val>, f: &mut dyn FnMut(&mut Ctx, &Val) -> Val) -> Val {
        if let Val::S(i) = a {
            if let Some(v) = memo.get(i) {
                return v.clone();
            }
            if let Node::Op(OpK::Ite(c), _, x) = self.nodes[*i as usize].clone() {
                let u = self.map_ite(w, &x[0], memo, f);
                let v = self.map_ite(w, &x[1], memo, f);
                let r = self.ite(c, w, &u, &v);
                memo.insert(*i, r.clone());
                return r;
            }
        }
        f(self, a)
    }
    pub fn zext(&mut self, fw: u32, tw: u32, a: &Val) -> Val {
        if self.is_ite(a) {
            return self.map_ite(tw, a, &mut HashMap::new(), &mut |c, x| c.zext(fw, tw, x));
        }
        match a {
            Val::Undef => Val::Undef,
            Val::C(c) => Val::C(mask(fw, *c)),
            _ => {
                if let Val::S(i) = a {
                    if let Node::Concat(_) = self.nodes[*i as usize] {
                        return self.concat(vec![(fw, a.clone()), (tw - fw, Val::C(0))]);
                    }
                }
                if let Some(p) = self.as_int(fw, a) {
                    if let Some(p) = self.ureduce(fw, p) {
                        return self.from_int(tw, p);
                    }
                }
                self.node(Node::Op(OpK::ZExt(fw), tw, vec![a.clone()]))
            }
        }
    }
    pub fn sext_v(&mut self, fw: u32, tw: u32, a: &Val) -> Val {
        if self.is_ite(a) {
            return self.map_ite(tw, a, &mut HashMap::new(), &mut |c, x| c.sext_v(fw, tw, x));
        }
        match a {
            Val::Undef => Val::Undef,
            Val::C(c) => Val::C(mask(tw, sext(fw, *c) as u128)),
            _ => {
                if let Some(p) = self.as_int(fw, a) {
                    if let Some(p) = self.sreduce(fw, p) {
                        return self.from_int(tw, p);
                    }
                }
                self.node(Node::Op(OpK::SExt(fw), tw, vec![a.clone()]))
            }
        }
    }
    pub fn extract(&mut self, w: u32, a: &Val, lo: u32, n: u32) -> Val {
        if lo == 0 && n == w {
            return a.clone();
        }
        match a {
            Val::Undef => Val::Undef,
            Val::C(c) => Val::C(mask(n, c >> lo)),
            Val::Agg(_) => unsup("extract of aggregate"),
            Val::S(i) => match self.nodes[*i as usize].clone() {
                Node::Concat(ps) => {
                    let mut out = vec![];
                    let mut off = 0;
                    for (pw, pv) in ps {
                        let s = off.max(lo);
                        let e = (off + pw).min(lo + n);
                        if s < e {
                            let x = self.extract(pw, &pv, s - off, e - s);
                            out.push((e - s, x));
                        }
                        off += pw;
                    }
                    self.concat(out)
                }
                Node::Op(OpK::Ite(c), _, args) => {
                    let x = self.extract(w, &args[0], lo, n);
                    let y = self.extract(w, &args[1], lo, n);
                    self.ite(c, n, &x, &y)
                }
                Node::Op(OpK::ZExt(sw), _, args) if lo + n <= sw => self.extract(sw, &args[0], lo, n),
                Node::I(_, p) => {
                    if lo == 0 {
                        return self.from_int(n, p);
                    }
                    if let Some(u) = self.ureduce(w, p) {
                        let (_, hi) = self.irange(u);
                        if lo < 100 && hi < 1i128 << lo {
                            return Val::C(0);
                        }
                    }
                    if let Some(v) = self.table_op(&[(w, a.clone())], |x| mask(n, x[0] >> lo), n, false) {
                        return v;
                    }
                    self.node(Node::Op(OpK::Extract(w, lo), n, vec![a.clone()]))
                }
                _ => {
                    if let Some(v) = self.table_op(&[(w, a.clone())], |x| mask(n, x[0] >> lo), n, false) {
                        return v;
                    }
                    self.node(Node::Op(OpK::Extract(w, lo), n, vec![a.clone()]))
                }
            },
        }
    }
    /// little endian
    pub fn concat(&mut self, parts: Vec<(u32, Val)>) -> Val {
        let mut out: Vec<(u32, Val)> = vec![];
        let mut flat = vec![];
        for (w, v) in parts {
            if let Val::S(i) = &v {
                if let Node::Concat(ps) = &self.nodes[*i as usize] {
                    flat.extend(ps.iter().cloned());
                    continue;
                }
            }
            flat.push((w, v));
        }
        if flat.iter().all(|p| p.1 == Val::Undef) {
            return Val::Undef;
        }
        for (w, v) in flat {
            let v = if v == Val::Undef { Val::C(0) } else { v };
            if let (Some((pw, Val::C(pc))), Val::C(c)) = (out.last_mut(), &v) {
                if *pw + w <= 128 {
                    *pc |= mask(w, *c) << *pw;
                    *pw += w;
                    continue;
                }
            }
            // re-join extracts of the same source
            if let (Some((pw, Val::S(pi))), Val::S(qi)) = (out.last_mut(), &v) {
                if let (Node::Op(OpK::Extract(sw, lo), _, a), Node::Op(OpK::Extract(sw2, lo2), _, b)) =
                    (self.nodes[*pi as usize].clone(), self.nodes[*qi as usize].clone())
                {
                    if sw == sw2 && a == b && lo + *pw == lo2 {
                        let nw = *pw + w;
                        let n = self.extract(sw, &a[0], lo, nw);
                        if let Val::S(k) = n {
                            *pw = nw;
                            *pi = k;
                            continue;
                        }
                    }
                }
            }
            out.push((w, v));
        }
        if out.len() == 1 {
            return out.pop().unwrap().1;
        }
        self.node(Node::Concat(out))
    }
    pub fn cmp(&mut self, pred: Pred, w: u32, a: &Val, b: &Val) -> P {
        let a = if *a == Val::Undef { &Val::C(0) } else { a };
        let b = if *b == Val::Undef { &Val::C(0) } else { b };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return if ceval_pred(pred, w, *x, *y) { ONE } else { ZERO };
        }
        if matches!(pred, Pred::Eq | Pred::Ult | Pred::Slt) {
            if let Some(r) = self.cmp_ite(pred, w, a, b) {
                return r;
            }
        }
        match pred {
            Pred::Ne => {
                let r = self.cmp(Pred::Eq, w, a, b);
                self.bnot(r)
            }
            Pred::Ugt => self.cmp(Pred::Ult, w, b, a),
            Pred::Sgt => self.cmp(Pred::Slt, w, b, a),
            Pred::Uge => {
                let r = self.cmp(Pred::Ult, w, a, b);
                self.bnot(r)
            }
            Pred::Sge => {
                let r = self.cmp(Pred::Slt, w, a, b);
                self.bnot(r)
            }
            Pred::Ule => {
                let r = self.cmp(Pred::Ult, w, b, a);
                self.bnot(r)
            }
            Pred::Sle => {
                let r = self.cmp(Pred::Slt, w, b, a);
                self.bnot(r)
            }
            Pred::Eq => {
                if a == b {
                    return ONE;
                }
                if w == 1 {
                    let (p, q) = (self.as_bool(a), self.as_bool(b));
                    let x = self.bxor(p, q);
                    return self.bnot(x);
                }
                // split concatenations
                let parts = |c: &Ctx, v: &Val| -> Option<Vec<(u32, Val)>> {
                    if let Val::S(i) = v {
                        if let Node::Concat(p) = &c.nodes[*i as usize] {
                            return Some(p.clone());
                        }
                    }
                    None
                };
                let ps = parts(self, a).or_else(|| parts(self, b));
                if let Some(ps) = ps {
                    let other_ok = |c: &Ctx, v: &Val| matches!(v, Val::C(_)) || parts(c, v).is_some();
                    if other_ok(self, a) && other_ok(self, b) {
                        let mut off = 0;
                        let mut acc = ONE;
                        for (pw, _) in ps {
                            let x = self.extract(w, a, off, pw);
                            let y = self.extract(w, b, off, pw);
                            let e = if self.is_f(&x) || self.is_f(&y) {
                                self.fbits_eq(pw, &x, &y)
                            } else {
                                self.cmp(Pred::Eq, pw, &x, &y)
                            };
                            acc = self.band(acc, e);
                            if acc == ZERO {
                                return ZERO;
                            }
                            off += pw;
                        }
                        return acc;
                    }
                }
                if self.is_f(a) || self.is_f(b) {
                    return self.fbits_eq(w, a, b);
                }
                if let (Some(p), Some(q)) = (self.as_int(w, a), self.as_int(w, b)) {
                    let (rp, rq) = (self.irange(p), self.irange(q));
                    let d = self.padd(p, q, -1);
                    if let Some(r) = self.two_cmp(p, q, |x, y| mask(w, x as u128) == mask(w, y as u128)) {
                        return r;
                    }
                    let m = 1i128 << w.min(100);
                    if rp.1 - rq.0 < m && rq.1 - rp.0 < m {
                        return self.eq0(d);
                    }
                    if let (Some(p), Some(q)) = (self.ureduce(w, p), self.ureduce(w, q)) {
                        let d = self.padd(p, q, -1);
                        return self.eq0(d);
                    }
                }
                self.pred_fallback(Pred::Eq, w, a, b)
            }
            Pred::Ult => {
                if *b == Val::C(0) {
                    return ZERO;
                }
                if let (Some(p), Some(q)) = (self.as_int(w, a), self.as_int(w, b)) {
                    if let Some(r) = self.two_cmp(p, q, |x, y| mask(w, x as u128) < mask(w, y as u128)) {
                        return r;
                    }
                    if let (Some(p), Some(q)) = (self.ureduce(w, p), self.ureduce(w, q)) {
                        let (rp, rq) = (self.irange(p), self.irange(q));
                        if rp.1 < rq.0 {
                            return ONE;
                        }
                        if rp.0 >= rq.1 {
                            return ZERO;
                        }
                        let d = self.padd(p, q, -1);
                        return self.lt0(d);
                    }
                }
                self.pred_fallback(Pred::Ult, w, a, b)
            }
            Pred::Slt => {
                if let (Some(p), Some(q)) = (self.as_int(w, a), self.as_int(w, b)) {
                    if let Some(r) = self.two_cmp(p, q, |x, y| sext(w, mask(w, x as u128)) < sext(w, mask(w, y as u128))) {
                        return r;
                    }
                    if let (Some(p), Some(q)) = (self.sreduce(w, p), self.sreduce(w, q)) {
                        let (rp, rq) = (self.irange(p), self.irange(q));
                        if rp.1 < rq.0 {
                            return ONE;
                        }
                        if rp.0 >= rq.1 {
                            return ZERO;
                        }
                        let d = self.padd(p, q, -1);
                        return self.lt0(d);
                    }
                }
                self.pred_fallback(Pred::Slt, w, a, b)
            }
        }
    }
    /// comparison of a chain of choices with a constant
    fn cmp_ite(&mut self, pred: Pred, w: u32, a: &Val, b: &Val) -> Option<P> {
        let get = |c: &Ctx, v: &Val| -> Option<(P, Val, Val)> {
            if let Val::S(i) = v {
                if let Node::Op(OpK::Ite(g), _, x) = &c.nodes[*i as usize] {
                    return Some((*g, x[0].clone(), x[1].clone()));
                }
            }
            None
        };
        let small = |v: &Val| matches!(v, Val::C(_));
        let (ga, gb) = (get(self, a), get(self, b));
        let key = (pred, w, a.clone(), b.clone());
        let r = match (ga, gb) {
            (Some((g, x, y)), None) if small(b) => {
                if let Some(r) = self.cmpc.get(&key) {
                    return Some(*r);
                }
                let (x, y) = (self.cmp(pred, w, &x, b), self.cmp(pred, w, &y, b));
                self.bite(g, x, y)
            }
            (None, Some((g, x, y))) if small(a) => {
                if let Some(r) = self.cmpc.get(&key) {
                    return Some(*r);
                }
                let (x, y) = (self.cmp(pred, w, a, &x), self.cmp(pred, w, a, &y));
                self.bite(g, x, y)
            }
            _ => return None,
        };
        self.cmpc.insert(key, r);
        Some(r)
    }
    /// for a polynomial with two known integer values: (low, high, is it the high one)
    fn two_bool(&mut self, p: P) -> Option<(i128, i128, P)> {
        let (lo, hi, den) = self.two_valued(p)?;
        let (l, h) = (lo >> den, hi >> den);
        if l == h {
            return Some((l, h, ZERO));
        }
        let x = {
            let k = self.konst(l);
            self.padd(p, k, -1)
        };
        let g = h - l;
        let tz = g.trailing_zeros();
        if g >> tz != 1 {
            return None;
        }
        let b = self.pscale(x, 1, tz);
        Some((l, h, b))
    }
    fn two_cmp(&mut self, p: P, q: P, f: impl Fn(i128, i128) -> bool) -> Option<P> {
        if self.nterms(p) + self.nterms(q) <= 8 {
            return None;
        }
        let (a0, a1, x) = self.two_bool(p)?;
        let (b0, b1, y) = self.two_bool(q)?;
        let k = |b: bool| if b { ONE } else { ZERO };
        let hi = self.bite(y, k(f(a1, b1)), k(f(a1, b0)));
        let lo = self.bite(y, k(f(a0, b1)), k(f(a0, b0)));
        let r = self.bite(x, hi, lo);
        Some(r)
    }
    fn is_f(&self, v: &Val) -> bool {
        if let Val::S(i) = v {
            matches!(self.nodes[*i as usize], Node::F(..))
        } else {
            false
        }
    }
    fn fbits_eq(&mut self, w: u32, a: &Val, b: &Val) -> P {
        if let (Some(p), Some(q)) = (self.as_flt(w, a), self.as_flt(w, b)) {
            let d = self.padd(p, q, -1);
            return self.eq0(d);
        }
        self.pred_fallback(Pred::Eq, w, a, b)
    }
    fn pred_fallback(&mut self, pred: Pred, w: u32, a: &Val, b: &Val) -> P {
        // distribute over ite nodes with constant other side
        for (x, y, sw) in [(a, b, false), (b, a, true)] {
            if let (Val::S(i), Val::C(_)) = (x, y) {
                if let Node::Op(OpK::Ite(c), _, args) = self.nodes[*i as usize].clone() {
                    let (u, v) = if sw {
                        (self.cmp(pred, w, y, &args[0]), self.cmp(pred, w, y, &args[1]))
                    } else {
                        (self.cmp(pred, w, &args[0], y), self.cmp(pred, w, &args[1], y))
                    };
                    return self.bite(c, u, v);
                }
            }
        }
        if let Some(v) = self.table_op(&[(w, a.clone()), (w, b.clone())], |x| ceval_pred(pred, w, x[0], x[1]) as u128, 1, false) {
            return self.as_bool(&v);
        }
        let v = self.newvar(VarDef::Pred(pred, w, a.clone(), b.clone()));
        self.bvar(v)
    }
    pub fn ite(&mut self, c: P, w: u32, a: &Val, b: &Val) -> Val {
        if c == ONE || a == b {
            return a.clone();
        }
        if c == ZERO {
            return b.clone();
        }
        match (a, b) {
            (Val::Undef, _) => return b.clone(),
            (_, Val::Undef) => return a.clone(),
            (Val::Agg(x), Val::Agg(y)) => {
                if x.len() != y.len() {
                    return unsup("ite of different aggregates");
                }
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, w, p, q)).collect();
                return Val::Agg(Rc::new(v));
            }
            _ => {}
        }
        if w == 1 {
            let (p, q) = (self.as_bool(a), self.as_bool(b));
            let r = self.bite(c, p, q);
            return self.from_bool(r);
        }
        let isf = self.is_f(a) || self.is_f(b);
        if isf {
            if let (Some(p), Some(q)) = (self.as_flt(w, a), self.as_flt(w, b)) {
                if let Some(r) = self.ite_poly(w, c, p, q) {
                    return self.from_flt(w, r);
                }
            }
        }
        // same-split concatenations
        let getp = |c: &Ctx, v: &Val| -> Option<Vec<(u32, Val)>> {
            if let Val::S(i) = v {
                if let Node::Concat(p) = &c.nodes[*i as usize] {
                    return Some(p.clone());
                }
            }
            None
        };
        let (pa, pb) = (getp(self, a), getp(self, b));
        if pa.is_some() || pb.is_some() {
            let cuts = |ps: &Option<Vec<(u32, Val)>>| -> Vec<u32> {
                let mut o = 0;
                ps.as_ref()
                    .map(|v| {
                        v.iter()
                            .map(|p| {
                                o += p.0;
                                o
                            })
                            .collect()
                    })
                    .unwrap_or_default()
            };
            let (ca, cb) = (cuts(&pa), cuts(&pb));
            let ok = match (&pa, &pb) {
                (Some(_), Some(_)) => true,
                (Some(_), None) => matches!(b, Val::C(_)),
                _ => matches!(a, Val::C(_)),
            };
            if ok {
                let mut all: Vec<u32> = ca.into_iter().chain(cb).collect();
                all.sort_unstable();
                all.dedup();
                let mut lo = 0;
                let mut out = vec![];
                for e in all {
                    let x = self.extract(w, a, lo, e - lo);
                    let y = self.extract(w, b, lo, e - lo);
                    let r = self.ite(c, e - lo, &x, &y);
                    out.push((e - lo, r));
                    lo = e;
                }
                return self.concat(out);
            }
        }
        if !isf {
            if let (Some(p), Some(q)) = (self.as_int(w, a), self.as_int(w, b)) {
                if let Some(r) = self.ite_poly(w, c, p, q) {
                    return self.from_int(w, r);
                }
            }
        }
        self.node(Node::Op(OpK::Ite(c), w, vec![a.clone(), b.clone()]))
    }
    /// ite of float-typed values (keeps the float representation)
    pub fn ite_f(&mut self, c: P, w: u32, a: &Val, b: &Val) -> Val {
        if c == ONE || a == b {
            return a.clone();
        }
        if c == ZERO {
            return b.clone();
        }
        if *a == Val::Undef {
            return b.clone();
        }
        if *b == Val::Undef {
            return a.clone();
        }
        if !matches!((a, b), (Val::Agg(_), _)) {
            if let (Some(p), Some(q)) = (self.as_flt(w, a), self.as_flt(w, b)) {
                if let Some(r) = self.ite_poly(w, c, p, q) {
                    return self.from_flt(w, r);
                }
            }
        }
        self.ite(c, w, a, b)
    }
    /// the at most two values p takes, scaled by 2^den of p, if that is known
    fn two_valued(&mut self, p: P) -> Option<(i128, i128, u32)> {
        let q = self.polys[p as usize].clone();
        if q.t.is_empty() {
            return Some((0, 0, 0));
        }
        if q.t.len() == 1 && q.t[0].0 == 0 {
            return Some((q.t[0].1, q.t[0].1, q.den));
        }
        if q.t.len() == 1 {
            let c = q.t[0].1.abs();
            return Some((-c, c, q.den));
        }
        if q.t.len() == 2 && q.t[0].0 == 0 {
            let c = q.t[1].1.abs();
            return Some((q.t[0].1 - c, q.t[0].1 + c, q.den));
        }
        self.two.get(&p).map(|(a, b)| (*a, *b, q.den))
    }
    pub fn ite_poly(&mut self, w: u32, c: P, p: P, q: P) -> Option<P> {
        // values of both branches together
        let mut two = None;
        if let (Some((a0, a1, ad)), Some((b0, b1, bd))) = (self.two_valued(p), self.two_valued(q)) {
            let d = ad.max(bd);
            let mut v = vec![a0 << (d - ad), a1 << (d - ad), b0 << (d - bd), b1 << (d - bd)];
            v.sort_unstable();
            v.dedup();
            if v.len() == 2 {
                two = Some((v[0], v[1], d));
            }
        }
        let d = self.padd(p, q, -1);
        let mut c2 = c;
        let bigd = self.nterms(d) > 1 && {
            let mut u: Vec<u32> = self.support(c).to_vec();
            u.extend_from_slice(&self.support(d));
            u.sort_unstable();
            u.dedup();
            u.len() > 8
        };
        if self.nterms(c) * self.nterms(d) > 2048 || (two.is_none() && bigd && self.nterms(c) > 8) {
            c2 = self.name(c);
        }
        let mut m = self.pmul(c2, d)?;
        if self.nterms(m) > 512 && c2 == c {
            let nc = self.name(c);
            m = self.pmul(nc, d)?;
        }
        if self.nterms(m) > 20_000 {
            return None;
        }
        let mut r = self.padd(q, m, 1);
        if let Some((lo, hi, den)) = two {
            if self.nterms(r) > self.two_name && self.support(r).len() > self.two_sup {
                // r = lo + (hi-lo)*b
                let l = self.kdy(lo, den);
                let x = self.padd(r, l, -1);
                let g = hi - lo;
                let tz = g.trailing_zeros();
                if g >> tz == 1 {
                    // b = x * 2^den / 2^tz
                    let b = if tz >= den { self.pscale(x, 1, tz - den) } else { self.pscale(x, 1 << (den - tz), 0) };
                    let nb = self.name(b);
                    let y = if tz >= den { self.pscale(nb, 1 << (tz - den), 0) } else { self.pscale(nb, 1, den - tz) };
                    r = self.padd(y, l, 1);
                }
            }
            if self.nterms(r) > 2 {
                self.set_two(r, lo, hi, den);
            }
        } else if (w == 8 || w == 64) && self.nterms(r) > 12 && self.pconst(d).is_none() {
            // discriminants and pointers: better as a chain of choices
            if self.support(r).len() > 8 && (w == 8 || self.range(p).0.abs() > 1 << 32) {
                return None;
            }
        }
        let (rp, rq) = (self.range(p), self.range(q));
        let (dp, dq, dr) = (self.polys[p as usize].den, self.polys[q as usize].den, self.polys[r as usize].den);
        // bring to a common denominator
        let den = dp.max(dq).max(dr);
        let lo = (rp.0 << (den - dp)).min(rq.0 << (den - dq));
        let hi = (rp.1 << (den - dp)).max(rq.1 << (den - dq));
        let s = den - dr;
        self.add_hint(r, lo >> s, (hi + (1i128 << s) - 1) >> s);
        Some(r)
    }

    // ------------------------------------------------------------ floats
    pub fn fbin(&mut self, op: FOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(if w == 32 {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                (match op {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Rem => x % y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                (match op {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Rem => x % y,
                })
                .to_bits() as u128
            });
        }
        if let (Some(p), Some(q)) = (self.as_flt(w, a), self.as_flt(w, b)) {
            match op {
                FOp::Add => {
                    let r = self.padd(p, q, 1);
                    return self.from_flt(w, r);
                }
                FOp::Sub => {
                    let r = self.padd(p, q, -1);
                    return self.from_flt(w, r);
                }
                FOp::Mul => {
                    if let Some(r) = self.pmul(p, q) {
                        return self.from_flt(w, r);
                    }
                }
                FOp::Div => {
                    if let Some((c, d)) = self.pconst(q) {
                        if c != 0 && c.abs().count_ones() == 1 {
                            // p / (c/2^d) = p * sign * 2^d / |c|
                            let k = c.abs().trailing_zeros();
                            let r = self.pscale(p, if c < 0 { -(1i128 << d) } else { 1i128 << d }, k);
                            return self.from_flt(w, r);
                        }
                    }
                }
                FOp::Rem => {}
            }
        }
        let f = |x: &[u128]| -> u128 {
            if w == 32 {
                let (x, y) = (f32::from_bits(x[0] as u32), f32::from_bits(x[1] as u32));
                (match op {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Rem => x % y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(x[0] as u64), f64::from_bits(x[1] as u64));
                (match op {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Rem => x % y,
                })
                .to_bits() as u128
            }
        };
        match self.table_op(&[(w, a.clone()), (w, b.clone())], f, w, true) {
            Some(v) => v,
            None => unsup(format!("float operation {:?} outside the exact fragment", op)),
        }
    }
    pub fn fcmp(&mut self, pred: &str, w: u32, a: &Val, b: &Val) -> P {
        let f = |x: f64, y: f64| -> bool {
            let un = x.is_nan() || y.is_nan();
            match pred {
                "oeq" => x == y,
                "one" => !un && x != y,
                "olt" => x < y,
                "ole" => x <= y,
                "ogt" => x > y,
                "oge" => x >= y,
                "ord" => !un,
                "uno" => un,
                "ueq" => un || x == y,
                "une" => un || x != y,
                "ult" => un || x < y,
                "ule" => un || x <= y,
                "ugt" => un || x > y,
                "uge" => un || x >= y,
                "true" => true,
                _ => false,
            }
        };
        let dec = |x: u128| -> f64 {
            if w == 32 {
                f32::from_bits(x as u32) as f64
            } else {
                f64::from_bits(x as u64)
            }
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return if f(dec(*x), dec(*y)) { ONE } else { ZERO };
        }
        if let (Some(p), Some(q)) = (self.as_flt(w, a), self.as_flt(w, b)) {
            let d = self.padd(p, q, -1);
            return match pred {
                "oeq" | "ueq" => self.eq0(d),
                "one" | "une" => {
                    let r = self.eq0(d);
                    self.bnot(r)
                }
                "olt" | "ult" => self.lt0(d),
                "oge" | "uge" => {
                    let r = self.lt0(d);
                    self.bnot(r)
                }
                "ogt" | "ugt" => {
                    let n = self.pneg(d);
                    self.lt0(n)
                }
                "ole" | "ule" => {
                    let n = self.pneg(d);
                    let r = self.lt0(n);
                    self.bnot(r)
                }
                "ord" => ONE,
                "uno" => ZERO,
                "true" => ONE,
                _ => ZERO,
            };
        }
        if let Some(v) = self.table_op(&[(w, a.clone()), (w, b.clone())], |x| f(dec(x[0]), dec(x[1])) as u128, 1, false) {
            return self.as_bool(&v);
        }
        // comparison of a symbolic (finite) float with a concrete infinity / NaN
        unsup("float comparison outside the exact fragment")
    }
    pub fn int_to_flt(&mut self, signed: bool, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::Undef => Val::C(0),
            Val::C(c) => {
                let x = if signed { sext(fw, *c) as f64 } else { mask(fw, *c) as f64 };
                Val::C(if tw == 32 {
                    let y = if signed { sext(fw, *c) as f32 } else { mask(fw, *c) as f32 };
                    y.to_bits() as u128
                } else {
                    x.to_bits() as u128
                })
            }
            _ => {
                let p = self.as_int(fw, a).unwrap_or_else(|| unsup("int to float of an opaque value"));
                let p = if signed { self.sreduce(fw, p) } else { self.ureduce(fw, p) };
                match p {
                    Some(p) => self.from_flt(tw, p),
                    None => unsup("int to float range"),
                }
            }
        }
    }
    pub fn flt_to_int(&mut self, signed: bool, fw: u32, tw: u32, a: &Val) -> Val {
        let f = move |x: u128| -> u128 {
            let d = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            mask(tw, if signed { d as i128 as u128 } else { d as u128 })
        };
        match a {
            Val::Undef => Val::C(0),
            Val::C(c) => Val::C(f(*c)),
            _ => {
                if let Some(p) = self.as_flt(fw, a) {
                    let den = self.polys[p as usize].den;
                    let (k, g) = self.lattice(p);
                    let int_valued = den == 0 || (k % (1i128 << den) == 0 && g % (1i128 << den) == 0);
                    if int_valued {
                        let (lo, hi) = self.irange(p);
                        if signed && tw <= 64 && lo >= -(1i128 << (tw - 1)) && hi < 1i128 << (tw - 1) {
                            return self.from_int(tw, p);
                        }
                        if !signed && lo >= 0 && hi < 1i128 << tw.min(100) {
                            return self.from_int(tw, p);
                        }
                    }
                }
                match self.table_op(&[(fw, a.clone())], |x| f(x[0]), tw, false) {
                    Some(v) => v,
                    None => unsup("float to int outside the exact fragment"),
                }
            }
        }
    }
    pub fn flt_resize(&mut self, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::Undef => Val::C(0),
            Val::C(c) => Val::C(if fw == 32 {
                (f32::from_bits(*c as u32) as f64).to_bits() as u128
            } else {
                (f64::from_bits(*c as u64) as f32).to_bits() as u128
            }),
            _ => match self.as_flt(fw, a) {
                Some(p) => self.from_flt(tw, p),
                None => unsup("float resize"),
            },
        }
    }
    /// restrict a polynomial by known literals
    pub fn restrict(&mut self, p: P, known: &dyn Fn(u32) -> Option<bool>) -> P {
        let q = self.polys[p as usize].clone();
        let mut any = false;
        let sup = self.support(p);
        let mut kn: HashMap<u32, bool> = HashMap::new();
        for v in sup.iter() {
            if let Some(b) = known(*v) {
                any = true;
                kn.insert(*v, b);
            }
        }
        if !any {
            return p;
        }
        let mut acc: HashMap<M, i128> = HashMap::new();
        for (m, c) in q.t.iter() {
            let ms = self.monos[*m as usize].clone();
            let mut s = 1;
            let mut keep = Vec::with_capacity(ms.len());
            for v in ms.iter() {
                match kn.get(v) {
                    Some(true) => s = -s,
                    Some(false) => {}
                    None => keep.push(*v),
                }
            }
            let m2 = if keep.len() == ms.len() { *m } else { self.mono(keep) };
            *acc.entry(m2).or_insert(0) += s * c;
        }
        let mut t: Vec<(M, i128)> = acc.into_iter().filter(|(_, c)| *c != 0).collect();
        t.sort_unstable();
        let r = self.intern(q.den, t);
        if self.nterms(r) > 2 {
            if let Some((l, h)) = self.two.get(&p).copied() {
                let dr = self.polys[r as usize].den;
                if dr == q.den {
                    self.two.insert(r, (l, h));
                }
            }
        }
        r
    }
    /// case split of an integer polynomial, latest variable first
    fn split_cases(&mut self, p: P, memo: &mut HashMap<P, Vec<(P, i128)>>, budget: &mut usize) -> Option<Vec<(P, i128)>> {
        if let Some((k, d)) = self.pconst(p) {
            return Some(vec![(ONE, k >> d)]);
        }
        if let Some(r) = memo.get(&p) {
            return Some(r.clone());
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let v = *self.support(p).last().unwrap();
        let f0 = self.restrict(p, &|x| if x == v { Some(false) } else { None });
        let f1 = self.restrict(p, &|x| if x == v { Some(true) } else { None });
        let c0 = self.split_cases(f0, memo, budget)?;
        let c1 = self.split_cases(f1, memo, budget)?;
        let b = self.bvar(v);
        let nb = self.bnot(b);
        let mut out: Vec<(P, i128)> = vec![];
        for (g0, l) in [(nb, c0), (b, c1)] {
            for (g, k) in l {
                let g = self.band(g0, g);
                let g = if self.nterms(g) > 64 { self.name(g) } else { g };
                if let Some(e) = out.iter_mut().find(|e| e.1 == k) {
                    e.0 = self.bor(e.0, g);
                } else {
                    out.push((g, k));
                }
            }
        }
        memo.insert(p, out.clone());
        Some(out)
    }
    /// If v can take only few values: list of (guard, value); guards are a partition.
    pub fn cases(&mut self, w: u32, v: &Val, known: &dyn Fn(u32) -> Option<bool>) -> Option<Vec<(P, u128)>> {
        match v {
            Val::C(c) => return Some(vec![(ONE, *c)]),
            Val::Undef => return Some(vec![(ONE, 0)]),
            _ => {}
        }
        let mut v = v.clone();
        if let Val::S(i) = v {
            match self.nodes[i as usize].clone() {
                Node::I(_, p) => {
                    let r = self.restrict(p, known);
                    v = self.from_int(w, r);
                    if let Val::C(c) = v {
                        return Some(vec![(ONE, c)]);
                    }
                }
                Node::Op(OpK::Ite(c), _, a) => {
                    let c = self.restrict(c, known);
                    let x = self.cases(w, &a[0], known)?;
                    let y = self.cases(w, &a[1], known)?;
                    let nc = self.bnot(c);
                    let mut out: Vec<(P, u128)> = vec![];
                    for (g0, list) in [(c, x), (nc, y)] {
                        for (g, val) in list {
                            let g = self.band(g0, g);
                            if g == ZERO {
                                continue;
                            }
                            if let Some(e) = out.iter_mut().find(|e| e.1 == val) {
                                e.0 = self.bor(e.0, g);
                            } else {
                                out.push((g, val));
                            }
                        }
                    }
                    return Some(out);
                }
                _ => {}
            }
        }
        let mut sup = vec![];
        self.val_support(&v, &mut sup);
        sup.sort_unstable();
        sup.dedup();
        if sup.len() > 10 {
            if let Val::S(i) = v {
                if let Node::I(_, p) = self.nodes[i as usize].clone() {
                    let mut budget = 3000;
                    if let Some(l) = self.split_cases(p, &mut HashMap::new(), &mut budget) {
                        let mut out: Vec<(P, u128)> = vec![];
                        for (g, k) in l {
                            let k = mask(w, k as u128);
                            if let Some(e) = out.iter_mut().find(|e| e.1 == k) {
                                e.0 = self.bor(e.0, g);
                            } else {
                                out.push((g, k));
                            }
                        }
                        if out.len() <= 4096 {
                            return Some(out);
                        }
                    }
                }
            }
        }
        if sup.len() > 14 {
            return None;
        }
        let t = self.eval_table(w, &v, &sup);
        let mut vals: Vec<u128> = t.clone();
        vals.sort_unstable();
        vals.dedup();
        if vals.len() > 4096 {
            return None;
        }
        let mut out = vec![];
        for x in vals {
            let ind = t.iter().map(|y| (*y == x) as i128).collect();
            let g = self.from_table(&sup, ind, 0);
            out.push((g, x));
        }
        Some(out)
    }
}

fn wht(v: &mut [i128]) {
    let n = v.len();
    let mut h = 1;
    while h < n {
        let mut i = 0;
        while i < n {
            for j in i..i + h {
                let (x, y) = (v[j], v[j + h]);
                v[j] = x + y;
                v[j + h] = x - y;
            }
            i += 2 * h;
        }
        h *= 2;
    }
}

impl Ctx {
    pub fn fneg(&mut self, w: u32, a: &Val) -> Val {
        match a {
            Val::Undef => Val::C(0),
            Val::C(c) => Val::C(c ^ (1u128 << (w - 1))),
            _ => match self.as_flt(w, a) {
                Some(p) => {
                    let r = self.pneg(p);
                    self.from_flt(w, r)
                }
                None => unsup("fneg"),
            },
        }
    }
    pub fn describe_poly(&self, p: P) -> String {
        let q = &self.polys[p as usize];
        let mut s = String::new();
        for (m, c) in q.t.iter().take(12) {
            s.push_str(&format!("{:+}*{:?} ", c, self.monos[*m as usize]));
        }
        if q.t.len() > 12 {
            s.push_str(&format!("... {} terms", q.t.len()));
        }
        format!("({})/2^{}", s, q.den)
    }
    pub fn describe(&self, v: &Val) -> String {
        match v {
            Val::S(i) => match &self.nodes[*i as usize] {
                Node::I(w, p) => format!("i{} {}", w, self.describe_poly(*p)),
                Node::F(w, p) => format!("f{} {}", w, self.describe_poly(*p)),
                Node::Concat(ps) => format!("concat[{}]", ps.iter().map(|p| format!("{}:{}", p.0, self.describe(&p.1))).collect::<Vec<_>>().join(", ")),
                Node::Op(k, w, a) => format!("{:?}:{}({})", k, w, a.iter().map(|x| self.describe(x)).collect::<Vec<_>>().join(", ")),
            },
            v => format!("{:?}", v),
        }
    }
}
