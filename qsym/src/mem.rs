//! Copy-on-write memory: a persistent radix tree of objects.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

const BITS: u32 = 4;
const W: usize = 1 << BITS;
const LEVELS: u32 = 7; // 28 bits

enum TN<T> {
    Leaf([Option<T>; W]),
    Inner([Option<Rc<TN<T>>>; W]),
}
impl<T: Clone> Clone for TN<T> {
    fn clone(&self) -> Self {
        match self {
            TN::Leaf(a) => TN::Leaf(a.clone()),
            TN::Inner(a) => TN::Inner(a.clone()),
        }
    }
}
impl<T: Clone> TN<T> {
    fn empty(level: u32) -> Self {
        if level == 0 {
            TN::Leaf(std::array::from_fn(|_| None))
        } else {
            TN::Inner(std::array::from_fn(|_| None))
        }
    }
}

#[derive(Clone)]
pub struct PTree<T> {
    root: Option<Rc<TN<T>>>,
}
impl<T: Clone> PTree<T> {
    pub fn new() -> Self {
        PTree { root: None }
    }
    #[inline]
    pub fn get(&self, k: u32) -> Option<&T> {
        let mut n = self.root.as_ref()?;
        let mut l = LEVELS - 1;
        loop {
            let i = (k >> (l * BITS)) as usize & (W - 1);
            match &**n {
                TN::Leaf(a) => return a[i].as_ref(),
                TN::Inner(a) => n = a[i].as_ref()?,
            }
            l -= 1;
        }
    }
    /// mutable slot, creating the path
    #[inline]
    pub fn slot(&mut self, k: u32) -> &mut Option<T> {
        if k >> (LEVELS * BITS) != 0 {
            panic!("object ids exhausted");
        }
        let mut l = LEVELS - 1;
        let mut n = Rc::make_mut(self.root.get_or_insert_with(|| Rc::new(TN::empty(l))));
        loop {
            let i = (k >> (l * BITS)) as usize & (W - 1);
            match n {
                TN::Leaf(a) => return &mut a[i],
                TN::Inner(a) => {
                    l -= 1;
                    n = Rc::make_mut(a[i].get_or_insert_with(|| Rc::new(TN::empty(l))));
                }
            }
        }
    }
    pub fn set(&mut self, k: u32, v: T) {
        *self.slot(k) = Some(v);
    }
    pub fn del(&mut self, k: u32) {
        *self.slot(k) = None;
    }
    pub fn is_same(&self, o: &Self) -> bool {
        match (&self.root, &o.root) {
            (None, None) => true,
            (Some(a), Some(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
    /// merge with combination for keys which differ (f gets both; keys in one tree only are kept)
    pub fn merge(a: &Self, b: &Self, f: &mut dyn FnMut(&T, &T) -> T) -> Self {
        fn go<T: Clone>(a: &Rc<TN<T>>, b: &Rc<TN<T>>, f: &mut dyn FnMut(&T, &T) -> T) -> Rc<TN<T>> {
            if Rc::ptr_eq(a, b) {
                return a.clone();
            }
            match (&**a, &**b) {
                (TN::Leaf(x), TN::Leaf(y)) => Rc::new(TN::Leaf(std::array::from_fn(|i| match (&x[i], &y[i]) {
                    (None, v) => v.clone(),
                    (u, None) => u.clone(),
                    (Some(u), Some(v)) => Some(f(u, v)),
                }))),
                (TN::Inner(x), TN::Inner(y)) => Rc::new(TN::Inner(std::array::from_fn(|i| match (&x[i], &y[i]) {
                    (None, v) => v.clone(),
                    (u, None) => u.clone(),
                    (Some(u), Some(v)) => Some(go(u, v, f)),
                }))),
                _ => unreachable!(),
            }
        }
        PTree {
            root: match (&a.root, &b.root) {
                (None, r) | (r, None) => r.clone(),
                (Some(x), Some(y)) => Some(go(x, y, f)),
            },
        }
    }
}

// tags of a byte
pub const T_UNINIT: u8 = 0;
pub const T_CONT: u8 = 0x80;
pub const T_SYM: u8 = 0x40;
pub const T_F32: u8 = 0x14;
pub const T_F64: u8 = 0x18;
// 1,2,4,8,16: integer of that size

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub tag: Vec<u8>,
    pub sym: BTreeMap<u32, (u8, u32)>,
    pub heap: bool,
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], tag: vec![0; size as usize], sym: BTreeMap::new(), heap: false }
    }
    fn sym_in(&self, off: u32, n: u32) -> bool {
        if self.sym.is_empty() {
            return false;
        }
        if let Some((s, (l, _))) = self.sym.range(..off).next_back() {
            if s + *l as u32 > off {
                return true;
            }
        }
        self.sym.range(off..off + n).next().is_some()
    }
    fn conc(&self, off: usize, n: usize) -> u128 {
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&self.data[off..off + n]);
        u128::from_le_bytes(b)
    }
    pub fn load(&self, c: &mut Ctx, off: u32, n: u32) -> Val {
        if !self.sym_in(off, n) {
            let (o, k) = (off as usize, n as usize);
            if k > 16 {
                unsup::<()>("wide load");
            }
            if self.tag[o] == T_UNINIT && self.tag[o..o + k].iter().all(|t| *t == T_UNINIT) {
                return Val::Undef;
            }
            return Val::C(self.conc(o, k));
        }
        if let Some((l, v)) = self.sym.get(&off) {
            if *l as u32 == n {
                return Val::S(*v);
            }
        }
        // assemble
        let mut parts = vec![];
        let mut p = off;
        let end = off + n;
        while p < end {
            let cov = self.sym.range(..=p).next_back().filter(|(s, (l, _))| *s + *l as u32 > p).map(|(s, e)| (*s, *e));
            if let Some((s, (l, v))) = cov {
                let e = (s + l as u32).min(end);
                let x = c.extract(l as u32 * 8, &Val::S(v), (p - s) * 8, (e - p) * 8);
                parts.push(((e - p) * 8, x));
                p = e;
            } else {
                let e = self.sym.range(p..end).next().map(|x| *x.0).unwrap_or(end);
                parts.push(((e - p) * 8, Val::C(self.conc(p as usize, (e - p) as usize))));
                p = e;
            }
        }
        c.concat(parts)
    }
    fn clear_sym(&mut self, c: &mut Ctx, off: u32, n: u32) {
        if self.sym.is_empty() {
            return;
        }
        let mut hit: Vec<(u32, (u8, u32))> = vec![];
        if let Some((s, e)) = self.sym.range(..off).next_back() {
            if s + e.0 as u32 > off {
                hit.push((*s, *e));
            }
        }
        for (s, e) in self.sym.range(off..off + n) {
            hit.push((*s, *e));
        }
        for (s, (l, v)) in hit {
            self.sym.remove(&s);
            let e = s + l as u32;
            if s < off {
                let x = c.extract(l as u32 * 8, &Val::S(v), 0, (off - s) * 8);
                self.put(c, s, off - s, &x, 0);
            }
            if e > off + n {
                let x = c.extract(l as u32 * 8, &Val::S(v), (off + n - s) * 8, (e - off - n) * 8);
                self.put(c, off + n, e - off - n, &x, 0);
            }
        }
    }
    /// write into a range known to contain no symbolic entries
    fn put(&mut self, c: &mut Ctx, off: u32, n: u32, v: &Val, tag: u8) {
        let (o, k) = (off as usize, n as usize);
        match v {
            Val::Undef => {
                for t in &mut self.tag[o..o + k] {
                    *t = T_UNINIT;
                }
                for t in &mut self.data[o..o + k] {
                    *t = 0;
                }
            }
            Val::C(x) => {
                let b = x.to_le_bytes();
                self.data[o..o + k].copy_from_slice(&b[..k]);
                self.tag[o] = if tag != 0 { tag } else { n as u8 };
                for t in &mut self.tag[o + 1..o + k] {
                    *t = T_CONT;
                }
            }
            Val::S(i) => {
                if let Node::Concat(ps) = &c.nodes[*i as usize] {
                    if ps.iter().all(|p| p.0 % 8 == 0) {
                        let ps = ps.clone();
                        let mut q = off;
                        for (w, x) in ps {
                            self.put(c, q, w / 8, &x, 0);
                            q += w / 8;
                        }
                        return;
                    }
                }
                self.sym.insert(off, (n as u8, *i));
                self.tag[o] = T_SYM;
                for t in &mut self.tag[o + 1..o + k] {
                    *t = T_CONT;
                }
            }
            Val::Agg(_) => unsup("put aggregate"),
        }
    }
    pub fn store(&mut self, c: &mut Ctx, off: u32, n: u32, v: &Val, tag: u8) {
        self.clear_sym(c, off, n);
        self.put(c, off, n, v, tag);
    }
    fn seglen(&self, off: usize) -> u32 {
        if off >= self.size as usize {
            return 1;
        }
        match self.tag[off] {
            T_UNINIT | T_CONT => 1,
            T_SYM => self.sym.get(&(off as u32)).map(|x| x.0 as u32).unwrap_or(1),
            T_F32 => 4,
            T_F64 => 8,
            n => n as u32,
        }
    }
    fn load_or_undef(&self, c: &mut Ctx, off: u32, n: u32) -> Val {
        if off as u64 >= self.size {
            return Val::Undef;
        }
        if off as u64 + n as u64 > self.size {
            let k = (self.size - off as u64) as u32;
            let v = self.load(c, off, k);
            if v == Val::Undef {
                return v;
            }
            return c.concat(vec![(k * 8, v), ((n - k) * 8, Val::C(0))]);
        }
        self.load(c, off, n)
    }
    pub fn merge(c: &mut Ctx, cond: P, a: &Obj, b: &Obj) -> Obj {
        let size = a.size.max(b.size);
        if a.size == b.size && a.data == b.data && a.sym == b.sym && a.tag == b.tag {
            return a.clone();
        }
        let mut o = Obj::new(size);
        o.heap = a.heap || b.heap;
        let mut off = 0usize;
        let n = size as usize;
        let nosym = a.sym.is_empty() && b.sym.is_empty();
        while off < n {
            if nosym && off + 64 <= a.size.min(b.size) as usize && a.data[off..off + 64] == b.data[off..off + 64] && a.tag[off..off + 64] == b.tag[off..off + 64]
            {
                o.data[off..off + 64].copy_from_slice(&a.data[off..off + 64]);
                o.tag[off..off + 64].copy_from_slice(&a.tag[off..off + 64]);
                off += 64;
                continue;
            }
            let mut l = a.seglen(off).max(b.seglen(off)) as usize;
            if off + l > n {
                l = n - off;
            }
            let va = a.load_or_undef(c, off as u32, l as u32);
            let vb = b.load_or_undef(c, off as u32, l as u32);
                        let ta = if off < a.size as usize { a.tag[off] } else { 0 };
            let tb = if off < b.size as usize { b.tag[off] } else { 0 };
            let tag = if ta == T_F32 || ta == T_F64 {
                ta
            } else if tb == T_F32 || tb == T_F64 {
                tb
            } else {
                0
            };
            let isf = (tag == T_F32 && l == 4) || (tag == T_F64 && l == 8);
            let v = if va == vb {
                va
            } else if isf {
                c.ite_f(cond, l as u32 * 8, &va, &vb)
            } else {
                c.ite(cond, l as u32 * 8, &va, &vb)
            };
            let tag = match (tag, l) {
                (T_F32, 4) | (T_F64, 8) => tag,
                _ => {
                    if ta == 1 && tb <= 1 {
                        1
                    } else {
                        0
                    }
                }
            };
            let tag = if tag == 1 && l != 1 { 0 } else { tag };
            o.store(c, off as u32, l as u32, &v, tag);
            off += l;
        }
        o
    }
    /// copy n bytes between objects, keeping symbolic entries and tags
    pub fn copy(c: &mut Ctx, src: &Obj, so: u32, dst: &mut Obj, d: u32, n: u32) {
        if n == 0 {
            return;
        }
        dst.clear_sym(c, d, n);
        let (s, t, k) = (so as usize, d as usize, n as usize);
        dst.data[t..t + k].copy_from_slice(&src.data[s..s + k]);
        dst.tag[t..t + k].copy_from_slice(&src.tag[s..s + k]);
        if src.sym.is_empty() {
            if dst.tag[t] == T_CONT {
                dst.tag[t] = 1;
            }
            return;
        }
        let end = so + n;
        let mut ents: Vec<(u32, (u8, u32))> = vec![];
        if let Some((x, e)) = src.sym.range(..so).next_back() {
            if x + e.0 as u32 > so {
                ents.push((*x, *e));
            }
        }
        for (x, e) in src.sym.range(so..end) {
            ents.push((*x, *e));
        }
        for (x, (l, v)) in ents {
            let a = x.max(so);
            let b = (x + l as u32).min(end);
            if a == x && b == x + l as u32 {
                dst.sym.insert(x - so + d, (l, v));
            } else {
                let y = c.extract(l as u32 * 8, &Val::S(v), (a - x) * 8, (b - a) * 8);
                dst.put(c, a - so + d, b - a, &y, 0);
            }
        }
    }
}

impl Obj {
    pub fn seg_at(&self, off: u32) -> u32 {
        self.seglen(off as usize)
    }
    /// both 8-byte windows are fully concrete
    pub fn same_wide(&self, o: &Obj, a: u32, b: u32) -> bool {
        a as u64 + 8 <= self.size && b as u64 + 8 <= o.size && !self.sym_in(a, 8) && !o.sym_in(b, 8)
    }
}
