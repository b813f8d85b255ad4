//! insertion-ordered table with a concrete structural index
use crate::qs::*;
use ::std::borrow::Borrow;
use ::std::hash::Hash;

#[derive(Clone)]
pub struct Ent<K, V> {
    pub hash: u64,
    pub live: bool,
    pub k: K,
    pub v: V,
}
#[derive(Clone)]
pub struct Table<K, V> {
    pub e: ::std::vec::Vec<Ent<K, V>>,
    idx: ::std::vec::Vec<u32>,
    /// true while every entry is known to be live
    pub all_live: bool,
}
pub enum Found {
    /// structurally identical entry
    At(usize),
    /// not present, whatever the inputs
    No,
    /// present for some inputs only
    Maybe(bool),
}
impl<K: Eq + Hash, V> Table<K, V> {
    pub fn new() -> Self {
        Table { e: ::std::vec::Vec::new(), idx: ::std::vec::Vec::new(), all_live: true }
    }
    fn slot(&self, h: u64, k: usize) -> usize {
        ((h >> 7) as usize + k) & (self.idx.len() - 1)
    }
    fn reindex(&mut self, cap: usize) {
        self.idx = ::std::vec![0u32; cap];
        let mut i = 0;
        while i < self.e.len() {
            let h = self.e[i].hash;
            self.index_one(h, i);
            i += 1;
        }
    }
    fn index_one(&mut self, h: u64, i: usize) {
        let mut k = 0;
        loop {
            let s = self.slot(h, k);
            if self.idx[s] == 0 {
                self.idx[s] = i as u32 + 1;
                return;
            }
            k += 1;
        }
    }
    /// index of an entry which is structurally identical to q
    pub fn ident<Q: ?Sized + Eq + Hash>(&self, h: u64, q: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        if self.idx.len() == 0 {
            return None;
        }
        let mut k = 0;
        loop {
            let s = self.slot(h, k);
            let x = self.idx[s];
            if x == 0 {
                return None;
            }
            let e = &self.e[x as usize - 1];
            if e.hash == h && known(e.k.borrow() == q) == 1 {
                return Some(x as usize - 1);
            }
            k += 1;
        }
    }
    /// membership as a (possibly symbolic) truth value
    pub fn has<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        let h = shash(q);
        if let Some(i) = self.ident(h, q) {
            let l = self.e[i].live;
            if known(l) == 1 {
                return true;
            }
        }
        if mode() == 1 {
            return false;
        }
        let mut r = false;
        for e in self.e.iter() {
            r |= e.live & (e.k.borrow() == q);
        }
        r
    }
    pub fn push(&mut self, h: u64, live: bool, k: K, v: V) {
        if known(live) != 1 {
            self.all_live = false;
        }
        self.e.push(Ent { hash: h, live, k, v });
        let n = self.e.len();
        if self.idx.len() < 2 * n {
            let mut c = 16;
            while c < 4 * n {
                c *= 2;
            }
            self.reindex(c);
        } else {
            self.index_one(h, n - 1);
        }
    }
    pub fn len(&self) -> usize {
        if self.all_live {
            return self.e.len();
        }
        let mut n = 0usize;
        for e in self.e.iter() {
            n += e.live as usize;
        }
        n
    }
    pub fn rebuild(&mut self, e: ::std::vec::Vec<Ent<K, V>>) {
        self.e = e;
        let mut c = 16;
        while c < 4 * self.e.len() {
            c *= 2;
        }
        self.reindex(c);
    }
    pub fn kill(&mut self, i: usize) {
        self.e[i].live = false;
        self.all_live = false;
        // structurally identical keys may be inserted again
    }
    pub fn compact(&mut self) {
        if self.all_live {
            return;
        }
        let old = ::std::mem::take(&mut self.e);
        let mut n = ::std::vec::Vec::new();
        let mut all = true;
        for x in old {
            let kn = known(x.live);
            if kn != 0 {
                if kn != 1 {
                    all = false;
                }
                n.push(x);
            }
        }
        self.all_live = all;
        self.rebuild(n);
    }
}
