use crate::qs::*;
use crate::table::*;
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash};
use ::std::marker::PhantomData;

pub struct HashSet<T, S = ::std::collections::hash_map::RandomState> {
    pub t: Table<T, ()>,
    s: PhantomData<S>,
}
impl<T: Clone, S> Clone for HashSet<T, S> {
    fn clone(&self) -> Self {
        HashSet { t: self.t.clone(), s: PhantomData }
    }
}
impl<T: Eq + Hash> HashSet<T> {
    pub fn new() -> Self {
        HashSet { t: Table::new(), s: PhantomData }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<T: Eq + Hash, S> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet { t: Table::new(), s: PhantomData }
    }
}
impl<T: Eq + Hash, S> HashSet<T, S> {
    pub fn with_hasher(_: S) -> Self where S: BuildHasher {
        Default::default()
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn insert(&mut self, x: T) -> bool {
        let h = shash(&x);
        if let Some(i) = self.t.ident(h, &x) {
            if known(self.t.e[i].live) == 1 {
                return false;
            }
            if mode() == 1 {
                self.t.e[i].live = true;
                return true;
            }
            let was = self.t.has(&x);
            self.t.e[i].live |= !was;
            return !was;
        }
        if mode() == 1 {
            self.t.push(h, true, x, ());
            return true;
        }
        let c = self.t.has(&x);
        match known(c) {
            1 => false,
            0 => {
                self.t.push(h, true, x, ());
                true
            }
            _ => {
                self.t.push(h, !c, x, ());
                !c
            }
        }
    }
    pub fn replace(&mut self, x: T) -> Option<T> {
        let r = self.take(&x);
        self.insert(x);
        r
    }
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, x: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.t.has(x)
    }
    /// exact membership whatever the mode (for harnesses)
    pub fn exact<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        let mut r = false;
        for e in self.t.e.iter() {
            r |= e.live & (e.k.borrow() == q);
        }
        r
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, x: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        for e in self.t.e.iter() {
            if e.live && e.k.borrow() == x {
                return Some(&e.k);
            }
        }
        None
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, x: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        let h = shash(x);
        if let Some(i) = self.t.ident(h, x) {
            if known(self.t.e[i].live) == 1 {
                if mode() == 1 || self.t.all_live {
                    self.t.e.remove(i);
                    let e = ::std::mem::take(&mut self.t.e);
                    self.t.rebuild(e);
                    return true;
                }
            }
        }
        let mut r = false;
        for e in self.t.e.iter_mut() {
            let m = e.live & (e.k.borrow() == x);
            r |= m;
            e.live &= !m;
        }
        if known(r) != 0 {
            self.t.all_live = false;
            self.t.compact();
        }
        r
    }
    pub fn take<Q: ?Sized + Eq + Hash>(&mut self, x: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.t.e.len() {
            if self.t.e[i].live && self.t.e[i].k.borrow() == x {
                let e = self.t.e.remove(i);
                let v = ::std::mem::take(&mut self.t.e);
                self.t.rebuild(v);
                return Some(e.k);
            }
            i += 1;
        }
        None
    }
    pub fn len(&self) -> usize {
        self.t.len()
    }
    pub fn is_empty(&self) -> bool {
        self.t.len() == 0
    }
    pub fn clear(&mut self) {
        self.t = Table::new();
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { t: &self.t, i: 0 }
    }
    pub fn drain(&mut self) -> IntoIter<T> {
        let t = ::std::mem::replace(&mut self.t, Table::new());
        HashSet::<T, S> { t, s: PhantomData }.into_iter()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        for e in self.t.e.iter_mut() {
            let k = f(&e.k);
            e.live &= k;
        }
        self.t.all_live = false;
        self.t.compact();
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        let mut r = true;
        for e in self.t.e.iter() {
            r &= !e.live | o.exact(&e.k);
        }
        r
    }
    pub fn is_superset(&self, o: &Self) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        let mut r = true;
        for e in self.t.e.iter() {
            r &= !e.live | !o.exact(&e.k);
        }
        r
    }
    pub fn union<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> {
        let mut v: ::std::vec::Vec<&'a T> = self.iter().collect();
        for x in o.iter() {
            if !self.contains(x) {
                v.push(x);
            }
        }
        v.into_iter()
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> {
        let mut v: ::std::vec::Vec<&'a T> = ::std::vec::Vec::new();
        for x in self.iter() {
            if !o.contains(x) {
                v.push(x);
            }
        }
        v.into_iter()
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> {
        let mut v: ::std::vec::Vec<&'a T> = ::std::vec::Vec::new();
        for x in self.iter() {
            if o.contains(x) {
                v.push(x);
            }
        }
        v.into_iter()
    }
}
impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.is_subset(o) & o.is_subset(self)
    }
}
impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.t.e.iter().map(|e| &e.k)).finish()
    }
}
pub struct Iter<'a, T> {
    t: &'a Table<T, ()>,
    i: usize,
}
impl<'a, T> Clone for Iter<'a, T> {
    fn clone(&self) -> Self {
        Iter { t: self.t, i: self.i }
    }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let n = self.t.e.len();
        loop {
            if self.i >= n {
                return None;
            }
            let j = if order() == 0 { self.i } else { n - 1 - self.i };
            self.i += 1;
            if self.t.all_live || self.t.e[j].live {
                return Some(&self.t.e[j].k);
            }
        }
    }
}
pub struct IntoIter<T> {
    v: ::std::vec::IntoIter<Ent<T, ()>>,
    all: bool,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        loop {
            let e = self.v.next()?;
            if self.all || e.live {
                return Some(e.k);
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.all {
            self.v.size_hint()
        } else {
            (0, None)
        }
    }
}
impl<'a, T: Eq + Hash, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        let all = self.t.all_live;
        let mut e = self.t.e;
        if order() != 0 {
            e.reverse();
        }
        IntoIter { v: e.into_iter(), all }
    }
}
impl<T: Eq + Hash, S: Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s: HashSet<T, S> = Default::default();
        for x in it {
            s.insert(x);
        }
        s
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.insert(x);
        }
    }
}
impl<'a, T: Eq + Hash + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for x in it {
            self.insert(*x);
        }
    }
}
