use crate::qs::*;
use crate::table::*;
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::Hash;
use ::std::marker::PhantomData;
pub use ::std::collections::hash_map::RandomState;
pub use ::std::collections::hash_map::DefaultHasher;

/// keys are found by comparing with every entry (exact for symbolic keys)
pub struct HashMap<K, V, S = RandomState> {
    pub t: Table<K, V>,
    s: PhantomData<S>,
}
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        HashMap { t: self.t.clone(), s: PhantomData }
    }
}
impl<K: Eq + Hash, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap { t: Table::new(), s: PhantomData }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash, V, S> Default for HashMap<K, V, S> {
    fn default() -> Self {
        HashMap { t: Table::new(), s: PhantomData }
    }
}
impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn find<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let h = shash(q);
        if let Some(i) = self.t.ident(h, q) {
            return Some(i);
        }
        let mut i = 0;
        while i < self.t.e.len() {
            if self.t.e[i].k.borrow() == q {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(::std::mem::replace(&mut self.t.e[i].v, v)),
            None => {
                let h = shash(&k);
                self.t.push(h, true, k, v);
                None
            }
        }
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        match self.find(q) {
            Some(i) => Some(&self.t.e[i].v),
            None => None,
        }
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, q: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.find(q) {
            Some(i) => Some(&mut self.t.e[i].v),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(q).map(|i| (&self.t.e[i].k, &self.t.e[i].v))
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, q: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(q).is_some()
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, q: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        match self.find(q) {
            Some(i) => {
                let e = self.t.e.remove(i);
                let v = ::std::mem::take(&mut self.t.e);
                self.t.rebuild(v);
                Some(e.v)
            }
            None => None,
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.find(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { t: &mut self.t, i, k }),
            None => Entry::Vacant(VacantEntry { t: &mut self.t, k }),
        }
    }
    pub fn len(&self) -> usize {
        self.t.e.len()
    }
    pub fn is_empty(&self) -> bool {
        self.t.e.is_empty()
    }
    pub fn clear(&mut self) {
        self.t = Table::new();
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { t: &self.t, i: 0 }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut { i: self.t.e.iter_mut() }
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.iter().map(|x| x.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.iter().map(|x| x.1)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
        self.t.e.iter_mut().map(|x| &mut x.v)
    }
    pub fn into_values(self) -> ::std::vec::IntoIter<V> {
        self.into_iter().map(|x| x.1).collect::<::std::vec::Vec<V>>().into_iter()
    }
    pub fn into_keys(self) -> ::std::vec::IntoIter<K> {
        self.into_iter().map(|x| x.0).collect::<::std::vec::Vec<K>>().into_iter()
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let e = ::std::mem::take(&mut self.t.e);
        let mut n = ::std::vec::Vec::new();
        for mut x in e {
            if f(&x.k, &mut x.v) {
                n.push(x);
            }
        }
        self.t.rebuild(n);
    }
}
pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    t: &'a mut Table<K, V>,
    i: usize,
    k: K,
}
pub struct VacantEntry<'a, K, V> {
    t: &'a mut Table<K, V>,
    k: K,
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V {
        &self.t.e[self.i].v
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.t.e[self.i].v
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.t.e[self.i].v
    }
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn insert(&mut self, v: V) -> V {
        ::std::mem::replace(&mut self.t.e[self.i].v, v)
    }
}
impl<'a, K: Eq + Hash, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn insert(self, v: V) -> &'a mut V {
        let h = shash(&self.k);
        self.t.push(h, true, self.k, v);
        let n = self.t.e.len() - 1;
        &mut self.t.e[n].v
    }
}
impl<'a, K: Eq + Hash, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(x) => x.insert(v),
        }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(x) => x.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(Default::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut());
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => o.key(),
            Entry::Vacant(x) => x.key(),
        }
    }
}
pub struct Iter<'a, K, V> {
    t: &'a Table<K, V>,
    i: usize,
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<(&'a K, &'a V)> {
        let n = self.t.e.len();
        if self.i >= n {
            return None;
        }
        let j = if order() == 0 { self.i } else { n - 1 - self.i };
        self.i += 1;
        Some((&self.t.e[j].k, &self.t.e[j].v))
    }
}
pub struct IterMut<'a, K, V> {
    i: ::std::slice::IterMut<'a, Ent<K, V>>,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<(&'a K, &'a mut V)> {
        self.i.next().map(|e| (&e.k, &mut e.v))
    }
}
pub struct IntoIter<K, V> {
    i: ::std::vec::IntoIter<Ent<K, V>>,
}
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.i.next().map(|e| (e.k, e.v))
    }
}
impl<'a, K: Eq + Hash, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K: Eq + Hash, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        let mut e = self.t.e;
        if order() != 0 {
            e.reverse();
        }
        IntoIter { i: e.into_iter() }
    }
}
impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m: HashMap<K, V, S> = Default::default();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        for (k, v) in self.iter() {
            match o.get(k) {
                Some(w) => {
                    if v != w {
                        return false;
                    }
                }
                None => return false,
            }
        }
        true
    }
}
impl<K: Eq + Hash, Q: ?Sized + Eq + Hash, V, S> ::std::ops::Index<&Q> for HashMap<K, V, S>
where
    K: Borrow<Q>,
{
    type Output = V;
    fn index(&self, q: &Q) -> &V {
        self.get(q).expect("no entry found for key")
    }
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.t.e.iter().map(|e| (&e.k, &e.v))).finish()
    }
}
