//! what the harnesses need to see of the symbolic hash collections
use std::collections::{HashMap, HashSet};
/// every listed element with the condition under which it is present
pub fn entries<T: Clone>(s: &HashSet<T>) -> Vec<(bool, T)> {
    s.t.e.iter().map(|e| (e.live, e.k.clone())).collect()
}
pub fn map_entries<K: Clone, V: Clone>(s: &HashMap<K, V>) -> Vec<(bool, K, V)> {
    s.t.e.iter().map(|e| (e.live, e.k.clone(), e.v.clone())).collect()
}
/// exact membership: structurally first, then by comparison with every element
pub fn member<T: Clone + Eq + std::hash::Hash>(s: &HashSet<T>, x: &T) -> bool {
    let c = s.contains(x);
    if qs::known(c) == 1 {
        return true;
    }
    s.exact(x)
}
