use std::collections::{HashMap, HashSet};
pub fn entries<T: Clone>(s: &HashSet<T>) -> Vec<(bool, T)> {
    s.iter().map(|e| (true, e.clone())).collect()
}
pub fn map_entries<K: Clone, V: Clone>(s: &HashMap<K, V>) -> Vec<(bool, K, V)> {
    s.iter().map(|(k, v)| (true, k.clone(), v.clone())).collect()
}
pub fn member<T: Clone + Eq + std::hash::Hash>(s: &HashSet<T>, x: &T) -> bool {
    s.contains(x)
}
