use super::common::*;
use crate::sequences::equivalence::{seq_less_than, will_less_than};

fn lt(a: &[i8], b: &[i8]) -> (bool, bool) {
    // (a < b, a == b), from the definition
    let mut less = false;
    let mut eq = true;
    for i in 0..a.len() {
        less |= eq & (a[i] < b[i]);
        eq &= a[i] == b[i];
    }
    (less, eq)
}
fn single(n: usize) {
    no_feasibility();
    let (a, b) = (pm_vec(n), pm_vec(n));
    let w = lt(&a, &b).0;
    check(seq_less_than(&a, &b) == w, "seq_less_than is not the lexicographic order");
    check(crate::sequences::williamson::seq_less_than(&a, &b) == w, "williamson::seq_less_than is not the lexicographic order");
    reach();
}
fn quad(n: usize) {
    no_feasibility();
    let (p, q) = (sym_quad(n), sym_quad(n));
    let mut less = false;
    let mut eq = true;
    for k in 0..4 {
        let (l, e) = lt(&p[k], &q[k]);
        less |= eq & l;
        eq &= e;
    }
    check(will_less_than(&to_quadseq(&p), &to_quadseq(&q)) == less, "will_less_than is not the lexicographic order on W, X, Y, Z");
    reach();
}
harnesses! {
    vh_c07_single_1 = single(1);
    vh_c07_single_2 = single(2);
    vh_c07_single_9 = single(9);
    vh_c07_single_24 = single(24);
    vh_c07_quad_1 = quad(1);
    vh_c07_quad_2 = quad(2);
    vh_c07_quad_5 = quad(5);
    vh_c07_quad_12 = quad(12);
}
