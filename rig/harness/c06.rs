use super::common::*;
use super::group::*;
use crate::find::find_unique::*;
use crate::sequences::equivalence::*;

const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
/// fresh sequences whose first entries are the given signs (a case split)
pub fn quad_first(n: usize, s: usize) -> Q {
    let mut q = sym_quad(n);
    for k in 0..4 {
        q[k][0] = if s >> k & 1 == 1 { -1 } else { 1 };
    }
    q
}
/// all sign patterns of the first entries in [from, to)
fn orbit(n: usize, from: usize, to: usize, even: bool) {
    no_feasibility();
    for s in from..to {
        let q = quad_first(n, s);
        let c = of_quadseq(&canon(&q, even));
        if even {
            check(related(&q, &c, true), "ns_canonical is not in the negate-and-swap orbit of its argument");
        } else {
            check(related(&q, &c, false), "sn_ss_canonical is not in the orbit of its argument");
        }
    }
    reach();
}
fn canon(q: &Q, even: bool) -> QuadSeq {
    if even { ns_canonical(&to_quadseq(q)) } else { sn_ss_canonical(&to_quadseq(q)) }
}
/// invariance under generators of the group, and idempotence
fn inv(n: usize, from: usize, to: usize, even: bool, all: bool) {
    no_feasibility();
    for s in from..to {
        let q = quad_first(n, s);
        let c = canon(&q, even);
        let cq = of_quadseq(&c);
        if even {
            for (i, j) in PAIRS {
                for k in 0..4 {
                    if !all && (i != 0 || k != 0) {
                        continue;
                    }
                    let d = of_quadseq(&canon(&sw(&ng(&q, k), i, j), even));
                    check(same(&cq, &d), "ns_canonical is not invariant under negate-and-swap");
                }
            }
        } else {
            for k in 0..4 {
                if !all && k != 0 {
                    continue;
                }
                let d = of_quadseq(&canon(&ng(&q, k), even));
                check(same(&cq, &d), "sn_ss_canonical is not invariant under negation");
            }
            for (i, j) in PAIRS {
                if !all && i != 0 {
                    continue;
                }
                let d = of_quadseq(&canon(&sw(&q, i, j), even));
                check(same(&cq, &d), "sn_ss_canonical is not invariant under exchanges");
            }
        }
        let d = of_quadseq(&canon(&cq, even));
        check(same(&cq, &d), "a canonical form is not its own canonical form");
    }
    reach();
}
/// the input class of a whole quadruple for the reductions: the first `sym`
/// sequences are free, the others fixed
fn partly(n: usize, sym: usize) -> Q {
    let mut q = sym_quad(n);
    for k in sym..4 {
        for i in 0..n {
            q[k][i] = if (i * i + k * i + k) % 3 == 0 { -1 } else { 1 };
        }
    }
    q
}
/// the canonical representative is the same for equivalent quadruples
fn reps(n: usize, sym: usize, t: SequenceType, from: usize, to: usize) {
    no_feasibility();
    set_mode(1);
    let q = partly(n, sym);
    let a = reduce_to_canonical_reps(&vec![to_quadseq(&q)], t);
    check(a.len() == 1, "reducing one quadruple does not give one representative");
    let a = of_quadseq(&a[0]);
    let g = gens(&q, t);
    for i in from..to {
        if i < g.len() {
            let b = reduce_to_canonical_reps(&vec![to_quadseq(&g[i])], t);
            check(same(&a, &of_quadseq(&b[0])), "equivalent quadruples have different canonical representatives");
        }
    }
    reach();
}
/// the representative belongs to the class of the quadruple
fn member_rep(n: usize, sym: usize, t: SequenceType) {
    no_feasibility();
    set_mode(1);
    let q = partly(n, sym);
    let a = of_quadseq(&reduce_to_canonical_reps(&vec![to_quadseq(&q)], t)[0]);
    let mut ok = false;
    for x in images(&q, t) {
        ok |= related(&x, &a, matches!(t, SequenceType::QuaternionType));
    }
    check(ok, "the canonical representative is not equivalent to its quadruple");
    reach();
}
/// two quadruples are reduced to one exactly when they are equivalent
fn pair(n: usize, sym: usize, t: SequenceType, which: usize) {
    no_feasibility();
    let q = partly(n, sym);
    let r = partly(n, sym);
    let l = vec![to_quadseq(&q), to_quadseq(&r)];
    let mut eq = false;
    for x in images(&q, t) {
        eq |= related(&x, &r, matches!(t, SequenceType::QuaternionType));
    }
    if which == 0 {
        let a = reduce_to_canonical_reps(&l, t);
        check((a.len() == 1) == eq, "canonical representatives: equivalent quadruples kept apart or inequivalent ones merged");
    } else if which == 1 {
        let a = reduce_to_equivalence(&l, t, &t.equivalences());
        check((a.len() == 1) == eq, "reduce_to_equivalence: equivalent quadruples kept apart or inequivalent ones merged");
    } else if which == 2 {
        let a = reduce_to_equivalence_par(&l, t, &t.equivalences());
        check((a.len() == 1) == eq, "reduce_to_equivalence_par: equivalent quadruples kept apart or inequivalent ones merged");
    } else if which == 3 {
        let a = reduce_to_equivalence_set_dif(&l, t, &t.equivalences());
        check((a.len() == 1) == eq, "reduce_to_equivalence_set_dif: equivalent quadruples kept apart or inequivalent ones merged");
    } else {
        assume(def_valid(&q, t) & def_valid(&r, t));
        check(equiv(&l[0], &l[1], t) == eq, "equiv: wrong verdict");
    }
    reach();
}
/// the generated canonical representative is the least element of the class
fn least(n: usize, sym: usize, t: SequenceType) {
    no_feasibility();
    set_mode(1);
    let q = partly(n, sym);
    let a = of_quadseq(&generate_canonical_representative(&to_quadseq(&q), t));
    for g in gens(&q, t) {
        let b = of_quadseq(&generate_canonical_representative(&to_quadseq(&g), t));
        check(same(&a, &b), "equivalent quadruples have different least elements");
    }
    reach();
}
/// the canonical representative is valid whenever the quadruple is
fn valid_rep(n: usize, sym: usize, t: SequenceType) {
    no_feasibility();
    set_mode(1);
    let mut q = partly(n, sym);
    if matches!(t, SequenceType::Williamson) {
        // valid ones are symmetric
        for k in 0..4 {
            for i in 1..n {
                if i > n - i {
                    q[k][i] = q[k][n - i];
                }
            }
        }
    }
    let v = def_valid(&q, t);
    let a = reduce_to_canonical_reps(&vec![to_quadseq(&q)], t);
    check(!v | def_valid(&of_quadseq(&a[0]), t), "the canonical representative of a valid quadruple is not valid");
    reach();
}
/// the class obtained from the labels of a symmetry group is the set of images
fn labelled(n: usize) {
    no_feasibility();
    set_mode(1);
    let q = sym_quad(n);
    let g = generate_symmetry_group(n, SequenceType::QuaternionType, &vec![equivalent_uniform_shift]);
    let c = generate_equivalence_class_fast(&to_quadseq(&q), &g);
    for x in c.iter() {
        let x = of_quadseq(x);
        let mut any = false;
        for s in 0..n {
            let mut y = q.clone();
            for k in 0..4 {
                for i in 0..n {
                    y[k][i] = q[k][(i + s) % n];
                }
            }
            any |= same(&x, &y);
        }
        check(any, "a quadruple which is no shift of the given one is put in its class");
    }
    reach();
}
fn empty() {
    for t in [SequenceType::QuaternionType, SequenceType::WilliamsonType, SequenceType::Williamson] {
        check(reduce_to_canonical_reps(&vec![], t).is_empty(), "reducing nothing gives something");
        check(reduce_to_equivalence(&vec![], t, &t.equivalences()).is_empty(), "reducing nothing gives something");
        check(reduce_to_equivalence_par(&vec![], t, &t.equivalences()).is_empty(), "reducing nothing gives something");
        check(reduce_to_equivalence_set_dif(&vec![], t, &t.equivalences()).is_empty(), "reducing nothing gives something");
    }
    reach();
}
harnesses! {
    vh_c06_labelled_1 = labelled(1);
    vh_c06_labelled_2 = labelled(2);
    vh_c06_labelled_5 = labelled(5);
    vh_c06_labelled_8 = labelled(8);
    vh_c06_labelled_12 = labelled(12);
    vh_c06_labelled_24 = labelled(24);
    vh_c06_labelled_31 = labelled(31);
    vh_c06_labelled_32 = labelled(32); // tier=finding
    vh_c06_empty = empty();
    vh_c06_ns_1_0 = orbit(1, 0, 16, true);
    vh_c06_snss_1_0 = orbit(1, 0, 16, false);
    vh_c06_ns_2_0 = orbit(2, 0, 4, true);
    vh_c06_ns_2_4 = orbit(2, 4, 8, true);
    vh_c06_ns_2_8 = orbit(2, 8, 12, true);
    vh_c06_ns_2_12 = orbit(2, 12, 16, true);
    vh_c06_snss_2_0 = orbit(2, 0, 4, false);
    vh_c06_snss_2_4 = orbit(2, 4, 8, false);
    vh_c06_snss_2_8 = orbit(2, 8, 12, false);
    vh_c06_snss_2_12 = orbit(2, 12, 16, false);
    vh_c06_ns_3_0 = orbit(3, 0, 4, true); // cost=10
    vh_c06_ns_3_4 = orbit(3, 4, 8, true); // cost=11
    vh_c06_ns_3_8 = orbit(3, 8, 12, true); // cost=11
    vh_c06_ns_3_12 = orbit(3, 12, 16, true); // cost=12
    vh_c06_snss_3_0 = orbit(3, 0, 4, false); // cost=5
    vh_c06_snss_3_4 = orbit(3, 4, 8, false); // cost=7
    vh_c06_snss_3_8 = orbit(3, 8, 12, false); // cost=6
    vh_c06_snss_3_12 = orbit(3, 12, 16, false); // cost=6
    vh_c06_ns_4_0 = orbit(4, 0, 2, true); // cost=5
    vh_c06_ns_4_2 = orbit(4, 2, 4, true); // cost=5
    vh_c06_ns_4_4 = orbit(4, 4, 6, true); // cost=5
    vh_c06_ns_4_6 = orbit(4, 6, 8, true); // cost=5
    vh_c06_ns_4_8 = orbit(4, 8, 10, true); // cost=5
    vh_c06_ns_4_10 = orbit(4, 10, 12, true); // cost=3
    vh_c06_ns_4_12 = orbit(4, 12, 14, true); // cost=4
    vh_c06_ns_4_14 = orbit(4, 14, 16, true); // cost=3
    vh_c06_snss_4_0 = orbit(4, 0, 2, false); // cost=13
    vh_c06_snss_4_2 = orbit(4, 2, 4, false); // cost=14
    vh_c06_snss_4_4 = orbit(4, 4, 6, false); // cost=14
    vh_c06_snss_4_6 = orbit(4, 6, 8, false); // cost=14
    vh_c06_snss_4_8 = orbit(4, 8, 10, false); // cost=16
    vh_c06_snss_4_10 = orbit(4, 10, 12, false); // cost=15
    vh_c06_snss_4_12 = orbit(4, 12, 14, false); // cost=14
    vh_c06_snss_4_14 = orbit(4, 14, 16, false); // cost=15
    vh_c06_ns_5_0 = orbit(5, 0, 2, true); // cost=4
    vh_c06_ns_5_2 = orbit(5, 2, 4, true); // cost=3
    vh_c06_ns_5_4 = orbit(5, 4, 6, true); // cost=4
    vh_c06_ns_5_6 = orbit(5, 6, 8, true); // cost=4
    vh_c06_ns_5_8 = orbit(5, 8, 10, true); // cost=2
    vh_c06_ns_5_10 = orbit(5, 10, 12, true); // cost=3
    vh_c06_ns_5_12 = orbit(5, 12, 14, true); // cost=2
    vh_c06_ns_5_14 = orbit(5, 14, 16, true); // cost=3
    vh_c06_snss_5_0 = orbit(5, 0, 2, false); // cost=2
    vh_c06_snss_5_2 = orbit(5, 2, 4, false);
    vh_c06_snss_5_4 = orbit(5, 4, 6, false);
    vh_c06_snss_5_6 = orbit(5, 6, 8, false);
    vh_c06_snss_5_8 = orbit(5, 8, 10, false); // cost=2
    vh_c06_snss_5_10 = orbit(5, 10, 12, false); // cost=2
    vh_c06_snss_5_12 = orbit(5, 12, 14, false);
    vh_c06_snss_5_14 = orbit(5, 14, 16, false); // cost=2
    vh_c06_ns_6_0 = orbit(6, 0, 1, true); // cost=2
    vh_c06_ns_6_1 = orbit(6, 1, 2, true);
    vh_c06_ns_6_2 = orbit(6, 2, 3, true);
    vh_c06_ns_6_3 = orbit(6, 3, 4, true);
    vh_c06_ns_6_4 = orbit(6, 4, 5, true); // cost=2
    vh_c06_ns_6_5 = orbit(6, 5, 6, true);
    vh_c06_ns_6_6 = orbit(6, 6, 7, true);
    vh_c06_ns_6_7 = orbit(6, 7, 8, true);
    vh_c06_ns_6_8 = orbit(6, 8, 9, true); // cost=2
    vh_c06_ns_6_9 = orbit(6, 9, 10, true);
    vh_c06_ns_6_10 = orbit(6, 10, 11, true);
    vh_c06_ns_6_11 = orbit(6, 11, 12, true);
    vh_c06_ns_6_12 = orbit(6, 12, 13, true);
    vh_c06_ns_6_13 = orbit(6, 13, 14, true); // cost=2
    vh_c06_ns_6_14 = orbit(6, 14, 15, true);
    vh_c06_ns_6_15 = orbit(6, 15, 16, true);
    vh_c06_snss_6_0 = orbit(6, 0, 1, false);
    vh_c06_snss_6_1 = orbit(6, 1, 2, false);
    vh_c06_snss_6_2 = orbit(6, 2, 3, false);
    vh_c06_snss_6_3 = orbit(6, 3, 4, false);
    vh_c06_snss_6_4 = orbit(6, 4, 5, false);
    vh_c06_snss_6_5 = orbit(6, 5, 6, false);
    vh_c06_snss_6_6 = orbit(6, 6, 7, false);
    vh_c06_snss_6_7 = orbit(6, 7, 8, false);
    vh_c06_snss_6_8 = orbit(6, 8, 9, false);
    vh_c06_snss_6_9 = orbit(6, 9, 10, false);
    vh_c06_snss_6_10 = orbit(6, 10, 11, false);
    vh_c06_snss_6_11 = orbit(6, 11, 12, false);
    vh_c06_snss_6_12 = orbit(6, 12, 13, false);
    vh_c06_snss_6_13 = orbit(6, 13, 14, false);
    vh_c06_snss_6_14 = orbit(6, 14, 15, false);
    vh_c06_snss_6_15 = orbit(6, 15, 16, false);
    vh_c06_ns_8_0 = orbit(8, 0, 1, true);
    vh_c06_ns_8_1 = orbit(8, 1, 2, true); // cost=2
    vh_c06_ns_8_2 = orbit(8, 2, 3, true);
    vh_c06_ns_8_3 = orbit(8, 3, 4, true); // cost=2
    vh_c06_ns_8_4 = orbit(8, 4, 5, true); // cost=2
    vh_c06_ns_8_5 = orbit(8, 5, 6, true); // cost=2
    vh_c06_ns_8_6 = orbit(8, 6, 7, true); // cost=2
    vh_c06_ns_8_7 = orbit(8, 7, 8, true);
    vh_c06_ns_8_8 = orbit(8, 8, 9, true);
    vh_c06_ns_8_9 = orbit(8, 9, 10, true); // cost=3
    vh_c06_ns_8_10 = orbit(8, 10, 11, true);
    vh_c06_ns_8_11 = orbit(8, 11, 12, true);
    vh_c06_ns_8_12 = orbit(8, 12, 13, true); // cost=2
    vh_c06_ns_8_13 = orbit(8, 13, 14, true); // cost=2
    vh_c06_ns_8_14 = orbit(8, 14, 15, true);
    vh_c06_ns_8_15 = orbit(8, 15, 16, true); // cost=2
    vh_c06_snss_8_0 = orbit(8, 0, 1, false);
    vh_c06_snss_8_1 = orbit(8, 1, 2, false);
    vh_c06_snss_8_2 = orbit(8, 2, 3, false);
    vh_c06_snss_8_3 = orbit(8, 3, 4, false);
    vh_c06_snss_8_4 = orbit(8, 4, 5, false);
    vh_c06_snss_8_5 = orbit(8, 5, 6, false);
    vh_c06_snss_8_6 = orbit(8, 6, 7, false);
    vh_c06_snss_8_7 = orbit(8, 7, 8, false);
    vh_c06_snss_8_8 = orbit(8, 8, 9, false);
    vh_c06_snss_8_9 = orbit(8, 9, 10, false);
    vh_c06_snss_8_10 = orbit(8, 10, 11, false);
    vh_c06_snss_8_11 = orbit(8, 11, 12, false);
    vh_c06_snss_8_12 = orbit(8, 12, 13, false);
    vh_c06_snss_8_13 = orbit(8, 13, 14, false);
    vh_c06_snss_8_14 = orbit(8, 14, 15, false);
    vh_c06_snss_8_15 = orbit(8, 15, 16, false);
    vh_c06_nsinv_1_0 = inv(1, 0, 16, true, true);
    vh_c06_snssinv_1_0 = inv(1, 0, 16, false, true);
    vh_c06_nsinv_2_0 = inv(2, 0, 2, true, false);
    vh_c06_nsinv_2_2 = inv(2, 2, 4, true, false);
    vh_c06_nsinv_2_4 = inv(2, 4, 6, true, false);
    vh_c06_nsinv_2_6 = inv(2, 6, 8, true, false);
    vh_c06_nsinv_2_8 = inv(2, 8, 10, true, false);
    vh_c06_nsinv_2_10 = inv(2, 10, 12, true, false);
    vh_c06_nsinv_2_12 = inv(2, 12, 14, true, false);
    vh_c06_nsinv_2_14 = inv(2, 14, 16, true, false);
    vh_c06_snssinv_2_0 = inv(2, 0, 2, false, false);
    vh_c06_snssinv_2_2 = inv(2, 2, 4, false, false);
    vh_c06_snssinv_2_4 = inv(2, 4, 6, false, false);
    vh_c06_snssinv_2_6 = inv(2, 6, 8, false, false);
    vh_c06_snssinv_2_8 = inv(2, 8, 10, false, false);
    vh_c06_snssinv_2_10 = inv(2, 10, 12, false, false);
    vh_c06_snssinv_2_12 = inv(2, 12, 14, false, false);
    vh_c06_snssinv_2_14 = inv(2, 14, 16, false, false);
    vh_c06_nsinv_3_0 = inv(3, 0, 1, true, false); // cost=3
    vh_c06_nsinv_3_1 = inv(3, 1, 2, true, false); // cost=4
    vh_c06_nsinv_3_2 = inv(3, 2, 3, true, false); // cost=5
    vh_c06_nsinv_3_3 = inv(3, 3, 4, true, false); // cost=5
    vh_c06_nsinv_3_4 = inv(3, 4, 5, true, false); // cost=5
    vh_c06_nsinv_3_5 = inv(3, 5, 6, true, false); // cost=5
    vh_c06_nsinv_3_6 = inv(3, 6, 7, true, false); // cost=5
    vh_c06_nsinv_3_7 = inv(3, 7, 8, true, false); // cost=4
    vh_c06_nsinv_3_8 = inv(3, 8, 9, true, false); // cost=3
    vh_c06_nsinv_3_9 = inv(3, 9, 10, true, false); // cost=4
    vh_c06_nsinv_3_10 = inv(3, 10, 11, true, false); // cost=5
    vh_c06_nsinv_3_11 = inv(3, 11, 12, true, false); // cost=3
    vh_c06_nsinv_3_12 = inv(3, 12, 13, true, false); // cost=4
    vh_c06_nsinv_3_13 = inv(3, 13, 14, true, false); // cost=3
    vh_c06_nsinv_3_14 = inv(3, 14, 15, true, false); // cost=5
    vh_c06_nsinv_3_15 = inv(3, 15, 16, true, false); // cost=5
    vh_c06_snssinv_3_0 = inv(3, 0, 1, false, false);
    vh_c06_snssinv_3_1 = inv(3, 1, 2, false, false); // cost=3
    vh_c06_snssinv_3_2 = inv(3, 2, 3, false, false);
    vh_c06_snssinv_3_3 = inv(3, 3, 4, false, false);
    vh_c06_snssinv_3_4 = inv(3, 4, 5, false, false); // cost=3
    vh_c06_snssinv_3_5 = inv(3, 5, 6, false, false); // cost=2
    vh_c06_snssinv_3_6 = inv(3, 6, 7, false, false);
    vh_c06_snssinv_3_7 = inv(3, 7, 8, false, false); // cost=2
    vh_c06_snssinv_3_8 = inv(3, 8, 9, false, false);
    vh_c06_snssinv_3_9 = inv(3, 9, 10, false, false);
    vh_c06_snssinv_3_10 = inv(3, 10, 11, false, false); // cost=2
    vh_c06_snssinv_3_11 = inv(3, 11, 12, false, false); // cost=2
    vh_c06_snssinv_3_12 = inv(3, 12, 13, false, false); // cost=2
    vh_c06_snssinv_3_13 = inv(3, 13, 14, false, false); // cost=2
    vh_c06_snssinv_3_14 = inv(3, 14, 15, false, false); // cost=2
    vh_c06_snssinv_3_15 = inv(3, 15, 16, false, false);
    vh_c06_nsinv_4_0 = inv(4, 0, 1, true, false); // cost=8
    vh_c06_nsinv_4_1 = inv(4, 1, 2, true, false); // cost=9
    vh_c06_nsinv_4_2 = inv(4, 2, 3, true, false); // cost=8
    vh_c06_nsinv_4_3 = inv(4, 3, 4, true, false); // cost=8
    vh_c06_nsinv_4_4 = inv(4, 4, 5, true, false); // cost=7
    vh_c06_nsinv_4_5 = inv(4, 5, 6, true, false); // cost=8
    vh_c06_nsinv_4_6 = inv(4, 6, 7, true, false); // cost=8
    vh_c06_nsinv_4_7 = inv(4, 7, 8, true, false); // cost=9
    vh_c06_nsinv_4_8 = inv(4, 8, 9, true, false); // cost=10
    vh_c06_nsinv_4_9 = inv(4, 9, 10, true, false); // cost=11
    vh_c06_nsinv_4_10 = inv(4, 10, 11, true, false); // cost=9
    vh_c06_nsinv_4_11 = inv(4, 11, 12, true, false); // cost=9
    vh_c06_nsinv_4_12 = inv(4, 12, 13, true, false); // cost=8
    vh_c06_nsinv_4_13 = inv(4, 13, 14, true, false); // cost=8
    vh_c06_nsinv_4_14 = inv(4, 14, 15, true, false); // cost=10
    vh_c06_nsinv_4_15 = inv(4, 15, 16, true, false); // cost=9
    vh_c06_snssinv_4_0 = inv(4, 0, 1, false, false); // cost=3
    vh_c06_snssinv_4_1 = inv(4, 1, 2, false, false); // cost=4
    vh_c06_snssinv_4_2 = inv(4, 2, 3, false, false); // cost=5
    vh_c06_snssinv_4_3 = inv(4, 3, 4, false, false); // cost=4
    vh_c06_snssinv_4_4 = inv(4, 4, 5, false, false); // cost=5
    vh_c06_snssinv_4_5 = inv(4, 5, 6, false, false); // cost=4
    vh_c06_snssinv_4_6 = inv(4, 6, 7, false, false); // cost=5
    vh_c06_snssinv_4_7 = inv(4, 7, 8, false, false); // cost=5
    vh_c06_snssinv_4_8 = inv(4, 8, 9, false, false); // cost=6
    vh_c06_snssinv_4_9 = inv(4, 9, 10, false, false); // cost=7
    vh_c06_snssinv_4_10 = inv(4, 10, 11, false, false); // cost=7
    vh_c06_snssinv_4_11 = inv(4, 11, 12, false, false); // cost=6
    vh_c06_snssinv_4_12 = inv(4, 12, 13, false, false); // cost=6
    vh_c06_snssinv_4_13 = inv(4, 13, 14, false, false); // cost=7
    vh_c06_snssinv_4_14 = inv(4, 14, 15, false, false); // cost=7
    vh_c06_snssinv_4_15 = inv(4, 15, 16, false, false); // cost=8
    vh_c06_nsinv_5_0 = inv(5, 0, 1, true, false); // cost=16 tier=thorough
    vh_c06_nsinv_5_1 = inv(5, 1, 2, true, false); // tier=thorough cost=21
    vh_c06_nsinv_5_2 = inv(5, 2, 3, true, false); // tier=thorough cost=22
    vh_c06_nsinv_5_3 = inv(5, 3, 4, true, false); // cost=16 tier=thorough
    vh_c06_nsinv_5_4 = inv(5, 4, 5, true, false); // cost=18 tier=thorough
    vh_c06_nsinv_5_5 = inv(5, 5, 6, true, false); // tier=thorough cost=21
    vh_c06_nsinv_5_6 = inv(5, 6, 7, true, false); // cost=20 tier=thorough
    vh_c06_nsinv_5_7 = inv(5, 7, 8, true, false); // tier=thorough cost=23
    vh_c06_nsinv_5_8 = inv(5, 8, 9, true, false); // tier=thorough cost=23
    vh_c06_nsinv_5_9 = inv(5, 9, 10, true, false); // tier=thorough cost=25
    vh_c06_nsinv_5_10 = inv(5, 10, 11, true, false); // tier=thorough cost=21
    vh_c06_nsinv_5_11 = inv(5, 11, 12, true, false); // tier=thorough cost=21
    vh_c06_nsinv_5_12 = inv(5, 12, 13, true, false); // tier=thorough cost=20
    vh_c06_nsinv_5_13 = inv(5, 13, 14, true, false); // cost=20 tier=thorough
    vh_c06_nsinv_5_14 = inv(5, 14, 15, true, false); // cost=19 tier=thorough
    vh_c06_nsinv_5_15 = inv(5, 15, 16, true, false); // tier=thorough cost=20
    vh_c06_snssinv_5_0 = inv(5, 0, 1, false, false); // tier=thorough cost=22
    vh_c06_snssinv_5_1 = inv(5, 1, 2, false, false); // tier=thorough cost=23
    vh_c06_snssinv_5_2 = inv(5, 2, 3, false, false); // cost=18 tier=thorough
    vh_c06_snssinv_5_3 = inv(5, 3, 4, false, false); // tier=thorough cost=20
    vh_c06_snssinv_5_4 = inv(5, 4, 5, false, false); // cost=17 tier=thorough
    vh_c06_snssinv_5_5 = inv(5, 5, 6, false, false); // cost=20 tier=thorough
    vh_c06_snssinv_5_6 = inv(5, 6, 7, false, false); // cost=19 tier=thorough
    vh_c06_snssinv_5_7 = inv(5, 7, 8, false, false); // tier=thorough cost=20
    vh_c06_snssinv_5_8 = inv(5, 8, 9, false, false); // cost=15 tier=thorough
    vh_c06_snssinv_5_9 = inv(5, 9, 10, false, false); // cost=15 tier=thorough
    vh_c06_snssinv_5_10 = inv(5, 10, 11, false, false); // cost=13 tier=thorough
    vh_c06_snssinv_5_11 = inv(5, 11, 12, false, false); // cost=13 tier=thorough
    vh_c06_snssinv_5_12 = inv(5, 12, 13, false, false); // cost=13 tier=thorough
    vh_c06_snssinv_5_13 = inv(5, 13, 14, false, false); // cost=14 tier=thorough
    vh_c06_snssinv_5_14 = inv(5, 14, 15, false, false); // cost=12 tier=thorough
    vh_c06_snssinv_5_15 = inv(5, 15, 16, false, false); // cost=11 tier=thorough
    vh_c06_reps_qts_1_4 = reps(1, 4, SequenceType::QuaternionType, 0, 99);
    vh_c06_memberrep_qts_1_4 = member_rep(1, 4, SequenceType::QuaternionType);
    vh_c06_reps_qts_2_2_0 = reps(2, 2, SequenceType::QuaternionType, 0, 1); // cost=4
    vh_c06_reps_qts_2_2_1 = reps(2, 2, SequenceType::QuaternionType, 1, 2); // cost=4
    vh_c06_reps_qts_2_2_2 = reps(2, 2, SequenceType::QuaternionType, 2, 3); // cost=7
    vh_c06_reps_qts_2_2_3 = reps(2, 2, SequenceType::QuaternionType, 3, 4); // cost=4
    vh_c06_reps_qts_2_2_4 = reps(2, 2, SequenceType::QuaternionType, 4, 5); // cost=5
    vh_c06_reps_qts_2_2_5 = reps(2, 2, SequenceType::QuaternionType, 5, 6); // cost=4
    vh_c06_reps_qts_2_2_6 = reps(2, 2, SequenceType::QuaternionType, 6, 7); // cost=4
    vh_c06_reps_qts_2_2_7 = reps(2, 2, SequenceType::QuaternionType, 7, 8); // cost=3
    vh_c06_reps_qts_2_2_8 = reps(2, 2, SequenceType::QuaternionType, 8, 99);
    vh_c06_memberrep_qts_2_2 = member_rep(2, 2, SequenceType::QuaternionType);
    vh_c06_reps_qts_3_1 = reps(3, 1, SequenceType::QuaternionType, 0, 99);
    vh_c06_memberrep_qts_3_1 = member_rep(3, 1, SequenceType::QuaternionType);
    vh_c06_reps_qts_3_3 = reps(3, 3, SequenceType::QuaternionType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_qts_3_3 = member_rep(3, 3, SequenceType::QuaternionType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_4_1_0 = reps(4, 1, SequenceType::QuaternionType, 0, 1); // cost=5
    vh_c06_reps_qts_4_1_1 = reps(4, 1, SequenceType::QuaternionType, 1, 2); // cost=5
    vh_c06_reps_qts_4_1_2 = reps(4, 1, SequenceType::QuaternionType, 2, 3); // cost=6
    vh_c06_reps_qts_4_1_3 = reps(4, 1, SequenceType::QuaternionType, 3, 4); // cost=6
    vh_c06_reps_qts_4_1_4 = reps(4, 1, SequenceType::QuaternionType, 4, 5); // cost=5
    vh_c06_reps_qts_4_1_5 = reps(4, 1, SequenceType::QuaternionType, 5, 6); // cost=6
    vh_c06_reps_qts_4_1_6 = reps(4, 1, SequenceType::QuaternionType, 6, 7); // cost=5
    vh_c06_reps_qts_4_1_7 = reps(4, 1, SequenceType::QuaternionType, 7, 8); // cost=5
    vh_c06_reps_qts_4_1_8 = reps(4, 1, SequenceType::QuaternionType, 8, 99); // cost=5
    vh_c06_memberrep_qts_4_1 = member_rep(4, 1, SequenceType::QuaternionType); // cost=5
    vh_c06_reps_qts_5_1 = reps(5, 1, SequenceType::QuaternionType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_qts_5_1 = member_rep(5, 1, SequenceType::QuaternionType); // cost=11
    vh_c06_reps_qts_5_2 = reps(5, 2, SequenceType::QuaternionType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_qts_5_2 = member_rep(5, 2, SequenceType::QuaternionType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_0 = reps(6, 1, SequenceType::QuaternionType, 0, 1); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_1 = reps(6, 1, SequenceType::QuaternionType, 1, 2); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_2 = reps(6, 1, SequenceType::QuaternionType, 2, 3); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_3 = reps(6, 1, SequenceType::QuaternionType, 3, 4); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_4 = reps(6, 1, SequenceType::QuaternionType, 4, 5); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_5 = reps(6, 1, SequenceType::QuaternionType, 5, 6); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_6 = reps(6, 1, SequenceType::QuaternionType, 6, 7); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_7 = reps(6, 1, SequenceType::QuaternionType, 7, 8); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_6_1_8 = reps(6, 1, SequenceType::QuaternionType, 8, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_qts_6_1 = member_rep(6, 1, SequenceType::QuaternionType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_qts_7_1 = reps(7, 1, SequenceType::QuaternionType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_qts_7_1 = member_rep(7, 1, SequenceType::QuaternionType); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_qts_1_4 = valid_rep(1, 4, SequenceType::QuaternionType);
    vh_c06_validrep_qts_2_2 = valid_rep(2, 2, SequenceType::QuaternionType);
    vh_c06_validrep_qts_2_4 = valid_rep(2, 4, SequenceType::QuaternionType); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_qts_3_3 = valid_rep(3, 3, SequenceType::QuaternionType); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_1_4_0 = pair(1, 4, SequenceType::QuaternionType, 0);
    vh_c06_pair_qts_1_4_1 = pair(1, 4, SequenceType::QuaternionType, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_1_4_2 = pair(1, 4, SequenceType::QuaternionType, 2); // cost=5
    vh_c06_pair_qts_1_4_3 = pair(1, 4, SequenceType::QuaternionType, 3); // cost=7
    vh_c06_pair_qts_1_4_4 = pair(1, 4, SequenceType::QuaternionType, 4);
    vh_c06_pair_qts_2_1_0 = pair(2, 1, SequenceType::QuaternionType, 0);
    vh_c06_pair_qts_2_1_1 = pair(2, 1, SequenceType::QuaternionType, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_2_1_2 = pair(2, 1, SequenceType::QuaternionType, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_2_1_3 = pair(2, 1, SequenceType::QuaternionType, 3); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_2_1_4 = pair(2, 1, SequenceType::QuaternionType, 4);
    vh_c06_pair_qts_2_2_0 = pair(2, 2, SequenceType::QuaternionType, 0); // cost=7
    vh_c06_pair_qts_2_2_1 = pair(2, 2, SequenceType::QuaternionType, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_2_2_2 = pair(2, 2, SequenceType::QuaternionType, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_2_2_3 = pair(2, 2, SequenceType::QuaternionType, 3); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_2_2_4 = pair(2, 2, SequenceType::QuaternionType, 4); // cost=14
    vh_c06_pair_qts_3_1_0 = pair(3, 1, SequenceType::QuaternionType, 0);
    vh_c06_pair_qts_3_1_1 = pair(3, 1, SequenceType::QuaternionType, 1); // tier=thorough cost=115
    vh_c06_pair_qts_3_1_2 = pair(3, 1, SequenceType::QuaternionType, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_qts_3_1_3 = pair(3, 1, SequenceType::QuaternionType, 3); // tier=thorough cost=115
    vh_c06_least_qts_1_4 = least(1, 4, SequenceType::QuaternionType); // tier=thorough cost=30
    vh_c06_least_qts_1_2 = least(1, 2, SequenceType::QuaternionType); // tier=thorough cost=23
    vh_c06_least_qts_2_1 = least(2, 1, SequenceType::QuaternionType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_1_4 = reps(1, 4, SequenceType::WilliamsonType, 0, 99);
    vh_c06_memberrep_wts_1_4 = member_rep(1, 4, SequenceType::WilliamsonType);
    vh_c06_reps_wts_2_2_0 = reps(2, 2, SequenceType::WilliamsonType, 0, 1); // cost=12
    vh_c06_reps_wts_2_2_1 = reps(2, 2, SequenceType::WilliamsonType, 1, 2); // cost=10
    vh_c06_reps_wts_2_2_2 = reps(2, 2, SequenceType::WilliamsonType, 2, 3); // cost=7
    vh_c06_reps_wts_2_2_3 = reps(2, 2, SequenceType::WilliamsonType, 3, 4); // cost=10
    vh_c06_reps_wts_2_2_4 = reps(2, 2, SequenceType::WilliamsonType, 4, 5); // cost=11
    vh_c06_reps_wts_2_2_5 = reps(2, 2, SequenceType::WilliamsonType, 5, 6); // cost=13
    vh_c06_reps_wts_2_2_6 = reps(2, 2, SequenceType::WilliamsonType, 6, 7); // cost=8
    vh_c06_reps_wts_2_2_7 = reps(2, 2, SequenceType::WilliamsonType, 7, 8); // cost=8
    vh_c06_reps_wts_2_2_8 = reps(2, 2, SequenceType::WilliamsonType, 8, 99); // cost=4
    vh_c06_memberrep_wts_2_2 = member_rep(2, 2, SequenceType::WilliamsonType); // cost=3
    vh_c06_reps_wts_3_1 = reps(3, 1, SequenceType::WilliamsonType, 0, 99);
    vh_c06_memberrep_wts_3_1 = member_rep(3, 1, SequenceType::WilliamsonType);
    vh_c06_reps_wts_3_3 = reps(3, 3, SequenceType::WilliamsonType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_wts_3_3 = member_rep(3, 3, SequenceType::WilliamsonType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_4_1_0 = reps(4, 1, SequenceType::WilliamsonType, 0, 1); // cost=6
    vh_c06_reps_wts_4_1_1 = reps(4, 1, SequenceType::WilliamsonType, 1, 2); // cost=6
    vh_c06_reps_wts_4_1_2 = reps(4, 1, SequenceType::WilliamsonType, 2, 3); // cost=8
    vh_c06_reps_wts_4_1_3 = reps(4, 1, SequenceType::WilliamsonType, 3, 4); // cost=6
    vh_c06_reps_wts_4_1_4 = reps(4, 1, SequenceType::WilliamsonType, 4, 5); // cost=6
    vh_c06_reps_wts_4_1_5 = reps(4, 1, SequenceType::WilliamsonType, 5, 6); // cost=8
    vh_c06_reps_wts_4_1_6 = reps(4, 1, SequenceType::WilliamsonType, 6, 7); // cost=8
    vh_c06_reps_wts_4_1_7 = reps(4, 1, SequenceType::WilliamsonType, 7, 8); // cost=6
    vh_c06_reps_wts_4_1_8 = reps(4, 1, SequenceType::WilliamsonType, 8, 99); // cost=6
    vh_c06_memberrep_wts_4_1 = member_rep(4, 1, SequenceType::WilliamsonType); // cost=3
    vh_c06_reps_wts_5_1 = reps(5, 1, SequenceType::WilliamsonType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_wts_5_1 = member_rep(5, 1, SequenceType::WilliamsonType); // cost=7
    vh_c06_reps_wts_5_2 = reps(5, 2, SequenceType::WilliamsonType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_wts_5_2 = member_rep(5, 2, SequenceType::WilliamsonType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_0 = reps(6, 1, SequenceType::WilliamsonType, 0, 1); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_1 = reps(6, 1, SequenceType::WilliamsonType, 1, 2); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_2 = reps(6, 1, SequenceType::WilliamsonType, 2, 3); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_3 = reps(6, 1, SequenceType::WilliamsonType, 3, 4); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_4 = reps(6, 1, SequenceType::WilliamsonType, 4, 5); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_5 = reps(6, 1, SequenceType::WilliamsonType, 5, 6); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_6 = reps(6, 1, SequenceType::WilliamsonType, 6, 7); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_7 = reps(6, 1, SequenceType::WilliamsonType, 7, 8); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_6_1_8 = reps(6, 1, SequenceType::WilliamsonType, 8, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_wts_6_1 = member_rep(6, 1, SequenceType::WilliamsonType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_wts_7_1 = reps(7, 1, SequenceType::WilliamsonType, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_wts_7_1 = member_rep(7, 1, SequenceType::WilliamsonType); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_wts_1_4 = valid_rep(1, 4, SequenceType::WilliamsonType);
    vh_c06_validrep_wts_2_2 = valid_rep(2, 2, SequenceType::WilliamsonType); // cost=3
    vh_c06_validrep_wts_2_4 = valid_rep(2, 4, SequenceType::WilliamsonType); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_wts_3_3 = valid_rep(3, 3, SequenceType::WilliamsonType); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_1_4_0 = pair(1, 4, SequenceType::WilliamsonType, 0);
    vh_c06_pair_wts_1_4_1 = pair(1, 4, SequenceType::WilliamsonType, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_1_4_2 = pair(1, 4, SequenceType::WilliamsonType, 2); // cost=11
    vh_c06_pair_wts_1_4_3 = pair(1, 4, SequenceType::WilliamsonType, 3); // cost=12
    vh_c06_pair_wts_1_4_4 = pair(1, 4, SequenceType::WilliamsonType, 4);
    vh_c06_pair_wts_2_1_0 = pair(2, 1, SequenceType::WilliamsonType, 0); // cost=8
    vh_c06_pair_wts_2_1_1 = pair(2, 1, SequenceType::WilliamsonType, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_2_1_2 = pair(2, 1, SequenceType::WilliamsonType, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_2_1_3 = pair(2, 1, SequenceType::WilliamsonType, 3); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_2_1_4 = pair(2, 1, SequenceType::WilliamsonType, 4); // cost=6
    vh_c06_pair_wts_2_2_0 = pair(2, 2, SequenceType::WilliamsonType, 0); // cost=7
    vh_c06_pair_wts_2_2_1 = pair(2, 2, SequenceType::WilliamsonType, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_2_2_2 = pair(2, 2, SequenceType::WilliamsonType, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_2_2_3 = pair(2, 2, SequenceType::WilliamsonType, 3); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_2_2_4 = pair(2, 2, SequenceType::WilliamsonType, 4); // cost=6
    vh_c06_pair_wts_3_1_0 = pair(3, 1, SequenceType::WilliamsonType, 0);
    vh_c06_pair_wts_3_1_1 = pair(3, 1, SequenceType::WilliamsonType, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_3_1_2 = pair(3, 1, SequenceType::WilliamsonType, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_wts_3_1_3 = pair(3, 1, SequenceType::WilliamsonType, 3); // tier=thorough cost=200 timeout=400
    vh_c06_least_wts_1_4 = least(1, 4, SequenceType::WilliamsonType); // tier=thorough cost=26
    vh_c06_least_wts_1_2 = least(1, 2, SequenceType::WilliamsonType); // cost=11
    vh_c06_least_wts_2_1 = least(2, 1, SequenceType::WilliamsonType); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_1_4 = reps(1, 4, SequenceType::Williamson, 0, 99);
    vh_c06_memberrep_ws_1_4 = member_rep(1, 4, SequenceType::Williamson);
    vh_c06_reps_ws_2_2_0 = reps(2, 2, SequenceType::Williamson, 0, 1); // cost=10
    vh_c06_reps_ws_2_2_1 = reps(2, 2, SequenceType::Williamson, 1, 2); // cost=11
    vh_c06_reps_ws_2_2_2 = reps(2, 2, SequenceType::Williamson, 2, 3); // cost=13
    vh_c06_reps_ws_2_2_3 = reps(2, 2, SequenceType::Williamson, 3, 4); // cost=11
    vh_c06_reps_ws_2_2_4 = reps(2, 2, SequenceType::Williamson, 4, 5); // cost=10
    vh_c06_reps_ws_2_2_5 = reps(2, 2, SequenceType::Williamson, 5, 6); // cost=12
    vh_c06_reps_ws_2_2_6 = reps(2, 2, SequenceType::Williamson, 6, 7); // cost=12
    vh_c06_reps_ws_2_2_7 = reps(2, 2, SequenceType::Williamson, 7, 8); // cost=6
    vh_c06_reps_ws_2_2_8 = reps(2, 2, SequenceType::Williamson, 8, 99); // cost=4
    vh_c06_memberrep_ws_2_2 = member_rep(2, 2, SequenceType::Williamson); // cost=4
    vh_c06_reps_ws_3_1 = reps(3, 1, SequenceType::Williamson, 0, 99);
    vh_c06_memberrep_ws_3_1 = member_rep(3, 1, SequenceType::Williamson);
    vh_c06_reps_ws_3_3 = reps(3, 3, SequenceType::Williamson, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_ws_3_3 = member_rep(3, 3, SequenceType::Williamson); // tier=thorough cost=24
    vh_c06_reps_ws_4_1_0 = reps(4, 1, SequenceType::Williamson, 0, 1);
    vh_c06_reps_ws_4_1_1 = reps(4, 1, SequenceType::Williamson, 1, 2);
    vh_c06_reps_ws_4_1_2 = reps(4, 1, SequenceType::Williamson, 2, 3);
    vh_c06_reps_ws_4_1_3 = reps(4, 1, SequenceType::Williamson, 3, 4);
    vh_c06_reps_ws_4_1_4 = reps(4, 1, SequenceType::Williamson, 4, 5);
    vh_c06_reps_ws_4_1_5 = reps(4, 1, SequenceType::Williamson, 5, 6);
    vh_c06_reps_ws_4_1_6 = reps(4, 1, SequenceType::Williamson, 6, 7);
    vh_c06_reps_ws_4_1_7 = reps(4, 1, SequenceType::Williamson, 7, 8);
    vh_c06_reps_ws_4_1_8 = reps(4, 1, SequenceType::Williamson, 8, 99);
    vh_c06_memberrep_ws_4_1 = member_rep(4, 1, SequenceType::Williamson);
    vh_c06_reps_ws_5_1 = reps(5, 1, SequenceType::Williamson, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_ws_5_1 = member_rep(5, 1, SequenceType::Williamson); // cost=5
    vh_c06_reps_ws_5_2 = reps(5, 2, SequenceType::Williamson, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_ws_5_2 = member_rep(5, 2, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_0 = reps(6, 1, SequenceType::Williamson, 0, 1); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_1 = reps(6, 1, SequenceType::Williamson, 1, 2); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_2 = reps(6, 1, SequenceType::Williamson, 2, 3); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_3 = reps(6, 1, SequenceType::Williamson, 3, 4); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_4 = reps(6, 1, SequenceType::Williamson, 4, 5); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_5 = reps(6, 1, SequenceType::Williamson, 5, 6); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_6 = reps(6, 1, SequenceType::Williamson, 6, 7); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_7 = reps(6, 1, SequenceType::Williamson, 7, 8); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_6_1_8 = reps(6, 1, SequenceType::Williamson, 8, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_ws_6_1 = member_rep(6, 1, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
    vh_c06_reps_ws_7_1 = reps(7, 1, SequenceType::Williamson, 0, 99); // tier=thorough cost=200 timeout=400
    vh_c06_memberrep_ws_7_1 = member_rep(7, 1, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_ws_1_4 = valid_rep(1, 4, SequenceType::Williamson);
    vh_c06_validrep_ws_2_2 = valid_rep(2, 2, SequenceType::Williamson); // cost=7
    vh_c06_validrep_ws_2_4 = valid_rep(2, 4, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_ws_3_3 = valid_rep(3, 3, SequenceType::Williamson);
    vh_c06_validrep_ws_3_4 = valid_rep(3, 4, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_ws_4_2 = valid_rep(4, 2, SequenceType::Williamson);
    vh_c06_validrep_ws_4_4 = valid_rep(4, 4, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
    vh_c06_validrep_ws_5_4 = valid_rep(5, 4, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_1_4_0 = pair(1, 4, SequenceType::Williamson, 0);
    vh_c06_pair_ws_1_4_1 = pair(1, 4, SequenceType::Williamson, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_1_4_2 = pair(1, 4, SequenceType::Williamson, 2); // cost=6
    vh_c06_pair_ws_1_4_3 = pair(1, 4, SequenceType::Williamson, 3); // cost=7
    vh_c06_pair_ws_1_4_4 = pair(1, 4, SequenceType::Williamson, 4);
    vh_c06_pair_ws_2_1_0 = pair(2, 1, SequenceType::Williamson, 0); // cost=6
    vh_c06_pair_ws_2_1_1 = pair(2, 1, SequenceType::Williamson, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_2_1_2 = pair(2, 1, SequenceType::Williamson, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_2_1_3 = pair(2, 1, SequenceType::Williamson, 3); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_2_1_4 = pair(2, 1, SequenceType::Williamson, 4); // cost=5
    vh_c06_pair_ws_2_2_0 = pair(2, 2, SequenceType::Williamson, 0); // cost=6
    vh_c06_pair_ws_2_2_1 = pair(2, 2, SequenceType::Williamson, 1); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_2_2_2 = pair(2, 2, SequenceType::Williamson, 2); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_2_2_3 = pair(2, 2, SequenceType::Williamson, 3); // tier=thorough cost=200 timeout=400
    vh_c06_pair_ws_2_2_4 = pair(2, 2, SequenceType::Williamson, 4); // cost=5
    vh_c06_pair_ws_3_1_0 = pair(3, 1, SequenceType::Williamson, 0);
    vh_c06_pair_ws_3_1_1 = pair(3, 1, SequenceType::Williamson, 1); // tier=thorough cost=22
    vh_c06_pair_ws_3_1_2 = pair(3, 1, SequenceType::Williamson, 2); // tier=thorough cost=24
    vh_c06_pair_ws_3_1_3 = pair(3, 1, SequenceType::Williamson, 3); // tier=thorough cost=33
    vh_c06_least_ws_1_4 = least(1, 4, SequenceType::Williamson); // tier=thorough cost=31
    vh_c06_least_ws_1_2 = least(1, 2, SequenceType::Williamson); // cost=11
    vh_c06_least_ws_2_1 = least(2, 1, SequenceType::Williamson); // tier=thorough cost=200 timeout=400
}
