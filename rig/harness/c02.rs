use super::common::*;
use crate::sequences::matching::verify_cross_correlation;

/// the quaternion sequence of a quadruple is perfect exactly for QT quadruples
fn perfect(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let s = to_quadseq(&q);
    let d = def_qts(&q);
    check(s.to_qs().is_perfect() == d, "is_perfect of the quaternion sequence differs from the QTS definition");
    check(s.verify_cross_correlation() == def_qcross(&q), "verify_cross_correlation differs from the quaternion-type cross-correlation condition");
    reach();
}
/// the three cross-correlation equations in the mirrored convention used by the
/// matching stage: WX+ZY, WY+XZ, WZ+YX. For complementary quadruples these
/// equations and those of def_qcross imply one another (a square matrix commutes
/// with its inverse); `mirror` has the solver show it.
fn cond(q: &Q, k: usize) -> bool {
    let (a, b, c, d) = [(0, 1, 3, 2), (0, 2, 1, 3), (0, 3, 2, 1)][k];
    let mut ok = true;
    for t in 1..q[0].len() {
        ok &= asy(&q[a], &q[b], t) + asy(&q[c], &q[d], t) == 0;
    }
    ok
}
fn mirror(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let s = to_quadseq(&q);
    let m = s.is_periodic_complementary() & cond(&q, 0) & cond(&q, 1) & cond(&q, 2);
    check(s.verify_qts() == m, "the mirrored cross-correlation equations do not characterise QT quadruples");
    reach();
}
/// the matching stage's verifier: for sequences given in any labelled order, the
/// two equations the match key of the first two does not already settle
fn labelled(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let tag = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
    let c = [cond(&q, 0), cond(&q, 1), cond(&q, 2)];
    for a in 0..4 {
        for b in 0..4 {
            for e in 0..4 {
                for f in 0..4 {
                    if a == b || a == e || a == f || b == e || b == f || e == f {
                        continue;
                    }
                    let tags = vec![tag[a], tag[b], tag[e], tag[f]];
                    let v = verify_cross_correlation(&[&q[a], &q[b], &q[e], &q[f]], &tags);
                    // which equation pairs a with b
                    let m = if (a == 0 && b == 1) || (a == 1 && b == 0) || (a > 1 && b > 1) {
                        0
                    } else if (a == 0 && b == 2) || (a == 2 && b == 0) || (a == 1 && b == 3) || (a == 3 && b == 1) {
                        1
                    } else {
                        2
                    };
                    check(v == (c[(m + 1) % 3] & c[(m + 2) % 3]), "the labelled cross-correlation verifier differs from the two equations left open by the match");
                }
            }
        }
    }
    reach();
}

harnesses! {
    vh_c02_perfect_1 = perfect(1);
    vh_c02_perfect_2 = perfect(2);
    vh_c02_perfect_3 = perfect(3);
    vh_c02_perfect_4 = perfect(4);
    vh_c02_perfect_5 = perfect(5);
    vh_c02_perfect_6 = perfect(6);
    vh_c02_perfect_7 = perfect(7);
    vh_c02_perfect_8 = perfect(8);
    vh_c02_perfect_9 = perfect(9);
    vh_c02_perfect_10 = perfect(10);
    vh_c02_perfect_11 = perfect(11);
    vh_c02_perfect_12 = perfect(12);
    vh_c02_perfect_13 = perfect(13);
    vh_c02_perfect_14 = perfect(14);
    vh_c02_perfect_15 = perfect(15);
    vh_c02_perfect_16 = perfect(16);
    vh_c02_perfect_17 = perfect(17);
    vh_c02_perfect_18 = perfect(18);
    vh_c02_perfect_20 = perfect(20);
    vh_c02_perfect_21 = perfect(21); // tier=thorough
    vh_c02_perfect_22 = perfect(22); // tier=thorough
    vh_c02_perfect_24 = perfect(24);
    vh_c02_perfect_25 = perfect(25); // tier=thorough
    vh_c02_perfect_26 = perfect(26); // tier=thorough
    vh_c02_perfect_27 = perfect(27); // tier=thorough
    vh_c02_perfect_28 = perfect(28); // tier=thorough
    vh_c02_perfect_30 = perfect(30); // tier=thorough
    vh_c02_perfect_32 = perfect(32); // tier=thorough
    vh_c02_perfect_36 = perfect(36); // tier=thorough
    vh_c02_perfect_40 = perfect(40); // tier=thorough
    vh_c02_labelled_1 = labelled(1);
    vh_c02_labelled_2 = labelled(2);
    vh_c02_labelled_3 = labelled(3);
    vh_c02_labelled_4 = labelled(4);
    vh_c02_labelled_5 = labelled(5);
    vh_c02_labelled_6 = labelled(6);
    vh_c02_labelled_7 = labelled(7);
    vh_c02_labelled_8 = labelled(8);
    vh_c02_labelled_9 = labelled(9);
    vh_c02_labelled_10 = labelled(10);
    vh_c02_labelled_12 = labelled(12);
    vh_c02_labelled_16 = labelled(16);
    vh_c02_labelled_20 = labelled(20);
    vh_c02_mirror_1 = mirror(1);
    vh_c02_mirror_2 = mirror(2);
    vh_c02_mirror_3 = mirror(3);
    vh_c02_mirror_4 = mirror(4);
    vh_c02_mirror_5 = mirror(5); // cost=20
    vh_c02_mirror_6 = mirror(6); // tier=thorough cost=200 timeout=3000
}
