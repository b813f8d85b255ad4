use super::common::*;
use crate::find::find_write::symmetric;
use crate::sequences::sequence::QS;
use crate::sequences::williamson::{cross_correlation, periodic_autocorrelation};
fn verdicts(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let s = to_quadseq(&q);
    check(s.verify(SequenceType::QuaternionType) == def_qts(&q), "verify(qts) differs from the definition");
    check(s.verify(SequenceType::WilliamsonType) == def_wts(&q), "verify(wts) differs from the definition");
    check(s.verify(SequenceType::Williamson) == def_ws(&q), "verify(ws) differs from the definition");
    check(s.verify_qts() == def_qts(&q), "verify_qts differs from the definition");
    check(s.verify_wts() == def_wts(&q), "verify_wts differs from the definition");
    check(s.verify_ws() == def_ws(&q), "verify_ws differs from the definition");
    check(s.is_periodic_complementary() == def_complementary(&q), "is_periodic_complementary differs from the definition");
    check(s.is_amicable() == def_amicable(&q), "is_amicable differs from the definition");
    check(s.is_symmetric() == def_symmetric(&q), "is_symmetric differs from the definition");
    for t in [SequenceType::ItoType, SequenceType::ExtraTypeI, SequenceType::ExtraTypeII, SequenceType::ExtraTypeIII] {
        check(!s.verify(t), "an unsupported type is verified");
    }
    reach();
}
fn values(n: usize) {
    no_feasibility();
    let (a, b) = (pm_vec(n), pm_vec(n));
    for t in 0..n {
        check(periodic_autocorrelation(&a, t) as i64 == pcc(&a, &a, t), "periodic_autocorrelation differs from the definition");
        check(cross_correlation(&a, &b, t) as i64 == pcc(&a, &b, t), "cross_correlation differs from the definition");
    }
    let mut sy = true;
    for t in 1..n {
        sy &= a[t] == a[n - t];
    }
    check(symmetric(&a) == sy, "the symmetry filter differs from the definition");
    reach();
}
/// long sequences: no wrap-around of the sums
fn wide(n: usize) {
    no_feasibility();
    let (a, b) = (pm_vec(n), pm_vec(n));
    for t in [0, 1, n / 2, n - 1] {
        check(periodic_autocorrelation(&a, t) as i64 == pcc(&a, &a, t), "periodic_autocorrelation differs from the definition");
        check(cross_correlation(&a, &b, t) as i64 == pcc(&a, &b, t), "cross_correlation differs from the definition");
    }
    reach();
}
/// verdicts on long quadruples of which only k entries are free (the others follow a fixed pattern)
fn wide_verdicts(n: usize, k: usize, pat: usize) {
    no_feasibility();
    let mut q: Q = [vec![1i8; n], vec![1i8; n], vec![1i8; n], vec![1i8; n]];
    if pat == 1 {
        // W = X = 1, Y = Z alternating: the correlations cancel at odd shifts only
        for i in 0..n {
            q[2][i] = if i % 2 == 0 { 1 } else { -1 };
            q[3][i] = q[2][i];
        }
    }
    for i in 0..k {
        q[i % 4][(i * 7) % n] = pm();
    }
    let s = to_quadseq(&q);
    check(s.is_periodic_complementary() == def_complementary(&q), "is_periodic_complementary differs from the definition");
    check(s.is_amicable() == def_amicable(&q), "is_amicable differs from the definition");
    check(s.verify_cross_correlation() == def_qcross(&q), "verify_cross_correlation differs from the definition");
    check(s.is_symmetric() == def_symmetric(&q), "is_symmetric differs from the definition");
    reach();
}
/// symmetric quadruples are amicable, amicable ones satisfy the quaternion condition
fn hierarchy(n: usize) {
    no_feasibility();
    let mut q = sym_quad(n);
    for k in 0..4 {
        for t in 1..n {
            q[k][t] = q[k][std::cmp::min(t, n - t)];
        }
    }
    let s = to_quadseq(&q);
    check(s.is_symmetric(), "a symmetric quadruple is not recognised");
    check(s.is_amicable(), "a symmetric quadruple is not amicable");
    check(s.verify_cross_correlation(), "a symmetric quadruple fails the quaternion-type condition");
    check(s.verify_ws() == s.is_periodic_complementary() && s.verify_wts() == s.verify_ws() && s.verify_qts() == s.verify_ws(), "a Williamson quadruple is not Williamson-type and quaternion-type");
    reach();
}
fn implied(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let s = to_quadseq(&q);
    check(!s.is_amicable() || s.verify_cross_correlation(), "an amicable quadruple fails the quaternion-type condition");
    check(!s.verify_wts() || s.verify_qts(), "a Williamson-type quadruple is not quaternion-type");
    reach();
}
/// quaternion sequences: symmetry and odd-perfection against their definitions
fn quat(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let s = to_quadseq(&q).to_qs();
    check(s.is_symmetric() == def_symmetric(&q), "the symmetry test of quaternion sequences differs from the definition");
    // odd perfection: negaperiodic extension, in the four real coordinates
    let mut c = [vec![], vec![], vec![], vec![]];
    for v in s.values().iter() {
        c[0].push((v.s * 2.0) as i64);
        c[1].push((v.v.x * 2.0) as i64);
        c[2].push((v.v.y * 2.0) as i64);
        c[3].push((v.v.z * 2.0) as i64);
    }
    let mut ok = true;
    for t in 1..n {
        let mut r = [0i64; 4];
        for i in 0..n {
            let j = (i + t) % n;
            let g = if i + t >= n { -1 } else { 1 };
            let (a, b) = ([c[0][i], c[1][i], c[2][i], c[3][i]], [c[0][j], -c[1][j], -c[2][j], -c[3][j]]);
            r[0] += g * (a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]);
            r[1] += g * (a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2]);
            r[2] += g * (a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1]);
            r[3] += g * (a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]);
        }
        ok &= r[0] == 0 && r[1] == 0 && r[2] == 0 && r[3] == 0;
    }
    check(s.is_odd_perfect() == ok, "is_odd_perfect differs from the definition");
    reach();
}
harnesses! {
    vh_c03_verdicts_1 = verdicts(1);
    vh_c03_verdicts_2 = verdicts(2);
    vh_c03_verdicts_3 = verdicts(3);
    vh_c03_verdicts_4 = verdicts(4);
    vh_c03_verdicts_5 = verdicts(5);
    vh_c03_verdicts_6 = verdicts(6);
    vh_c03_verdicts_7 = verdicts(7);
    vh_c03_verdicts_8 = verdicts(8);
    vh_c03_verdicts_9 = verdicts(9);
    vh_c03_verdicts_10 = verdicts(10);
    vh_c03_verdicts_11 = verdicts(11);
    vh_c03_verdicts_12 = verdicts(12);
    vh_c03_verdicts_13 = verdicts(13);
    vh_c03_verdicts_14 = verdicts(14);
    vh_c03_verdicts_16 = verdicts(16);
    vh_c03_verdicts_18 = verdicts(18);
    vh_c03_verdicts_20 = verdicts(20);
    vh_c03_verdicts_15 = verdicts(15);
    vh_c03_verdicts_17 = verdicts(17);
    vh_c03_verdicts_19 = verdicts(19);
    vh_c03_verdicts_21 = verdicts(21);
    vh_c03_verdicts_22 = verdicts(22);
    vh_c03_verdicts_24 = verdicts(24);
    vh_c03_verdicts_23 = verdicts(23);
    vh_c03_verdicts_25 = verdicts(25); // cost=5
    vh_c03_verdicts_26 = verdicts(26); // cost=6
    vh_c03_verdicts_28 = verdicts(28); // cost=10
    vh_c03_verdicts_30 = verdicts(30); // cost=35
    vh_c03_verdicts_32 = verdicts(32); // cost=35
    vh_c03_verdicts_40 = verdicts(40); // cost=35
    vh_c03_values_1 = values(1);
    vh_c03_values_2 = values(2);
    vh_c03_values_3 = values(3);
    vh_c03_values_4 = values(4);
    vh_c03_values_5 = values(5);
    vh_c03_values_6 = values(6);
    vh_c03_values_7 = values(7);
    vh_c03_values_8 = values(8);
    vh_c03_values_9 = values(9);
    vh_c03_values_10 = values(10);
    vh_c03_values_11 = values(11);
    vh_c03_values_12 = values(12);
    vh_c03_values_16 = values(16);
    vh_c03_values_25 = values(25);
    vh_c03_values_32 = values(32);
    vh_c03_values_48 = values(48);
    vh_c03_wide_64 = wide(64);
    vh_c03_wide_100 = wide(100);
    vh_c03_wide_127 = wide(127);
    vh_c03_wide_128 = wide(128);
    vh_c03_wide_129 = wide(129);
    vh_c03_wide_130 = wide(130);
    vh_c03_wide_200 = wide(200);
    vh_c03_wide_256 = wide(256);
    vh_c03_wide_257 = wide(257);
    vh_c03_widev_32_0 = wide_verdicts(32, 8, 0);
    vh_c03_widev_32_1 = wide_verdicts(32, 8, 1);
    vh_c03_widev_33_0 = wide_verdicts(33, 8, 0);
    vh_c03_widev_33_1 = wide_verdicts(33, 8, 1);
    vh_c03_widev_64_0 = wide_verdicts(64, 8, 0);
    vh_c03_widev_64_1 = wide_verdicts(64, 8, 1);
    vh_c03_widev_65_0 = wide_verdicts(65, 8, 0);
    vh_c03_widev_65_1 = wide_verdicts(65, 8, 1);
    vh_c03_widev_128_0 = wide_verdicts(128, 6, 0);
    vh_c03_widev_128_1 = wide_verdicts(128, 6, 1);
    vh_c03_hierarchy_1 = hierarchy(1);
    vh_c03_hierarchy_2 = hierarchy(2);
    vh_c03_hierarchy_3 = hierarchy(3);
    vh_c03_hierarchy_4 = hierarchy(4);
    vh_c03_hierarchy_5 = hierarchy(5);
    vh_c03_hierarchy_6 = hierarchy(6);
    vh_c03_hierarchy_7 = hierarchy(7);
    vh_c03_hierarchy_8 = hierarchy(8);
    vh_c03_hierarchy_9 = hierarchy(9);
    vh_c03_hierarchy_10 = hierarchy(10);
    vh_c03_hierarchy_13 = hierarchy(13);
    vh_c03_hierarchy_16 = hierarchy(16);
    vh_c03_hierarchy_20 = hierarchy(20);
    vh_c03_hierarchy_24 = hierarchy(24); // tier=thorough
    vh_c03_hierarchy_32 = hierarchy(32); // tier=thorough
    vh_c03_implied_1 = implied(1);
    vh_c03_implied_2 = implied(2);
    vh_c03_implied_3 = implied(3);
    vh_c03_implied_4 = implied(4);
    vh_c03_implied_5 = implied(5);
    vh_c03_implied_6 = implied(6);

    vh_c03_implied_8 = implied(8);

    vh_c03_quat_1 = quat(1);
    vh_c03_quat_2 = quat(2);
    vh_c03_quat_3 = quat(3);
    vh_c03_quat_4 = quat(4);
    vh_c03_quat_5 = quat(5);
    vh_c03_quat_6 = quat(6);
    vh_c03_quat_8 = quat(8);
    vh_c03_quat_7 = quat(7); // tier=thorough
    vh_c03_quat_10 = quat(10); // tier=thorough
}
